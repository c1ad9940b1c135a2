"""Checks over histories, schedules and API forms."""

import itertools
import re
import sys

import reparsec
from reparsec import Delay, ErrorItem, Insert, ParseError, Skip
from reparsec import layout as rl
from reparsec import lexer as rx
from reparsec import primitive as rp
from reparsec import scannerless as rs
from reparsec import sequence as rq

from . import families as fm
from . import sched
from .base import (
    CHUNKS, Conform, GrammarCheck, Q, Space, TermSpace, eof_wrap, lexed,
    text
)
from .checks_grammar import NESTED, far_words
from .engine import Check
from .grammar import (
    FUNCTIONS, METHODS, NAMED, PREDS, B, Family, MethodApi, SharingApi, U,
    binop, build, contains, show, size, tuples, words
)
from .observe import Stream, observe, parse_real, unwrap, unwrap0
from .refmodel import Model, plain, repair


def children(t):
    return [x for x in t[1:] if isinstance(x, tuple) and x
            and isinstance(x[0], str) and x[0] in _ALL]


from .grammar import ALL as _ALL  # noqa: E402


def subterms(t):
    """Closed subterms, largest first, each once."""
    seen = []
    todo = [t]
    while todo:
        x = todo.pop(0)
        if x not in seen:
            seen.append(x)
        todo.extend(children(x))
    return [x for x in seen if not _open(x, ())]


def _open(t, bound):
    if t[0] == "ref":
        return t[1] not in bound
    if t[0] == "rec":
        return _open(t[2], bound + (t[1],))
    return any(_open(x, bound) for x in children(t))


def euler_pairs(k):
    """A walk over 0..k-1 in which every ordered pair occurs in a row."""
    adj = {i: list(range(k - 1, -1, -1)) for i in range(k)}
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if adj[v]:
            stack.append(adj[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


# --- C10: parsers and results can be reused ---------------------------------------

class Boom(Exception):
    """Raised from inside a parse, by the input."""


class Faulty(str):
    """Text that raises at the k-th access by index."""

    def __new__(cls, s, k):
        self = str.__new__(cls, s)
        self.left = k
        return self

    def __getitem__(self, i):
        if self.left == 0:
            raise Boom()
        self.left -= 1
        return str.__getitem__(self, i)


class Throwing(MethodApi):
    """The user function called when `left` is 0 raises."""
    left = None

    def wrap(self, kind, fn):
        def user(*args):
            if self.left is not None:
                if self.left == 0:
                    raise Boom()
                self.left -= 1
            return fn(*args)
        return user


def scribble(x):
    """Mutates every list reachable from a value."""
    if isinstance(x, list):
        for y in x:
            scribble(y)
        x.append("scribble")
        x.reverse()
    elif isinstance(x, tuple):
        for y in x:
            scribble(y)


def scribble_errors(result, ops):
    try:
        result.unwrap()
    except ParseError as e:
        for i in e.errors:
            i.expected.append("scribble")
            i.expected.reverse()
            i.loc_str = "scribble"
            if ops and isinstance(i.op, Skip):
                i.op.count += 99
            elif ops and isinstance(i.op, Insert):
                i.op.label += "scribble"
            i.op = None
        e.errors.append("scribble")


REUSE = Family(
    [("sym", "a"), ("sym", "b"), ("sat", "isa"), ("eof",)],
    [U("fmap", "f"), U("maybe"), U("many"), U("attempt"), U("label", "L"),
     U("recover"), U("rw", "X", None), U("rwf", "F", None), U("delay")],
    [B("seq"), B("alt"), B("sep_by"), B("chainl1"), fm.bind_ab])


# two parsers that repair themselves
PAIRS = Family(
    [("sym", "a"), ("sat", "isb"), ("rw", ("sym", "b"), "X", None),
     ("recover", ("seq", ("sym", "a"), ("sym", "b"))),
     ("attempt", ("seq", ("sym", "a"), ("rwf", ("sym", "b"), "list", None))),
     ("many", ("sym", "a"))],
    [], [B("seq"), B("alt"), fm.bind_ab])
LISTS = Family([("sym", "a"), ("sat", "isb")], [],
               [B("sep_by"), B("chainl1"), B("chainr1"), B("seql"),
                B("seqr")])

# every parse makes new values, which the user may modify
MADE = Family(
    [("fresh",), ("sym", "a"), ("rwf", ("sym", "b"), "list", None)],
    [U("maybe"), U("many"), U("attempt"), U("label", "L"), U("delay")],
    [B("seq"), B("alt"), B("sep_by"), B("seql"), B("seqr"), B("chainl1"),
     B("chainr1"), lambda g, h: ("bind", g, "a", h, ("fresh",))])


# a parser that is at different columns in different texts, repaired or not
NEXT = ("re", r"[ \n]*", 0)
A_, B_ = ("sym", "a"), ("sym", "b")
COLUMNS = Family(
    [("seqr", NEXT, ("block", ("seq", A_, ("seqr", NEXT, t))))
     for t in (("indented", 1, A_), ("aligned", A_),
               ("indented", 1, ("rw", B_, "X", None)),
               ("seq", ("maybe", ("indented", 1, A_)), ("seqr", NEXT, (
                   "aligned", A_))))] +
    [("seqr", NEXT, ("block", ("seq", ("block", (
        "recover", ("seq", A_, B_))), ("seqr", NEXT, ("aligned", A_))))),
     ("seqr", NEXT, ("block", ("seq", ("seq", A_, ("block", (
         "rw", B_, "X", None))), ("seqr", NEXT, ("aligned", A_)))))],
    [], [])


def apart(f):
    """f, with what == does not look at in tokens."""
    def g(*args):
        return taken_apart(f(*args))
    return g


def taken_apart(x):
    if isinstance(x, tuple):
        return tuple(map(taken_apart, x))
    if isinstance(x, list):
        return [taken_apart(y) for y in x]
    if isinstance(x, rx.Token):
        return ("token", x.kind, x.value, tuple(x.start), tuple(x.end))
    return x


see = apart(observe)


class C10(Check):
    pid = "C10"
    level = "exploration"
    technique = ("exhaustive exploration of bounded operation histories on "
                 "shared parser and result objects, against fresh parsers")
    assumptions = [
        "user functions are pure; grammars, inputs and histories are "
        "limited to the enumerated ones",
    ]
    minimum = {"units": 100, "pairs": 10000, "lifetimes": 10000,
               "buffers": 10000, "faults": 1000}

    # (family, words for pair histories, runner)
    CLOSED = {
        "core": (REUSE, Q(3, 4), ("", "a", "b", "ab", "xa", "aa",
                                  "aba"), "index"),
        "made": (MADE, Q(3, 4), ("", "a", "ab", "b"), "index"),
        "text": (fm.TEXT, Q(2, 3), ("", "a", "ab", "a\nb", "b\n", "xa",
                                    "\n\na"), "text"),
        "layout": (fm.LAYOUT, Q(3, 4), ("", "a", " a", "a\na", "a\n a",
                                        "a\n  a"), "text"),
        "tokens": (fm.TOKENS, Q(3, 3), ("", "a", "b", "ab", "b a", "aa\nb"),
                   "tokens"),
    }
    DEEP_WORDS = {
        "json": ("1", "[]", "[1,1]", "{s:1}", "[1", "[,1]", "{s1}", "x",
                 "[[1],", "{s:[1,1}"),
        "expr-rw": ("1", "1+1", "1*1+1", "(1", "+", "1+", "(1+1)*1", "11"),
        "tutorial-text": ("1", "1,\n1", "1,,1", "1\n\n,1", "1,1\n1", ","),
        "stmt": ("a=1;", "a(a=1;);", "a();!1;", "a=;", "a(!;", ";"),
        "nested": ("", "()", "(())()", "(", "())", "((("),
        "fields": ("ad", "abccd", "abc", "bd", "", "aad"),
        "yaml": ("a: b", "a:\n  b: a\nb: a", "a:\n b: a", "a: b\n b: a",
                 "a:\n  a: a\n  b:\n    a: b"),
    }

    def units(self, tier):
        for name, (family, size, _, _) in self.CLOSED.items():
            for t in family.upto(size[tier]):
                yield ("closed", name, t, tier)
        for name in self.DEEP_WORDS:
            for i in range(CHUNKS):
                yield ("deep", name, i, tier)

    def bounds(self, tier):
        out = {n: "all terms up to %d constructors, their subterms sharing "
               "parser objects; words %r" % (s[tier], w)
               for n, (_, s, w, _) in self.CLOSED.items()}
        for n, w in self.DEEP_WORDS.items():
            out["grammar " + n] = "words %r" % (w,)
        out["histories"] = (
            "(1) walks containing every ordered pair of operations (parser, "
            "word, recovery off/on); (2) for every pair of operations, every "
            "order of parse A, parse B, unwrap/apart(unwrap)(recover) of each, with "
            "everything returned being modified in between; (3) for every "
            "operation, an exception raised at every token access and at "
            "every call of a user function, followed by every operation; (4) for every ordered pair of words, the "
            "same list with the one content and then the other, or another "
            "string at the address of the first")
        return out

    def run(self, unit, ctx):
        kind, name, what, tier = unit
        if kind == "closed":
            _, _, ws, runner = self.CLOSED[name]
            term, part, parts = what, 0, 1
        else:
            term, runner = fm.DEEP[name][:2]
            ws, part, parts = self.DEEP_WORDS[name], what, CHUNKS
        if runner == "tokens":
            ws = [fm.lex(w) for w in ws]
        api = SharingApi()
        terms = subterms(term)[:3]
        if not contains(term, ("rec",)):
            terms.append(("many", term))
            terms.append(("alt", ("label", term, "K"), term))
        fresh = {}

        def want(op):
            # a parser of its own, built from scratch
            if op not in fresh:
                t, i, recover = op
                fresh[op] = see(build(t), ws[i], recover, None, runner)
            return fresh[op]

        ops = [(t, i, r) for t in terms for i in range(len(ws))
               for r in (False, True)]
        pool = {t: build(t, api) for t in terms}

        def fail(what, history, op, got):
            ctx.fail(what, grammar=show(term), history=[
                (show(t), ws[i], "recover" if r else "plain")
                for t, i, r in history],
                operation=(show(op[0]), ws[op[1]], op[2]),
                expected=fresh[op], observed=got)

        ctx.where = show(term)
        for op in ops:
            want(op)
        if part == 0:
            last = []
            for k in euler_pairs(len(ops)):
                op = ops[k]
                got = see(pool[op[0]], ws[op[1]], op[2], None, runner)
                ctx.count("evaluations")
                ctx.outcome(got)
                if last:
                    ctx.count("pairs")
                if got != fresh[op]:
                    fail("a parser behaves differently after it has been "
                         "used", last, op, got)
                last = [op]
            for op in ops:
                got = see(build(op[0]), ws[op[1]], op[2], None, runner)
                if got != fresh[op]:
                    fail("a new parser behaves differently after others "
                         "have been used", ops, op, got)
            ctx.sample({"grammar": show(term), "operations": len(ops),
                        "history": "every ordered pair"})
        own = [op for op in ops if op[0] == term]
        if part == 0:
            self.buffers(pool[term], own, ws, runner, want, fail, ctx)
        lifetimes = list(itertools.product(own, own))
        for n, (x, y) in enumerate(lifetimes):
            if n % parts == part:
                self.lifetime(term, pool[term], x, y, ws, runner, want, fail,
                              ctx)
        if part == 0 and runner == "index":
            self.faults(term, pool, own, ops, ws, want, fail, ctx)
            self.thrown(term, own, ws, want, fail, ctx)
        if kind == "deep" or size(term) < 3:
            self.worn(term, own, part, parts, ws, runner, want, fail, ctx)

    @staticmethod
    def lifetime(term, parser, x, y, ws, runner, want, fail, ctx):
        if want(x)[0] == "exc" or want(y)[0] == "exc":
            return
        for order in ORDERS:
            ra = parse_real(parser, ws[x[1]], x[2], None, runner)
            rb = parse_real(parser, ws[y[1]], y[2], None, runner)
            ctx.count("lifetimes")
            ctx.count("evaluations")
            todo = {"a": 2, "b": 2}
            for who, recover in order:
                r, op = (ra, x) if who == "a" else (rb, y)
                got = apart(unwrap)(r, recover)
                if got != want(op)[recover]:
                    fail("a result depends on what happened to another one "
                         "or on the order of unwrapping", [x, y], op, got)
                todo[who] -= 1
                scribble_errors(r, todo[who] == 0)
                if todo[who] == 0 and got[0] == "val":
                    scribble(r.unwrap(recover=True))
        got = see(parser, ws[x[1]], x[2], None, runner)
        if got != want(x):
            fail("a parser returns something that was modified by the user "
                 "of an earlier result", [x, y], x, got)

    @staticmethod
    def buffers(parser, own, ws, runner, want, fail, ctx):
        """
        The same object is parsed again with another content, or, if its
        type does not allow that, another object at the same address.
        """
        last = []
        if runner == "tokens" or runner == "index":
            kept = []
            for k in euler_pairs(len(own)):
                op = own[k]
                kept[:] = ws[op[1]]
                got = see(parser, kept, op[2], None, runner)
                ctx.count("buffers")
                ctx.count("evaluations")
                if got != want(op):
                    fail("a parser remembers an object it has parsed, whose "
                         "content is another one by now", last, op, got)
                last = [op]
            return
        for x, y in itertools.product(own, own):
            if x[1] == y[1]:
                continue
            s = "".join(list(ws[x[1]]))
            see(parser, s, x[2], None, runner)
            ctx.count("evaluations")
            address = id(s)
            del s
            others = []
            for _ in range(8):
                s = "".join(list(ws[y[1]]))
                if id(s) == address:
                    ctx.count("buffers")
                    break
                others.append(s)
            got = see(parser, s, y[2], None, runner)
            ctx.count("evaluations")
            if got != want(y):
                fail("a parser remembers the address of an earlier input",
                     [x], y, got)

    @staticmethod
    def faults(term, pool, own, ops, ws, want, fail, ctx):
        for op in own:
            k = 0
            while True:
                s = Faulty(ws[op[1]], k)
                try:
                    parse_real(pool[term], s, op[2], None, "index")
                    raised = False
                except Boom:
                    raised = True
                except RuntimeError:
                    raised = False
                if not raised:
                    break
                ctx.count("faults")
                ctx.count("evaluations")
                for after in own:
                    got = see(pool[after[0]], ws[after[1]], after[2])
                    if got != want(after):
                        fail("a parser behaves differently after an "
                             "exception in the middle of a parse",
                             [op], after, got)
                k += 1

    WORN = 1100

    @classmethod
    def worn(cls, term, own, part, parts, ws, runner, want, fail, ctx):
        """The same over and over again, or given up over and over again."""
        parser = build(term)

        def after(op, aborted):
            for x in own:
                got = see(parser, ws[x[1]], x[2], None, runner)
                if got != want(x):
                    fail("a parser behaves differently after %d parses%s" % (
                        cls.WORN, " that were given up" * aborted), [op], x,
                        got)

        for op in own[part::parts]:
            ctx.alive()
            s = ws[op[1]]
            for _ in range(cls.WORN):
                got = observe(parser, s, op[2], None, runner)
            ctx.count("worn", cls.WORN)
            if taken_apart(got) != want(op):
                fail("a parser behaves differently the %dth time" % cls.WORN,
                     [op], op, taken_apart(got))
            after(op, False)
            if runner != "index" or want(op)[0] == "exc":
                continue
            for left in range(0, len(s) + 3, 2):
                for _ in range(cls.WORN):
                    try:
                        parse_real(parser, Faulty(s, left), op[2], None,
                                   "index")
                        break
                    except Boom:
                        ctx.count("worn")
                    except RuntimeError:
                        break
                else:
                    after(op, True)

    @staticmethod
    def thrown(term, own, ws, want, fail, ctx):
        """A user function raises at each of its calls."""
        throwing = Throwing()
        parser = build(term, throwing)
        for op in own:
            k = 0
            while True:
                throwing.left = k
                try:
                    parse_real(parser, ws[op[1]], op[2], None, "index")
                    raised = False
                except Boom:
                    raised = True
                except RuntimeError:
                    raised = False
                throwing.left = None
                if not raised:
                    break
                ctx.count("faults")
                ctx.count("evaluations")
                for after in own:
                    got = see(parser, ws[after[1]], after[2])
                    if got != want(after):
                        fail("a parser behaves differently after an "
                             "exception in a user function", [op], after,
                             got)
                k += 1

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["distinct_nontrivial"] = c.get("pairs", 0) + c.get("lifetimes", 0)
        c["rule"] = (
            "histories are enumerated as stated in bounds; each is compared "
            "with fresh parsers; non-trivial: at least two operations on the "
            "same parser object")
        return c


ORDERS = sorted(set(itertools.permutations(
    [("a", False), ("a", True), ("b", False), ("b", True)])))


# --- C11: concurrent and re-entrant parses -------------------------------------------

class C11(Check):
    pid = "C11"
    level = "exploration"
    technique = ("stateless model checking: all schedules of two threads on "
                 "shared parsers up to a preemption bound under a controlled "
                 "scheduler, and a nested parse at every callback")
    assumptions = [
        "threads switch between lines (two preemptions) or byte codes (one) "
        "of the library; switches inside built-in functions are not explored",
    ]
    minimum = {"units": 10, "schedules": 1000, "nested": 1000,
               "wedges": 10000}

    def units(self, tier):
        for name, (family, size, grains, _, _) in self.WEDGED.items():
            last = {}
            for n in range(1, size[tier] + 1):
                for t in family.iter_terms(n):
                    near = last.get(t[0], {}).get("any")
                    for args, other in last.get(t[0], {}).items():
                        if args not in ("any", arguments(t)):
                            near = other
                    last.setdefault(t[0], {})["any"] = t
                    last[t[0]][arguments(t)] = t
                    for grain in ("line", "opcode"):
                        if n <= grains[grain][tier]:
                            yield ("wedge", name, t, near, grain,
                                   tier == "thorough" or (
                                       n < 3 and grain == "line"))
        for name in C10.DEEP_WORDS:
            for i in range(CHUNKS):
                yield ("wedge-deep", name, i, tier)
        for kind in ("split", "iter"):
            for i in range(len(self.TEXTS)):
                yield ("wedge-lex", kind, i)
        n = len(sched.SCENARIOS)
        for i in range(n):
            for first in (0, 1):
                parts = 32
                for part in range(parts):
                    if part < 8:
                        yield ("opcode", i, first, 1, part, 8)
                    if tier == "thorough" or sched.SCENARIOS[i].quick:
                        yield ("line", i, first, 2, part, parts)
        if tier == "thorough":
            for i in range(n):
                if sched.SCENARIOS[i].tiny:
                    for first in (0, 1):
                        for part in range(64):
                            yield ("opcode", i, first, 2, part, 64)
        for name, size in (("core", Q(3, 4)), ("text", Q(2, 3)),
                           ("layout", Q(3, 3)), ("tokens", Q(2, 3))):
            for t in C10.CLOSED[name][0].upto(size[tier]):
                yield ("nested", name, t)
        for name in C10.DEEP_WORDS:
            yield ("nested", name, None)

    # name: (family, sizes, sizes per grain, words, runner)
    WEDGED = {
        "core": (REUSE, Q(2, 3), {"line": Q(2, 3), "opcode": Q(2, 3)},
                 ("", "a", "ab", "xab", "aba"), "index"),
        "pairs": (PAIRS, Q(3, 3), {"line": Q(3, 3), "opcode": Q(1, 3)},
                  ("", "a", "b", "xb"), "index"),
        "lists": (LISTS, Q(3, 3), {"line": Q(3, 3), "opcode": Q(1, 3)},
                  ("", "a", "xb", "aba"), "index"),
        "derived": (fm.DERIVED, Q(2, 3), {"line": Q(2, 3), "opcode": Q(1, 2)},
                    ("", "a", "ab", "xa", "aba"), "index"),
        "recovery": (fm.RECOVERY, Q(2, 3),
                     {"line": Q(2, 3), "opcode": Q(1, 2)},
                     ("", "a", "b", "xa", "aba"), "index"),
        "budget": (fm.BUDGET, Q(2, 3), {"line": Q(2, 3), "opcode": Q(1, 2)},
                   ("", "a", "bb", "aba"), "index"),
        "text": (fm.TEXT, Q(2, 3), {"line": Q(2, 3), "opcode": Q(1, 2)},
                 ("", "a", "ab", "a\nb", "xa"), "text"),
        "layout": (fm.LAYOUT, Q(3, 4), {"line": Q(3, 4), "opcode": Q(2, 3)},
                   ("", "a", " a", "a\na", "a\n a"), "text"),
        "columns": (COLUMNS, Q(1, 1), {"line": Q(1, 1), "opcode": Q(0, 1)},
                    ("a\na", "a\n a", " a\n a", "  a\n  a", " a\n  a",
                     " ax\n a", " \n  a\n   a\n  a"), "text"),
        "inserted": (Family([("seq", fm.TOK_A, ("tokins", "b", "bb"))], [],
                            []), Q(1, 1), {"line": Q(1, 1), "opcode": Q(1, 1)},
                     ("a", "a\na", "\na a", "  a"), "tokens"),
        "tokens": (fm.TOKENS, Q(2, 3), {"line": Q(2, 3), "opcode": Q(2, 2)},
                   ("", "a", "bb", "b a", "aa\nb"), "tokens"),
    }
    TEXTS = ("", "a", "b\na", "ab x", "\nx", "bb a")

    @classmethod
    def operations(cls, term, ws, runner, most=4):
        """
        Up to `most` (word, recover, outcome): distinct outcomes, the
        different kinds of outcome first, from the longest word down.
        """
        kinds = {}
        for w in sorted(ws, key=len, reverse=True):
            for r in (True, False):
                got = see(build(term), w, r, None, runner)
                kind = tuple((x[0], x[0] == "val" or len(x[1]) > 0 and
                              x[1][0][3] is None) for x in got) \
                    if got[0] != "exc" else got
                group = kinds.setdefault((kind, r), [])
                if all(g[2] != got for g in group):
                    group.append((w, r, got))
        out = []
        while len(out) < most and any(kinds.values()):
            for group in kinds.values():
                if group:
                    out.append(group.pop(0))
        return out[:most]

    def wedge(self, unit, ctx):
        if unit[0] == "wedge-lex":
            _, kind, i = unit
            f = fm.lex if kind == "split" else fm.lex_iter
            for other in self.TEXTS:
                for grain in ("line", "opcode"):
                    self.one(ctx, grain, "%s_tokens: %r, %r" % (
                        kind, self.TEXTS[i], other), lambda: (
                            lambda: lexed_by(f, self.TEXTS[i]),
                            lambda: lexed_by(f, other)))
            return
        if unit[0] == "wedge-deep":
            _, name, i, tier = unit
            term, runner = fm.DEEP[name][:2]
            ws, near, grain = C10.DEEP_WORDS[name], None, "line"
            part, full = i, tier == "thorough"
        else:
            _, name, term, near, grain, full = unit
            ws, runner = self.WEDGED[name][3:]
            part = None
        if runner == "tokens":
            ws = [fm.lex(w) for w in ws]
        ctx.where = show(term), grain
        ops = self.operations(term, ws, runner)
        if full:
            pairs = [(a, b) for a in ops for b in ops
                     if a is not b or len(ops) == 1]
        else:
            pairs = list(zip(ops, ops[1:] + ops[:1]))
            pairs += [(a, b) for a in ops for b in ops
                      if a[1] == b[1] and a is not b
                      and (a, b) not in pairs]
        if part is not None:
            pairs = pairs[part::CHUNKS]
        for a, b in pairs:
            def setup():
                p = build(term)
                return tuple(
                    lambda op=op: see(p, op[0], op[1], None, runner)
                    for op in (a, b))
            self.one(ctx, grain, "two parses with %s: %r, %r" % (
                show(term), a[:2], b[:2]), setup)
        if part is not None:
            return
        for a in ops if full else ops[:size(term) < 3]:
            if a[2][0] != "exc":
                def setup():
                    r = parse_real(build(term), a[0], a[1], None, runner)
                    return (lambda: (apart(unwrap0)(r), apart(unwrap)(r, True)),
                            lambda: (apart(unwrap)(r, True), apart(unwrap)(
                                r.fmap(lambda v: ("f", v)), True)))
                self.one(ctx, grain, "one result of %s for %r" % (
                    show(term), a[0]), setup)
        if near is not None:
            def setup():
                return tuple(
                    lambda t=t: see(
                        build(t), ops[0][0], True, None, runner)
                    for t in (term, near))
            self.one(ctx, grain, "building %s and %s, and parsing %r" % (
                show(term), show(near), ops[0][0]), setup)

    def one(self, ctx, grain, title, setup):
        n, stalls, bad = sched.wedges(setup, grain, ctx.alive)
        ctx.count("wedges", n)
        ctx.count("evaluations", n)
        ctx.count("schedules_with_blocked_thread", stalls)
        if bad is not None:
            at, want, got = bad
            ctx.fail("a thread's result depends on the schedule",
                     scenario=title, grain=grain, other_runs_before_step=at,
                     expected=want, observed=got)

    def bounds(self, tier):
        return {
            "threads": 2,
            "scenarios": [s.title for s in sched.SCENARIOS],
            "schedules": "all with <= 1 preemption between any two byte "
            "codes; all with <= 2 preemptions between any two lines (%s)" % (
                "marked scenarios" if tier == "quick" else "all scenarios, "
                "and between any two byte codes for the smallest ones"),
            "one_preemption": "for all terms of the families "
            + ", ".join("%s (lines: size %d, byte codes: size %d)" % (
                n, g["line"][tier], g["opcode"][tier])
                for n, (_, _, g, _, _) in self.WEDGED.items())
            + ": up to 4 parses with different outcomes, every one with its "
            "neighbour (every ordered pair for small terms and in the "
            "thorough tier), and: unwrapping one result twice, building and parsing "
            "with a sibling term; one operation runs between any two steps "
            "of the other",
            "nested": "a nested parse of every listed word, recovery off and "
            "on, at every token access, every location computation and every "
            "call of a user function",
        }

    def run(self, unit, ctx):
        if unit[0] == "nested":
            return self.nested(unit, ctx)
        if unit[0].startswith("wedge"):
            return self.wedge(unit, ctx)
        grain, index, first, bound, part, parts = unit
        scenario = sched.SCENARIOS[index]
        ctx.where = (scenario.title, grain)
        outcome = sched.explore(scenario, grain, first, bound, part, parts,
                                ctx.alive)
        ctx.count("schedules", outcome.schedules)
        ctx.count("evaluations", outcome.schedules)
        ctx.count("preempted", outcome.preempted)
        ctx.count("steps", outcome.steps)
        ctx.count("schedules_with_blocked_thread", outcome.stalls)
        ctx.count("replays_with_other_steps", outcome.drift)
        ctx.outcome((index, outcome.lengths))
        ctx.sample({"scenario": scenario.title, "grain": grain,
                    "steps_of_each_thread": outcome.lengths,
                    "schedules": outcome.schedules})
        if outcome.bad is not None:
            plan, want, got = outcome.bad
            ctx.fail("a thread's result depends on the schedule",
                     scenario=scenario.title, grain=grain,
                     thread_first=first, switch_after_steps=plan,
                     expected=want, observed=got)

    def nested(self, unit, ctx):
        _, name, term = unit
        if term is None:
            term, runner = fm.DEEP[name][:2]
            ws = C10.DEEP_WORDS[name]
        else:
            ws, runner = C10.CLOSED[name][2:]
        if runner == "tokens":
            ws = [fm.lex(w) for w in ws]
        fmt = (lambda l: repr(l.pos)) if runner == "index" else (
            lambda l: "%d:%d" % (l.line + 1, l.col + 1))
        if runner == "index":
            base = lambda _, s, p: reparsec.Loc(p, 0, 0)  # noqa: E731
        elif runner == "text":
            def base(_, s, p):
                return reparsec.Loc(
                    p, s.count("\n", 0, p), p - s.rfind("\n", 0, p) - 1)
        else:
            def base(_, s, p):
                if p < len(s):
                    return s[p].start
                return s[len(s) - 1].end if len(s) else reparsec.Loc(0, 0, 0)
        want = {(i, r): see(build(term), w, r, None, runner)
                for i, w in enumerate(ws) for r in (False, True)}
        api = CallingBack()
        parser = build(term, api)
        ctx.where = show(term)

        def outer(w, recover, hook):
            api.hook = hook

            def get_loc(prev, s, p):
                hook()
                return base(prev, s, p)
            seq = w if isinstance(w, str) else list(w)
            if runner == "index":
                seq = Hooked(w, hook)
            try:
                r = parser.parse(
                    seq, recover, get_loc=get_loc, fmt_loc=fmt)
                return apart(unwrap0)(r), apart(unwrap)(r, True)
            except Exception as e:
                return ("exc", type(e).__name__)

        for i, w in enumerate(ws):
            for r in (False, True):
                calls = [0]

                def count():
                    calls[0] += 1
                got = outer(w, r, count)
                if got != want[i, r]:
                    ctx.fail("callbacks change the result",
                             grammar=show(term), input=w, recover=r,
                             expected=want[i, r], observed=got)
                for k in range(calls[0]):
                    # the nested input rotates, so that every callback is
                    # combined with every nested operation over the inputs
                    for j in range(len(ws)) if calls[0] < 12 else (
                            (k + i) % len(ws),):
                        for r2 in (False, True):
                            at = [k]
                            inner = []

                            def hook():
                                at[0] -= 1
                                if at[0] == -1:
                                    inner.append(see(
                                        parser, ws[j], r2, None, runner))
                            got = outer(w, r, hook)
                            ctx.count("nested")
                            ctx.count("evaluations")
                            if got != want[i, r] or \
                                    inner != [want[j, r2]]:
                                ctx.fail(
                                    "a nested parse interferes",
                                    grammar=show(term), outer=(w, r),
                                    inner=(ws[j], r2), at_callback=k,
                                    expected=(want[i, r], want[j, r2]),
                                    observed=(got, inner))

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["distinct_nontrivial"] = c.get("preempted", 0) + c.get(
            "nested", 0) + c.get("wedges", 0)
        c["rule"] = (
            "every placement of the preemptions; non-trivial: a thread was "
            "preempted in the middle of an operation (or a parse was nested "
            "in another)")
        return c


def arguments(t):
    """What a constructor is given besides parsers."""
    return tuple(x for x in t[1:] if not isinstance(x, tuple))


def lexed_by(f, text):
    return [repr((t, t.start, t.end)) for t in f(text)]


class CallingBack(MethodApi):
    """Every function of the user calls back first."""

    hook = None

    def wrap(self, kind, fn):
        def user(*args):
            hook, self.hook = self.hook, None
            if hook is not None:
                hook()
                self.hook = hook
            return fn(*args)
        return user


class Hooked:
    """A sequence that calls back at every access."""

    def __init__(self, s, hook):
        self._s = s
        self._hook = hook

    def __len__(self):
        return len(self._s)

    def __getitem__(self, i):
        self._hook()
        return self._s[i]


# --- C12: forward declarations -----------------------------------------------------

def nullable(t, known=()):
    k = t[0]
    if k in ("eof", "pure", "purefn", "maybe", "many", "sep_by"):
        return True
    if k == "ref":
        return t[1] in known
    if k == "rec":
        return nullable(t[2], known) or nullable(t[2], known + (t[1],))
    if k in ("sym", "sat", "unexp"):
        return False
    c = children(t)
    if k == "alt":
        return any(nullable(x, known) for x in c)
    if k == "bind":
        return nullable(c[0], known) and any(
            nullable(x, known) for x in c[1:])
    if k in ("chainl1", "chainr1"):
        return nullable(c[0], known)
    return all(nullable(x, known) for x in c)


def reaches(t, name, known):
    """May t ask for `name` before it has consumed anything?"""
    k = t[0]
    if k == "ref":
        return t[1] == name
    c = children(t)
    if k in ("alt",):
        return any(reaches(x, name, known) for x in c)
    if k == "bind":
        return reaches(c[0], name, known) or (
            nullable(c[0], known) and any(
                reaches(x, name, known) for x in c[1:]))
    if k == "between":
        c = [c[0], c[2], c[1]]
    if k in ("sep_by", "chainl1", "chainr1"):
        c = [c[0], c[1], c[0]]
    for x in c:
        if reaches(x, name, known):
            return True
        if not nullable(x, known):
            return False
    return False


def productive_rec(body):
    """Recursive grammars that are not left recursive."""
    known = ()
    if nullable(body, ("v",)) and nullable(body, ()):
        known = ("v",)
    return contains(body, ("ref",)) and not reaches(body, "v", known) \
        and not doubling(body, known)


def doubling(t, known):
    """Both alternatives recurse at once: exponential in the depth."""
    c = children(t)
    if t[0] == "alt" and all(reaches(x, "v", known) for x in c):
        return True
    return any(doubling(x, known) for x in c)


REC_BODY = Family(
    [("sym", "a"), ("sym", "b"), ("ref", "v"), ("eof",)],
    [U("maybe"), U("many"), U("attempt"), U("label", "L"),
     U("recover"), U("delay")],
    [B("seq"), B("alt")])

REC_BODY2 = Family(
    [("sym", "a"), ("sym", "b"), ("ref", "v")],
    [U("maybe"), U("many")],
    [B("seq"), B("alt"), B("sep_by"), B("chainl1"),
     lambda g, h: ("between", g, h, ("ref", "v")),
     lambda g, h: ("bind", g, "a", h, ("ref", "v"))])


def rec_terms(family, sizes, wraps=(lambda t: t,)):
    def gen(tier):
        for body in family.upto(sizes[tier]):
            if productive_rec(body):
                for w in wraps:
                    yield w(("rec", "v", body))
    return gen


A_, B_ = ("sym", "a"), ("sym", "b")
D1, D2 = ("ref", "d1"), ("ref", "d2")
# definitions and composites for the life cycle; none is left recursive
DEFS = {
    "d1": (A_, ("seq", A_, ("maybe", D1)), ("alt", A_, D2),
           ("seq", B_, D2)),
    "d2": (B_, ("seq", B_, ("maybe", D1)), ("many", ("seq", A_, D2))),
}
COMPOSITES = (("seq", D1, ("eof",)), ("alt", D1, B_), ("many", D1),
              ("alt", B_, D2), ("label", D2, "L"))


class C12(Conform):
    pid = "C12"
    technique = ("exhaustive enumeration of operation sequences on forward "
                 "declarations and of recursive grammars x inputs, against "
                 "an explicit model")
    modes = (False, True)
    minimum = {"units": 100, "states": 1000, "histories": 1000,
               "undefined": 1000, "defined_twice": 100}
    spaces = {
        "recursive": TermSpace(rec_terms(REC_BODY, Q(5, 6)),
                               text("ab", 4, 4)),
        "recursive_eof": TermSpace(
            rec_terms(REC_BODY, Q(4, 5), (eof_wrap,)), text("abx", 3, 4)),
        "deeply": NESTED,
        "recursive2": TermSpace(rec_terms(REC_BODY2, Q(4, 5)),
                                text("ab", 4, 5)),
        "delayed": Space(
            Family(REUSE.leaves, [U("delay"), U("maybe"), U("many"),
                                  U("label", "L"), U("rw", "X", None),
                                  U("recover"), U("attempt")],
                   [B("seq"), B("alt")]),
            Q(3, 4), text("abx", 3, 3),
            wraps=(lambda t: ("delay", t),)),
    }
    deep = ("palindrome", "nested", "right", "json-list", "expr")
    depth = Q(4, 5)

    def units(self, tier):
        yield from Conform.units(self, tier)
        for i, defs in enumerate(itertools.product(DEFS["d1"], DEFS["d2"])):
            for c in range(len(COMPOSITES)):
                yield ("life", defs, c, self.depth[tier])

    def bounds(self, tier):
        out = Conform.bounds(self, tier)
        out["life cycle"] = (
            "two forward declarations, definitions %r, composites %r; all "
            "sequences of %d operations out of: define each, build the "
            "composite, parse each (both modes), each followed by parsing "
            "everything built so far" % (
                {k: list(map(show, v)) for k, v in DEFS.items()},
                list(map(show, COMPOSITES)), self.depth[tier]))
        return out

    def run(self, unit, ctx):
        if unit[0] != "life":
            return Conform.run(self, unit, ctx)
        _, defs, c, depth = unit
        terms = {"d1": defs[0], "d2": defs[1]}
        ops = [("define", "d1"), ("define", "d2"), ("build", None),
               ("redefine", "d1"), ("redefine", "d2")]
        for seq in itertools.product(ops, repeat=depth):
            self.history(terms, COMPOSITES[c], seq, ctx)

    def history(self, terms, composite, seq, ctx):
        ctx.count("histories")
        ctx.where = (terms, composite, seq)
        real = {"d1": Delay(), "d2": Delay()}
        env, penv = {}, {}
        built = [(D1, real["d1"]), (D2, real["d2"])]
        for n, (op, name) in enumerate(seq):
            if op == "build":
                built.append((composite, build(composite, METHODS, real)))
            else:
                what = terms[name] if op == "define" else ("sym", "z")
                try:
                    real[name].define(build(what, METHODS, real))
                    refused = False
                except RuntimeError:
                    refused = True
                if refused != (name in env):
                    ctx.fail("defining twice must fail, defining once must "
                             "not", history=seq[:n + 1],
                             definitions={k: show(v) for k, v
                                          in terms.items()})
                if refused:
                    ctx.count("defined_twice")
                else:
                    env[name] = repair(what, env, penv)
                    penv[name] = plain(what, penv)
            # only the last step of every prefix is new
            if n + 1 == len(seq) or op == "define":
                self.parse_all(terms, seq[:n + 1], built, env, penv, ctx)

    WORDS = ("", "a", "b", "ab", "aab", "ba", "x", "bab")

    def parse_all(self, terms, seq, built, env, penv, ctx):
        for t, parser in built:
            m = Model(t, env, penv)
            for w in self.WORDS:
                stream = Stream(w)
                for recover in (False, True):
                    st = stream.st()
                    want = m.observe(st, stream.loc, recover)
                    got = observe(parser, w, recover)
                    ctx.count("transitions", len(st.trace))
                    ctx.count("states", len(set(st.trace)))
                    ctx.count("traces_validated_against_impl")
                    if want[0] == "exc":
                        ctx.count("undefined")
                    if got != want:
                        ctx.fail("a forward declaration misbehaves",
                                 history=seq, definitions={
                                     k: show(v) for k, v in terms.items()},
                                 parser=show(t), input=w, recover=recover,
                                 expected=want, observed=got)


# --- C13: the lexer ---------------------------------------------------------------------

ALTERNATIVES = (
    "(?P<a>a)", "(?P<b>b+)", "(?P<n>\n)", "(?P<w>a\\nb)", "\\s+", "a",
    "x(?P<i>a*)", "(?P<o>a(?P<p>b)?)", "(?P<e>b*)", "(?P<l>[^\n]*)\\n",
    "(a)(?P<u>b)?", "(?P<z>$)", "(?P<s>a*?)b", "\\Z",
)


# alternatives that look around, and flags that change what they mean
LOOKING = (
    "(?<=a)(?P<k>b)", "(?P<c>a)(?=\n)", "^(?P<h>b)", "(?P<d>[ab])$",
    "\\b(?P<y>a)", "(?P<r>B)", "(?<!\n)(?P<q> )", "(?P<m>.)",
    "(?P<v>a)(?P<g>b)?(?P<f>\n)?", "\\A(?P<j>a+)",
)
FLAGS = (0, re.M, re.I, re.S, re.X)


class C13(Check):
    pid = "C13"
    technique = ("exhaustive enumeration of token specifications x texts; "
                 "an explicit scanner model predicts tokens, locations and "
                 "errors")
    assumptions = [
        "the re module is trusted to match one token; specifications and "
        "texts are limited to the enumerated ones",
    ]
    minimum = {"units": 100, "states": 10000, "lex_errors": 1000,
               "tokens": 10000, "after_newline": 1000}
    size = Q(3, 3)
    length = Q(6, 6)
    looking = Q(3, 3)

    def units(self, tier):
        for n in range(1, self.size[tier] + 1):
            for alts in itertools.permutations(range(len(ALTERNATIVES)), n):
                names = re.findall(r"\?P<(\w+)>", "".join(
                    ALTERNATIVES[i] for i in alts))
                if len(set(names)) == len(names):
                    yield ("spec", alts, self.length[tier] - (n == 3))
        for alts in ((0, 1, 4), (1, 9, 5), (7, 4, 3)):
            yield ("long", alts, 0)
        for n in range(1, self.looking[tier] + 1):
            for alts in itertools.permutations(LOOKING, n):
                for flags in FLAGS:
                    yield ("looking", alts, int(flags))

    def bounds(self, tier):
        return ("all ordered choices of 1..%d alternatives out of %r x all "
                "texts over 'ab\\nx ' of up to %d characters" % (
                    self.size[tier], ALTERNATIVES, self.length[tier])
                + "; three specifications on texts of up to 771 characters; "
                "all ordered choices of 1..%d alternatives that look "
                "around, under five flags, on texts over 'ab \\n' of up to 4 "
                "characters: %r" % (self.looking[tier], LOOKING))

    def run(self, unit, ctx):
        kind, alts, length = unit
        if kind == "looking":
            # last: anything else is skipped
            src = "|".join(alts) + "|[ab]|[ ]"
            spec = re.compile(src, length)
            for w in words("ab \n", 4):
                self.judge((src, length), spec, w, ctx)
            for w in words("aB\U0001f600\r", 3, 1):
                self.judge((src, length), spec, w, ctx)
            return
        src = "|".join(ALTERNATIVES[i] for i in alts)
        spec = re.compile(src)
        if kind == "long":
            for n in (8, 9, 10, 16, 33, 64, 100, 129, 257):
                for w in words("ab\n ", 3, 1):
                    self.judge(src, spec, w * n, ctx)
                    self.judge(src, spec, "a" * n + w, ctx)
                    self.judge(src, spec, "\n" * n + w, ctx)
            return
        for w in words("abx\n ", min(length, 5)):
            self.judge(src, spec, w, ctx)
        for w in words("a\r\n\t\u2028", 3, 1):
            self.judge(src, spec, w, ctx)
        if length > 5:
            for w in words("ab\n", length, 6):
                self.judge(src, spec, w, ctx)

    def judge(self, src, spec, w, ctx):
        ctx.where = (src, w)
        want, bad = [], None
        pos = 0
        while pos < len(w):
            ctx.count("transitions")
            m = spec.match(w, pos)
            if m is None or m.end() == pos:
                bad = self.loc(w, pos)
                break
            if m.lastgroup is not None:
                want.append((m.lastgroup, m.group(m.lastgroup),
                             self.loc(w, pos), self.loc(w, m.end())))
            pos = m.end()
        ctx.count("states")
        try:
            toks = rx.split_tokens(w, spec)
            got = [(t.kind, t.value, tuple(t.start), tuple(t.end))
                   for t in toks]
            err = None
        except rx.LexError as e:
            got, err = None, tuple(e.loc)
            if str(e) != "Lexing error at %d:%d" % (
                    e.loc.line + 1, e.loc.col + 1):
                ctx.fail("the message of the error is wrong", spec=src,
                         text=w, message=str(e), loc=e.loc)
        ctx.count("traces_validated_against_impl")
        prefix, lazy = [], None
        try:
            for t in rx.iter_tokens(w, spec):
                prefix.append(
                    (t.kind, t.value, tuple(t.start), tuple(t.end)))
        except rx.LexError as e:
            lazy = tuple(e.loc)
        if (prefix, lazy) != (want, bad):
            ctx.fail("iter_tokens must give the tokens up to the end or the "
                     "error", spec=src, text=w, expected=(want, bad),
                     observed=(prefix, lazy))
        if bad is not None:
            ctx.count("lex_errors")
            if err != bad:
                ctx.fail("the text cannot be split here, and LexError must "
                         "say so", spec=src, text=w, expected=bad,
                         observed=(got, err))
            return
        ctx.count("tokens", len(want))
        if err is not None or got != want:
            ctx.fail("the tokens do not tile the text", spec=src, text=w,
                     expected=want, observed=(got, err))
        if not isinstance(toks, list):
            ctx.fail("split_tokens must return a list", spec=src, text=w)
        ctx.outcome(want)
        for t in want:
            if t[2][1] > 0 and t[2][2] > 0:
                ctx.count("after_newline")
                ctx.sample({"spec": src, "text": w, "tokens": got})

    @staticmethod
    def loc(w, pos):
        line, col = 0, 0
        for c in w[:pos]:
            line, col = (line + 1, 0) if c == "\n" else (line, col + 1)
        return pos, line, col


# --- C17: one combinator, several spellings ---------------------------------------------

def fst(v):
    return v[0]


def snd(v):
    return v[1]


def _delayed(p):
    d = Delay()
    d.define(p)
    return d


class _Raw:
    """A parser object that has only what the smallest ones have."""

    def __init__(self, p):
        try:
            from reparsec.core.primitive import Pure as Smallest
        except ImportError:
            Smallest = rp.Pure
        for n in dir(Smallest):
            if not n.startswith("__") and hasattr(p, n):
                setattr(self, n, getattr(p, n))


def pure_of(f):
    return lambda v: rp.Pure(f(v))


# name, left, right, modes in which the two must agree
UNARY_LAWS = (
    ("p.maybe() = p | Pure(None)",
     lambda p: p.maybe(), lambda p: p | rp.Pure(None), (False, True)),
    ("p.fmap(f).fmap(g) = p.fmap(g . f)",
     lambda p: p.fmap(lambda v: ("f", v)).fmap(lambda v: ("g", v)),
     lambda p: p.fmap(lambda v: ("g", ("f", v))), (False, True)),
    ("p.fmap(identity) = p",
     lambda p: p.fmap(lambda v: v), lambda p: p, (False, True)),
    ("p.bind(Pure) = p",
     lambda p: p.bind(rp.Pure), lambda p: p, (False, True)),
    ("p.fmap(f) = p.bind(Pure . f)",
     lambda p: p.fmap(lambda v: ("f", v)),
     lambda p: p.bind(pure_of(lambda v: ("f", v))), (False, True)),
    ("Pure(x) >> p = p",
     lambda p: rp.Pure(1) >> p, lambda p: p, (False, True)),
    ("Pure(x).bind(f) = f(x)",
     lambda p: rp.Pure(1).bind(lambda _: p), lambda p: p, (False, True)),
    ("p << Pure(x) = p",
     lambda p: p << rp.Pure(1), lambda p: p, (False, True)),
    ("PureFn(f) = Pure(f())",
     lambda p: p + rp.PureFn(lambda: 1), lambda p: p + rp.Pure(1),
     (False, True)),
    ("p.attempt().attempt() = p.attempt()",
     lambda p: p.attempt().attempt(), lambda p: p.attempt(), (False, True)),
    ("p.label(x).label(y) = p.label(y)",
     lambda p: p.label("x").label("y"), lambda p: p.label("y"),
     (False, True)),
    ("p.recover().recover() = p.recover()",
     lambda p: p.recover().recover(), lambda p: p.recover(), (False, True)),
    ("p.recover() = p without recovery",
     lambda p: p.recover(), lambda p: p, (False,)),
    ("p.recover_with(x) = p without recovery",
     lambda p: p.recover_with("X"), lambda p: p, (False,)),
    ("p.recover_with(x) = p.recover_with_fn(lambda s, p: x)",
     lambda p: p.recover_with("X"),
     lambda p: p.recover_with_fn(lambda s, q: "X"), (False, True)),
    ("p.recover_with(x, l) = p.recover_with_fn(.., l)",
     lambda p: p.recover_with("X", "l"),
     lambda p: p.recover_with_fn(lambda s, q: "X", "l"), (False, True)),
    ("recover_with's default label is repr(x)",
     lambda p: p.recover_with("X"),
     lambda p: p.recover_with("X", repr("X")), (False, True)),
    ("Delay defined as p = p", _delayed, lambda p: p, (False, True)),
    ("a minimal parser object can be combined",
     lambda p: reparsec.fmap(_Raw(p), lambda v: v), lambda p: p,
     (False, True)),
    ("p.maybe() via a minimal parser object",
     lambda p: reparsec.maybe(_Raw(p)), lambda p: p.maybe(), (False, True)),
    ("unexpected(l) | p: the expected list begins with l",
     lambda p: rp.unexpected("l") | p,
     lambda p: rp.unexpected("l") | (rp.unexpected("m") | p).bind(rp.Pure)
     if False else rp.unexpected("l") | p.fmap(lambda v: v), (False, True)),
    ("p.then(q) = p + q",
     lambda p: p.then(rq.sym("b")), lambda p: p + rq.sym("b"),
     (False, True)),
    ("p.then(q).then(r) = ((p + q) + r) flattened",
     lambda p: p.then(rq.sym("b")).then(p),
     lambda p: ((p + rq.sym("b")) + p).fmap(
         lambda v: (v[0][0], v[0][1], v[1])), (False, True)),
    ("p.then(q).apply(f) = (p + q).fmap(f)",
     lambda p: p.then(rq.sym("b")).apply(lambda x, y: ("f", x, y)),
     lambda p: (p + rq.sym("b")).fmap(lambda v: ("f",) + v),
     (False, True)),
    ("letter = satisfy(str.isalpha).label('letter')",
     lambda p: p + rq.letter,
     lambda p: p + rq.satisfy(str.isalpha).label("letter"), (False, True)),
    ("digit = satisfy(str.isdigit).label('digit')",
     lambda p: p | rq.digit,
     lambda p: p | rq.satisfy(str.isdigit).label("digit"), (False, True)),
    ("sym(s) = satisfy(s ==).label(repr(s)) without recovery",
     lambda p: p + rq.sym("b"),
     lambda p: p + rq.satisfy(lambda t: t == "b").label(repr("b")),
     (False,)),
    ("sym's default label is repr(s)",
     lambda p: p | rq.sym("b"), lambda p: p | rq.sym("b", repr("b")),
     (False, True)),
)

BINARY_LAWS = (
    ("p << q = (p + q).fmap(first)",
     lambda p, q: p << q, lambda p, q: (p + q).fmap(fst), (False, True)),
    ("p >> q = (p + q).fmap(second)",
     lambda p, q: p >> q, lambda p, q: (p + q).fmap(snd), (False, True)),
    ("p.bind(lambda _: q) = p >> q",
     lambda p, q: p.bind(lambda _: q), lambda p, q: p >> q, (False, True)),
    ("p + q = p.bind(lambda x: q.fmap(lambda y: (x, y)))",
     lambda p, q: p + q,
     lambda p, q: p.bind(lambda x: q.fmap(lambda y: (x, y))),
     (False, True)),
    ("p.sep_by(q) as documented by its definition",
     lambda p, q: p.sep_by(q),
     lambda p, q: (p + (q >> p).many()).maybe().fmap(
         lambda v: [] if v is None else [v[0]] + v[1]), (False, True)),
    ("r.between(p, q) = p >> r << q",
     lambda p, q: rq.sym("a").between(p, q),
     lambda p, q: p >> (rq.sym("a") << q), (False, True)),
    ("p.chainl1(q): operators associate to the left",
     lambda p, q: p.chainl1(q.fmap(binop)),
     lambda p, q: (p + (q + p).many()).fmap(_left), (False, True)),
    ("p.chainr1(q): operators associate to the right",
     lambda p, q: p.chainr1(q.fmap(binop)),
     lambda p, q: (p + (q + p).many()).fmap(_right), (False, True)),
    ("(p + q) + r = p + (q + r), regrouped",
     lambda p, q: ((p + q) + rq.sym("b")).fmap(
         lambda v: (v[0][0], (v[0][1], v[1]))),
     lambda p, q: p + (q + rq.sym("b")), (False, True)),
    ("(r + p) + q = r + (p + q), regrouped",
     lambda p, q: ((rq.sym("a") + p) + q).fmap(
         lambda v: (v[0][0], (v[0][1], v[1]))),
     lambda p, q: rq.sym("a") + (p + q), (False, True)),
    ("(p | q) | r = p | (q | r) without recovery",
     lambda p, q: (p | q) | rq.sym("b"),
     lambda p, q: p | (q | rq.sym("b")), (False,)),
    ("r | (p | q) = (r | p) | q without recovery",
     lambda p, q: rq.sym("b") | (p | q),
     lambda p, q: (rq.sym("b") | p) | q, (False,)),
    ("p.attempt() + (q | r) distributes over alternatives for attempt",
     lambda p, q: (p + q).attempt() | p,
     lambda p, q: (p + q).attempt() | p.fmap(lambda v: v), (False, True)),
    ("(p | q).fmap(f) = p.fmap(f) | q.fmap(f)",
     lambda p, q: (p | q).fmap(lambda v: ("f", v)),
     lambda p, q: p.fmap(lambda v: ("f", v)) | q.fmap(lambda v: ("f", v)),
     (False, True)),
    ("(p + q).attempt() matches as (p + q)",
     lambda p, q: (p + q).attempt().label("L"),
     lambda p, q: (p.attempt() + q).attempt().label("L"), (False,)),
)


def _left(v):
    acc, rest = v
    for o, x in rest:
        acc = (acc, o, x)
    return acc


def _right(v):
    first, rest = v
    if not rest:
        return first
    o, x = rest[0]
    return (first, o, _right((x, rest[1:])))


TOKEN_LAWS = (
    ("token(k) = satisfy(kind is k).label(k)",
     lambda p: p + rx.token("b"),
     lambda p: p + rq.satisfy(lambda t: t.kind == "b").label("b")),
    ("token_ins(k, v) = token(k).recover_with_fn(.., k)",
     lambda p: p | rx.token_ins("b", "bb"),
     lambda p: p | rx.token("b").recover_with_fn(
         lambda s, i: rx.Token("b", "bb"), "b")),
    ("token_ins(k, v) = token(k) without recovery",
     lambda p: p + rx.token_ins("b", "bb"),
     lambda p: p + rx.token("b")),
)

TEXT_LAWS = (
    ("literal(c) = sym(c) for one character c",
     lambda p: p + rs.literal("b"), lambda p: p + rq.sym("b")),
    ("p | literal(c) = p | sym(c)",
     lambda p: p | rs.literal("b"), lambda p: p | rq.sym("b")),
    ("literal(c) | p = sym(c) | p",
     lambda p: rs.literal("\n") | p, lambda p: rq.sym("\n") | p),
    ("regexp(one character) = satisfy",
     lambda p: p + rs.regexp("[^a]"), lambda p: p + rq.satisfy(
         lambda c: c != "a")),
    ("regexp(one character) | p = satisfy | p",
     lambda p: rs.regexp("(b)", 1) | p,
     lambda p: rq.satisfy(lambda c: c == "b") | p),
    ("[ab]* = many([ab]), without recovery",
     lambda p: rs.regexp("[ab]*") + p,
     lambda p: rs.regexp("[ab]").many().fmap("".join) + p),
    ("letter = regexp(one letter).label('letter')",
     lambda p: rq.letter + p,
     lambda p: rs.regexp("[ab]").label("letter") + p),
)

LAYOUT_LAWS = (
    ("block(block(p)) = block(p)",
     lambda p: rl.block(rl.block(p)), lambda p: rl.block(p)),
    ("aligned(aligned(p)) = aligned(p)",
     lambda p: rl.aligned(rl.aligned(p)), lambda p: rl.aligned(p)),
    ("block(aligned(p)) = block(p)",
     lambda p: rl.block(rl.aligned(p)), lambda p: rl.block(p)),
    ("aligned(block(p)) = aligned(p)",
     lambda p: rl.aligned(rl.block(p)), lambda p: rl.aligned(p)),
    ("indented(0, p) = aligned(p)",
     lambda p: rl.indented(0, p), lambda p: rl.aligned(p)),
    ("indented(d, block(p)) = indented(d, p)",
     lambda p: rl.indented(1, rl.block(p)), lambda p: rl.indented(1, p)),
    ("indented(d, aligned(p)) = indented(d, p)",
     lambda p: rl.indented(2, rl.aligned(p)), lambda p: rl.indented(2, p)),
    ("indented(d, indented(0, p)) = indented(d, p)",
     lambda p: rl.indented(1, rl.indented(0, p)),
     lambda p: rl.indented(1, p)),
    ("block(p).fmap(f) = block(p.fmap(f))",
     lambda p: rl.block(p).fmap(lambda v: ("f", v)),
     lambda p: rl.block(p.fmap(lambda v: ("f", v)))),
    ("block(p).label(x) = block(p.label(x))",
     lambda p: rl.block(p).label("x"), lambda p: rl.block(p.label("x"))),
    ("block(p).maybe() = block(p.maybe())",
     lambda p: rl.block(p).maybe(), lambda p: rl.block(p.maybe())),
    ("block(p | q) = block(p) | block(q)",
     lambda p: rl.block(p | rl.aligned(rq.sym("a"))),
     lambda p: rl.block(p) | rl.block(rl.aligned(rq.sym("a")))),
    ("block(p + q) = p + q if q does not use the level",
     lambda p: rl.block(p) + rq.sym("a"),
     lambda p: rl.block(p + rq.sym("a"))),
)


class C17(GrammarCheck):
    pid = "C17"
    level = "exploration"
    technique = ("exhaustive enumeration of grammars x inputs on the real "
                 "parser; every spelling and documented identity compared")
    assumptions = ["grammars and inputs are limited to the enumerated ones"]
    minimum = {"units": 100, "forms": 10000, "laws": 10000}
    forms = {
        "core": Space(fm.CORE, Q(4, 4), text("abx", 3, 4)),
        "derived": Space(fm.DERIVED, Q(3, 4), text("abx", 3, 4)),
        "recovery": Space(fm.RECOVERY, Q(3, 4), text("abx", 3, 3)),
        "tokens": Space(fm.TOKENS, Q(3, 3), lexed("ab \n", 3, 4), "tokens"),
        "text": Space(fm.TEXT, Q(3, 3), text("ab\n", 3, 4), "text"),
    }
    unary = {
        "core": Space(fm.CORE, Q(3, 4), text("abx", 3, 3)),
        "recovery": Space(fm.RECOVERY, Q(2, 3), text("abx", 3, 3),
                          wraps=(None, eof_wrap)),
    }
    pairs = {"core": Q(3, 4), "recovery": Q(3, 4)}  # size of both terms

    def units(self, tier):
        for n, space in self.forms.items():
            for t in space.terms(tier):
                yield ("forms", n, t, tier)
        for n, space in self.unary.items():
            for t in space.terms(tier):
                yield ("unary", n, t, tier)
        for t in fm.TOKENS.upto(2 if tier == "quick" else 3):
            yield ("token", None, t, tier)
        for t in fm.TEXT.upto(2 if tier == "quick" else 3):
            yield ("text", None, t, tier)
        for t in fm.LAYOUT.upto(3):
            yield ("layout", None, t, tier)
        for name, family in (("core", fm.CORE), ("recovery", fm.RECOVERY)):
            for total in range(2, self.pairs[name][tier] + 1):
                for i in range(1, total):
                    for p in family.terms(i):
                        for q in family.terms(total - i):
                            yield ("binary", None, (p, q), tier)
        # longer inputs
        for p in (("sat", "atom"), ("many", ("sat", "atom")),
                  ("seq", ("sat", "atom"), ("maybe", ("sym", "?"))),
                  ("rw", ("sat", "atom"), "X", None)):
            for q in (("sym", "!"), ("maybe", ("sym", "!")),
                      ("seq", ("sym", "?"), ("maybe", ("sym", "!")))):
                yield ("binary", "far", (p, q), tier)

    def bounds(self, tier):
        out = {"forms " + n: s.describe(tier) for n, s in self.forms.items()}
        for n, s in self.unary.items():
            out["identities " + n] = s.describe(tier)
        out["identities of two parsers"] = (
            "all pairs of terms of %d constructors in all x all words over "
            "'abx' up to length 3" % self.pairs["core"][tier])
        out["identities"] = [l[0] for l in UNARY_LAWS + BINARY_LAWS
                             + TOKEN_LAWS + TEXT_LAWS + LAYOUT_LAWS]
        return out

    def run(self, unit, ctx):
        kind, name, t, tier = unit
        if kind == "forms":
            space = self.forms[name]
            built = [build(t, api) for api in (
                METHODS, FUNCTIONS, NAMED, SharingApi())]
            for stream in space.streams(tier):
                for recover in (False, True):
                    ctx.where = (show(t), stream.s, recover)
                    obs = [observe(p, stream.s, recover, None, stream.runner)
                           for p in built]
                    ctx.count("evaluations", 4)
                    ctx.count("forms")
                    ctx.outcome(obs[0])
                    if not obs[0] == obs[1] == obs[2] == obs[3]:
                        ctx.fail("spellings of the same parser differ",
                                 grammar=show(t), input=stream.s,
                                 recover=recover, methods=obs[0],
                                 functions=obs[1], named_methods=obs[2],
                                 equal_parts_shared=obs[3])
            return
        if kind == "token":
            ws = C17.token_streams(tier)
            for name, left, right in TOKEN_LAWS:
                modes = (False,) if "without" in name else (False, True)
                self.law(name, left, right, (build(t),), (t,), modes, ws,
                         "tokens", ctx)
            return
        if kind in ("text", "layout"):
            ws = list(words("ab\n", 3) if kind == "text"
                      else words("a \n", 4))
            for name, left, right in (
                    TEXT_LAWS if kind == "text" else LAYOUT_LAWS):
                modes = (False,) if "without" in name else (False, True)
                self.law(name, left, right, (build(t),), (t,), modes, ws,
                         "text", ctx)
            return
        if kind == "unary":
            ws = [s.s for s in self.unary[name].streams(tier)]
            for name, left, right, modes in UNARY_LAWS:
                self.law(name, left, right, (build(t),), (t,), modes, ws,
                         "index", ctx)
            return
        ps = [build(x) for x in t]
        ws = list(far_words(tier) if name == "far" else words("abx", 3))
        for name, left, right, modes in BINARY_LAWS:
            self.law(name, left, right, ps, t, modes, ws, "index", ctx)

    _tokens = {}

    @classmethod
    def token_streams(cls, tier):
        if tier not in cls._tokens:
            cls._tokens[tier] = list(lexed("ab \n", 3, 4)(tier))
        return cls._tokens[tier]

    @staticmethod
    def law(name, left, right, parsers, terms, modes, ws, runner, ctx):
        l, r = left(*parsers), right(*parsers)
        for w in ws:
            for recover in modes:
                ctx.where = (name, [show(t) for t in terms], w, recover)
                a = observe(l, w, recover, None, runner)
                b = observe(r, w, recover, None, runner)
                ctx.count("evaluations", 2)
                ctx.count("laws")
                if a != b:
                    ctx.fail("a documented identity does not hold",
                             identity=name, parsers=[show(t) for t in terms],
                             input=w, recover=recover, left=a, right=b)
        ctx.sample({"identity": name, "parsers": [show(t) for t in terms],
                    "inputs": len(ws)})

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["distinct_nontrivial"] = c.get("forms", 0) + c.get("laws", 0)
        c["rule"] = ("every comparison of two spellings or of the two sides "
                     "of an identity on one input in one mode")
        return c


# --- C19: results and errors ---------------------------------------------------------------

def message(item):
    """The documented message of an error item."""
    e = list(item.expected)
    if not e:
        body = "unexpected input"
    else:
        body = "expected " + (
            e[0] if len(e) == 1 else ", ".join(e[:-1]) + " or " + e[-1])
    out = "at " + item.loc_str + ": " + body
    if isinstance(item.op, Skip):
        out += " (skipped %d token%s)" % (
            item.op.count, "" if item.op.count == 1 else "s")
    elif isinstance(item.op, Insert):
        out += " (inserted " + item.op.label + ")"
    return out


def raised(r, recover=False):
    try:
        return None, r.unwrap(recover=recover)
    except ParseError as e:
        return e, None


class C19(GrammarCheck):
    pid = "C19"
    level = "exploration"
    technique = ("exhaustive enumeration of grammars x inputs x operation "
                 "sequences on results; every message recomputed from the "
                 "fields of the error")
    needs_model = False
    minimum = {"units": 100, "messages": 10000, "items": 1000,
               "custom_locations": 10000}
    assumptions = ["grammars and inputs are limited to the enumerated ones"]
    spaces = {
        "core": Space(fm.CORE, Q(4, 4), text("abx", 3, 4)),
        "recovery": Space(fm.RECOVERY, Q(3, 4), text("abx", 3, 3),
                          wraps=(None, eof_wrap)),
        "text": Space(fm.TEXT, Q(3, 3), text("ab\n", 3, 4), "text"),
        "layout": Space(fm.LAYOUT, Q(4, 4), text("a \n", 4, 4), "text"),
        "tokens": Space(fm.TOKENS, Q(3, 3), lexed("ab \n", 3, 4), "tokens"),
    }
    deep = ("json-list", "expr-rw", "tutorial", "tutorial-text")

    def units(self, tier):
        yield ("items",)
        yield from GrammarCheck.units(self, tier)

    def run(self, unit, ctx):
        if unit[0] == "items":
            return self.items(ctx)
        GrammarCheck.run(self, unit, ctx)

    def items(self, ctx):
        labels = ("a", "b c", "'x'", "", "{}", "{0}", "%s", "%", "{", "\\n",
                  ", ", " or ")
        ops = [None] + [Skip(n) for n in (0, 1, 2, 3, 11)] + [
            Insert(x) for x in labels]
        errors = []
        for n in range(4):
            for e in itertools.product(labels, repeat=n):
                for op in ops:
                    for loc, text_ in ((reparsec.Loc(0, 0, 0), "0"),
                                       (reparsec.Loc(7, 2, 3), "3:4"),
                                       (reparsec.Loc(7, 2, 3), "{%d}"),
                                       (reparsec.Loc(7, 2, 3), "")):
                        i = ErrorItem(loc, text_, list(e), op)
                        ctx.count("items")
                        if i.msg != message(i):
                            ctx.fail("wrong message", item=i, msg=i.msg,
                                     expected=message(i))
                        errors.append(i)
        for n in range(1, 2001):
            for e in ([], ["x"], ["x", "y"]):
                i = ErrorItem(reparsec.Loc(n, n, n), "%d" % n, e, Skip(n))
                ctx.count("items")
                if i.msg != message(i):
                    ctx.fail("wrong message", item=i, msg=i.msg,
                             expected=message(i))
        for n in range(3, 200):
            i = ErrorItem(reparsec.Loc(0, 0, 0), "0",
                          ["l%d" % k for k in range(n)], None)
            ctx.count("items")
            if i.msg != message(i) or str(ParseError([i] * n)) != ", ".join(
                    [message(i)] * n):
                ctx.fail("wrong message", item=i, msg=i.msg,
                         expected=message(i))
        for n in range(3):
            for es in itertools.product(errors[::len(errors) // 131], repeat=n):
                if str(ParseError(list(es))) != ", ".join(
                        message(i) for i in es):
                    ctx.fail("wrong message", items=es)
        if ErrorItem(reparsec.Loc(0, 0, 0), "0", []).op is not None:
            ctx.fail("op defaults to None")

    def judge(self, term, parser, model, stream, ins, ctx):
        for recover in (False, True):
            try:
                r = parse_real(parser, stream.s, recover, ins, stream.runner)
                first = unwrap0(r)
            except RuntimeError:
                ctx.count("guard_errors")
                return
            second = unwrap(r, True)
            ctx.count("evaluations")
            err, val = raised(r)
            if err is not None:
                ctx.count("messages")
                if not isinstance(err.errors, list) or not err.errors or \
                        str(err) != ", ".join(map(message, err.errors)):
                    ctx.fail("the message does not match the errors",
                             grammar=show(term), input=stream.s,
                             recover=recover, message=str(err),
                             expected=", ".join(map(message, err.errors)))
                if not all(isinstance(i, ErrorItem) and isinstance(
                        i.expected, list) for i in err.errors):
                    ctx.fail("malformed error items", grammar=show(term),
                             input=stream.s, errors=err.errors)
                ctx.outcome(str(err))
                if len(err.errors) > 1:
                    ctx.sample({"grammar": show(term), "input": stream.s,
                                "message": str(err)})
            if not recover and first != second:
                ctx.fail("unwrap(recover=True) invents a repair",
                         grammar=show(term), input=stream.s,
                         unwrap=first, unwrap_recover=second)
            f = tag("f")
            m = r.fmap(f)
            mm = m.fmap(tag("g"))
            for res, fn in ((m, f), (mm, lambda v: tag("g")(f(v))),
                            (r.fmap(lambda v: v), lambda v: v)):
                ctx.count("evaluations")
                for want, got in ((first, unwrap0(res)),
                                  (second, unwrap(res, True))):
                    if want[0] == "val":
                        want = ("val", fn(want[1]))
                    if want != got:
                        ctx.fail("ParseResult.fmap must transform the value "
                                 "and nothing else", grammar=show(term),
                                 input=stream.s, recover=recover,
                                 expected=want, observed=got)
            if (unwrap0(r), unwrap(r, True)) != (first, second):
                ctx.fail("a result changed", grammar=show(term),
                         input=stream.s, recover=recover,
                         before=(first, second))
            self.locations(term, parser, stream, recover, first, ctx)

    def locations(self, term, parser, stream, recover, first, ctx):
        """get_loc and fmt_loc given by the user are used for every item."""
        bad = []

        def get_loc(prev, s, p):
            if s is not stream.s or not 0 <= p <= len(s):
                bad.append((prev, p))
            if prev != (0, 0, 0) and (prev.pos > p or prev[1:] != (
                    prev.pos + 1, 7)):
                bad.append((prev, p))
            return reparsec.Loc(p, p + 1, 7)

        def fmt_loc(l):
            return "<%d,%d,%d>" % l

        if contains(term, ("block", "aligned", "indented")):
            # these need true columns
            return
        r = parser.parse(stream.s, recover, get_loc=get_loc, fmt_loc=fmt_loc)
        got = unwrap0(r)
        ctx.count("custom_locations")
        if first[0] == "val":
            if got != first:
                ctx.fail("locations change the value", grammar=show(term),
                         input=stream.s, recover=recover, expected=first,
                         observed=got)
        else:
            plain = unwrap0(parser.parse(stream.s, recover))
            want = ("perr", tuple(
                ((i[0][0], i[0][0] + 1, 7),
                 "<%d,%d,7>" % (i[0][0], i[0][0] + 1),
                 i[2], i[3]) for i in plain[1]))
            if got != want:
                ctx.fail("get_loc / fmt_loc are not used as given",
                         grammar=show(term), input=stream.s, recover=recover,
                         expected=want, observed=got)
        # locations of another kind, as those of tokens in their source
        other = parser.parse(
            stream.s, recover, fmt_loc=lambda l: "<%d>" % l.pos,
            get_loc=lambda prev, s, p: reparsec.Loc(900 - 7 * p, 7, p))
        plain = parser.parse(stream.s, recover)
        got, want = ((unwrap0(x), unwrap(x, True)) for x in (other, plain))
        want = tuple(
            u if u[0] == "val" else ("perr", tuple(
                ((900 - 7 * i[0][0], 7, i[0][0]),
                 "<%d>" % (900 - 7 * i[0][0]), i[2], i[3]) for i in u[1]))
            for u in want)
        if got != want:
            ctx.fail("locations change the outcome", grammar=show(term),
                     input=stream.s, recover=recover, expected=want,
                     observed=got)
        if bad:
            ctx.fail("get_loc is called with a wrong previous location, "
                     "stream or position", grammar=show(term),
                     input=stream.s, recover=recover, calls=bad[:3])

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["distinct_nontrivial"] = c.get("messages", 0)
        c["rule"] = ("every term x every word x recovery off/on; non-trivial:"
                     " there is an error whose message is recomputed")
        return c


def tag(t):
    return lambda v: (t, v)


CHECKS = [C10, C11, C12, C13, C17, C19]

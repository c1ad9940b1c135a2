"""User functions, positions and opaque symbols: properties of all grammars."""

import reparsec
from reparsec import Loc, ParseError
from reparsec import lexer as rx
from reparsec import primitive as rp
from reparsec import scannerless as rs
from reparsec import sequence as rq

from . import families as fm
from .base import (
    GrammarCheck, Q, Space, eof_wrap, lexed, text
)
from .grammar import (
    ALL, B, PREDS, Family, MethodApi, U, build, contains, show, size
)
from .observe import Stream, observe, unwrap, unwrap0
from .refmodel import ERR, EmptyRepetition, Model, plain

ABX = text("abx", 3, 3)


# --- C23: the user's functions -----------------------------------------------------

class Halt(BaseException):
    pass


def raisables():
    yield ValueError("user")
    yield ParseError([])
    yield IndexError("user")
    yield RuntimeError("user")
    yield rx.LexError(Loc(0, 0, 0))
    yield AttributeError("user")
    yield KeyError("user")
    yield TypeError("user")
    yield AssertionError("user")
    yield Halt("user")
    yield RecursionError("user")
    yield NotImplementedError("user")
    yield ZeroDivisionError("user")
    yield OSError("user")


CLASSES = len(list(raisables()))


def inside(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple) and x and x[0] in ALL:
            yield from inside(x)


class Calls(MethodApi):
    """Every function of the user records its calls; one of them raises."""

    def __init__(self):
        self.reset()

    def reset(self, at=None, exc=None):
        self.log = []
        self.at = at
        self.exc = exc

    def wrap(self, kind, fn):
        def user(*args):
            k = len(self.log)
            self.log.append((kind, args))
            if k == self.at:
                raise self.exc
            return fn(*args)
        return user


VALUE_FUNCTIONS = ("fmap", "bind", "purefn", "apply")


class C23(GrammarCheck):
    pid = "C23"
    level = "model_checking"
    technique = ("exhaustive enumeration of grammars x inputs x crash points "
                 "(an exception at every call of a user function); call logs "
                 "compared with the reference model")
    minimum = {"units": 100, "crash_points": 10000,
               "repairs_by_function": 1000,
               "traces_validated_against_impl": 10000, "states": 10000}
    assumptions = ["grammars and inputs are limited to the enumerated ones"]
    family = Family(
        [("sat", "isa"), ("sym", "b"), ("purefn", "q")],
        [U("fmap", "f"), U("maybe"), U("many"), U("attempt"),
         U("rwf", "F", None), U("recover")],
        [B("seq"), B("alt"), lambda g, h: ("bind", g, "a", h, ("sym", "b")),
         B("chainl1"), lambda g, h: ("apply", g, h)])
    spaces = {
        "functions": Space(family, Q(4, 4), text("abx", 3, 4)),
        "functions-large": Space(family, None, text("ab", 2, 3),
                                 only=Q((5, 5), (5, 5))),
        "derived": Space(Family(
            [("fmap", ("sat", "isa"), "f"), ("sym", "b"),
             ("rwf", ("fmap", ("sat", "isb"), "g"), "F", "eff")],
            [U("fmap", "h"), U("label", "L"), U("delay"), U("attempt")],
            [B("seql"), B("seqr"), B("sep_by"), B("chainr1"), B("alt"),
             lambda g, h: ("then", g, h),
             lambda g, h: ("between", g, h, ("fmap", ("sym", "a"), "k"))]),
            Q(3, 4), text("abx", 3, 4)),
    }

    def run(self, unit, ctx):
        _, name, term, tier = unit
        calls = Calls()
        parser = build(term, calls)
        model = Model(term)
        self.repaired = [plain(t[1]) for t in inside(term) if t[0] == "rwf"]
        every = size(term) <= 2
        loc = calls.wrap("get_loc", lambda prev, s, p: Loc(p, 0, p))
        fmt = calls.wrap("fmt_loc", lambda l: "@%d" % l.pos)
        for n, stream in enumerate(self.spaces[name].streams(tier)):
            ctx.where = (show(term), stream.s)
            self.documented(term, parser, calls, model, stream, ctx)
            for recover in (False, True):
                def go():
                    r = parser.parse(
                        stream.s, recover, get_loc=loc, fmt_loc=fmt)
                    return unwrap0(r), unwrap(r, True)
                calls.reset()
                try:
                    go()
                except RuntimeError:
                    ctx.count("guard_errors")
                log = calls.log
                for k in range(len(log)):
                    for i, exc in enumerate(raisables()):
                        if every or (k + n) % CLASSES == i:
                            self.crash(term, stream, recover, calls, go, log,
                                       k, exc, ctx)

    def documented(self, term, parser, calls, model, stream, ctx):
        """Without recovery: once per success, in order, and nothing else."""
        calls.reset()
        st = stream.st()
        try:
            model.plain_raw(st)
        except EmptyRepetition:
            pass
        ctx.count("states", len(set(st.trace)))
        ctx.count("transitions", len(st.trace))
        try:
            parser.parse(stream.s)
        except RuntimeError:
            ctx.count("guard_errors")
        got = [c for c in calls.log if c[0] in VALUE_FUNCTIONS]
        if got != st.calls:
            ctx.fail("the functions of the grammar are not called once per "
                     "success of their parser, in order",
                     grammar=show(term), input=stream.s, expected=st.calls,
                     observed=got)
        ctx.count("traces_validated_against_impl")
        ctx.outcome(got)
        if any(c[0] == "rwf" for c in calls.log):
            ctx.fail("the function of recover_with_fn is called without "
                     "recovery", grammar=show(term), input=stream.s)
        calls.reset()
        try:
            parser.parse(stream.s, recover=True)
        except RuntimeError:
            pass
        for kind, args in calls.log:
            if kind == "rwf" and (len(args) != 2 or args[0] is not stream.s
                                  or not 0 <= args[1] <= len(stream.s)):
                ctx.fail("recover_with_fn's function must be given the input "
                         "and the position", grammar=show(term),
                         input=stream.s, arguments=args)
            if kind == "rwf":
                ctx.count("repairs_by_function")
                if not any(self.fails(p, stream, args[1])
                           for p in self.repaired):
                    ctx.fail("recover_with_fn's function is called where its "
                             "parser does not fail, or fails after consuming",
                             grammar=show(term), input=stream.s,
                             arguments=args)
            if kind == "sat" and (len(args) != 1 or not any(
                    args[0] is c for c in stream.s)):
                ctx.fail("a predicate must be given a symbol of the input",
                         grammar=show(term), input=stream.s, arguments=args)

    @staticmethod
    def fails(p, stream, pos):
        try:
            r = p(stream.st(), pos, 0)
        except EmptyRepetition:
            return True
        return r[0] == ERR and not r[3]

    def crash(self, term, stream, recover, calls, go, log, k, exc, ctx):
        calls.reset(k, exc)
        ctx.count("crash_points")
        try:
            res = go()
        except BaseException as e:
            if not isinstance(e, (Exception, Halt)):
                raise
            if e is not exc:
                ctx.fail("another exception than that of the user's function "
                         "comes out", grammar=show(term), input=stream.s,
                         recover=recover, call=log[k], raised=repr(exc),
                         observed=repr(e))
        else:
            # go() catches ParseError only around unwrap, for fmt_loc
            if not (log[k][0] == "fmt_loc" and isinstance(exc, ParseError)):
                ctx.fail("an exception of the user's function is swallowed",
                         grammar=show(term), input=stream.s, recover=recover,
                         call=log[k], raised=repr(exc), observed=res)
            return
        if calls.log != log[:k + 1]:
            ctx.fail("functions are called after one of them raised",
                     grammar=show(term), input=stream.s, recover=recover,
                     calls=calls.log, expected=log[:k + 1])
        if k and log[k][0] != "get_loc":
            ctx.sample({"grammar": show(term), "input": stream.s,
                        "call": k, "of": [c[0] for c in log],
                        "raised": repr(exc)})


# --- C24: translation ---------------------------------------------------------------

class Shifted(MethodApi):
    """Values of recover_with_fn relative to the start of the parser."""
    shift = 0

    def wrap(self, kind, fn):
        if kind == "rwf":
            return lambda s, p: (fn(s, p)[0], p - self.shift)
        return fn


class Literal:
    """A prefix of text."""

    def __init__(self, s):
        self.s = s

    def parser(self, p):
        return rs.literal(self.s) >> p

    def __add__(self, s):
        return self.s + s

    def __len__(self):
        return len(self.s)


class Tokens:
    """A prefix of tokens on the lines before the input."""

    def __init__(self, n):
        self.n = n

    def parser(self, p):
        for _ in range(self.n):
            p = rq.sym(rx.Token("p", "#")) >> p
        return p

    def __add__(self, toks):
        n = self.n
        out = [rx.Token("p", "#", Loc(3 * i, i, 0), Loc(3 * i + 1, i, 1))
               for i in range(n)]
        return out + [
            rx.Token(t.kind, t.value,
                     Loc(t.start.pos + 3 * n, t.start.line + n, t.start.col),
                     Loc(t.end.pos + 3 * n, t.end.line + n, t.end.col))
            for t in toks]

    def __len__(self):
        return self.n


PREFIXES = {
    "index": [Literal(s) for s in ("#", "ab", "#" * 16, "#" * 257,
                                   "#" * 70001)],
    "text": [Literal(s) for s in (
        "#", "\n", "#\n#", "ab" * 9, "\n" * 12 + "#" * 12,
        ("#" * 100 + "\n") * 101 + "#" * 300, "\n" * 1025)],
    "layout": [Literal(s) for s in (
        "\n", "#\n", "  \n" * 9, "##\n" * 700)],
    "tokens": [Tokens(n) for n in (1, 2, 12, 40)],
}


class C24(GrammarCheck):
    pid = "C24"
    level = "exploration"
    technique = ("exhaustive enumeration of grammars x inputs x prefixes; a "
                 "parser at the start of its input compared with the same "
                 "parser behind a consumed prefix")
    needs_model = False
    minimum = {"units": 100, "shifted": 10000, "repaired": 1000}
    assumptions = ["grammars, inputs and prefixes are limited to the "
                   "enumerated ones"]
    spaces = {
        "core": Space(fm.CORE, Q(4, 4), ABX),
        "recovery": Space(fm.RECOVERY, Q(4, 4), ABX),
        "macro": Space(fm.MACRO, Q(3, 3), ABX, wraps=(None, eof_wrap)),
        "derived": Space(fm.DERIVED, Q(3, 4), ABX),
        "text": Space(fm.TEXT, Q(3, 3), text("ab\n", 3, 4), "text"),
        "tokens": Space(fm.TOKENS, Q(3, 3), lexed("ab \n", 3, 3), "tokens"),
        "layout": Space(fm.LAYOUT, Q(3, 4), text("a \n", 4, 4), "text"),
    }

    def run(self, unit, ctx):
        _, name, term, tier = unit
        prefixes = PREFIXES.get(
            "layout" if name == "layout" else self.spaces[name].runner)
        api = Shifted()
        parser = build(term, api)
        behind = [(pre, pre.parser(parser)) for pre in prefixes]
        for stream in self.spaces[name].streams(tier):
            ctx.where = (show(term), stream.s)
            runner = "text" if name == "layout" else "index"
            for recover in (False, True):
                api.shift = 0
                base = observe(parser, stream.s, recover, None, runner)
                for pre, q in behind:
                    s = pre + stream.s
                    api.shift = len(pre)
                    got = observe(q, s, recover, None, stream.runner)
                    want = self.moved(base, s, len(pre), stream.runner)
                    ctx.count("shifted")
                    if got[0] != "exc" and got[0][0] != "val":
                        ctx.count("repaired" if got[1][0] == "val"
                                  else "rejected")
                    if got != want:
                        ctx.fail("the outcome depends on what was consumed "
                                 "before", grammar=show(term),
                                 input=stream.s, recover=recover,
                                 prefix="%d symbols" % len(pre),
                                 expected=want, observed=got)
            ctx.outcome(base)

    def moved(self, base, s, n, runner):
        if base[0] == "exc":
            return base

        def move(u):
            if u[0] == "val":
                return u
            return ("perr", tuple(
                self.at(s, i[0][0] + n, runner) + i[2:] for i in u[1]))
        return tuple(map(move, base))

    @staticmethod
    def at(s, p, runner):
        if runner == "index":
            return (p, 0, 0), repr(p)
        if runner == "tokens":
            l = s[p].start if p < len(s) else s[-1].end
            l = tuple(l)
        else:
            nl = s[:p].count("\n")
            l = (p, nl, p - (s[:p].rfind("\n") + 1))
        return l, "%d:%d" % (l[1] + 1, l[2] + 1)

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["evaluations"] = c.get("shifted", 0)
        c["distinct_nontrivial"] = c.get("shifted", 0)
        c["rule"] = ("every term x every word x every prefix x recovery "
                     "off/on; each behind a non-empty prefix")
        return c


# --- C25: data independence ------------------------------------------------------------

class Opaque:
    """Can be compared and printed, nothing else."""
    __hash__ = None

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return type(other) is Opaque and other.name == self.name

    def __repr__(self):
        return "<%s>" % self.name

    def _no(self, *args):
        raise TypeError("opaque")

    __bool__ = __len__ = __iter__ = __str__ = __call__ = __lt__ = _no
    __getitem__ = __add__ = __or__ = __contains__ = __int__ = _no


NAMES = "a", "b", "x", "p", "q", "X", "Y", "c"
RENAMINGS = [dict(zip(NAMES, vs)) for vs in (
    (0, "", None, frozenset(), (), [], {}, b""),
    ((), ("p", "q"), [], ((), ()), ["x"], (1, 2), ("f", "a"),
     [None]),
    tuple(Opaque(n) for n in NAMES),
    (ValueError, ValueError("b"), Ellipsis, ParseError([]), KeyError,
     StopIteration(), AssertionError(), TypeError),
    (rq.letter, rp.Pure(1), rq.eof(), rq.sym("z"), reparsec.Delay(),
     rq.digit, reparsec.Insert("a"), reparsec.Skip(1)),
    (b"", b"b", 1.5, -1, float("inf"), frozenset(), bytearray(b"y"), range(0)),
)]

# None, false values, tuples and lists, each in every role
_VALUES = (None, (), [], 0, "", {}, (None, []), [()])
RENAMINGS += [dict(zip(NAMES, _VALUES[i:] + _VALUES[:i])) for i in range(8)]

for _i, _m in enumerate(RENAMINGS):
    # these predicates compare, as those of the families do
    for _name, _chars in (("isa", "a"), ("isb", "b"), ("ab", "ab")):
        PREDS["%s/%d" % (_name, _i)] = (
            lambda t, wanted=tuple(_m[c] for c in _chars):
            any(type(t) is type(w) and t == w for w in wanted))
    PREDS["notx/%d" % _i] = (
        lambda t, w=_m["x"]: not (type(t) is type(w) and t == w))


def rename(t, i):
    """The term over the symbols and values of renaming i."""
    m = RENAMINGS[i]
    k = t[0]
    if k == "sat":
        return (k, "%s/%d" % (t[1], i))
    if k in ("sym", "symL", "pure", "purefn"):
        return (k, m[t[1]]) + t[2:]
    if k == "rw":
        return (k, rename(t[1], i), m[t[2]], t[3])
    if k == "bind":
        return (k, rename(t[1], i), m[t[2]], rename(t[3], i), rename(t[4], i))
    return (k,) + tuple(
        rename(x, i) if isinstance(x, tuple) and x and x[0] in ALL else x
        for x in t[1:])


def bind_keys(t):
    found = {t[2]} if t[0] == "bind" else set()
    return found.union(*(bind_keys(x) for x in t[1:]
                         if isinstance(x, tuple) and x and x[0] in ALL))


def same(want, got):
    """Equal, where symbols and values of a renaming must be identical."""
    if want is got:
        return True
    if type(want) is not type(got):
        return False
    if isinstance(want, (tuple, list)):
        return len(want) == len(got) and all(map(same, want, got))
    return type(want) in (str, int, type(None)) and want == got


class C25(GrammarCheck):
    pid = "C25"
    level = "exploration"
    technique = ("exhaustive enumeration of grammars x inputs x renamings of "
                 "symbols and values; the outcome must be the renamed outcome")
    needs_model = False
    minimum = {"units": 100, "renamed": 10000, "repaired": 1000}
    assumptions = ["grammars, inputs and renamings are limited to the "
                   "enumerated ones"]
    spaces = {
        "core": Space(fm.CORE, Q(4, 4), ABX),
        "recovery": Space(fm.RECOVERY, Q(3, 3), ABX, wraps=(None, eof_wrap)),
        "derived": Space(fm.DERIVED, Q(3, 3), ABX),
        "macro": Space(fm.MACRO, Q(2, 3), ABX, wraps=(None, eof_wrap)),
        "many": Space(Family(
            [("sym", "a"), ("sat", "ab"), ("pure", "p"), ("purefn", "q")],
            [U("rw", "X", None), U("rw", "Y", "why"), U("label", "L")],
            [B("seq"), lambda g, h: ("then", g, h, g),
             lambda g, h: ("apply", g, h), B("chainl1"), B("chainr1"),
             B("alt")]), Q(3, 4), ABX, wraps=(None, eof_wrap)),
    }

    def run(self, unit, ctx):
        _, name, term, tier = unit
        parser = build(term)
        keys = bind_keys(term)
        others = []
        for i, m in enumerate(RENAMINGS):
            if any(isinstance(m[k], (type(None), tuple, list)) for k in keys):
                # the function cannot tell it from a value made by parsers
                continue
            t = rename(term, i)
            others.append((i, build(t)))
        for stream in self.spaces[name].streams(tier):
            for recover in (False, True):
                base = observe(parser, stream.s, recover)
                for i, p in others:
                    ctx.where = (show(term), stream.s, i)
                    m = RENAMINGS[i]
                    ctx.count("renamed")
                    want = self.renamed(base, m)
                    got = observe(p, [m[c] for c in stream.s], recover)
                    if got[0] != "exc" and got[0][0] != "val":
                        ctx.count("repaired" if got[1][0] == "val"
                                  else "rejected")
                    if not same(want, got):
                        ctx.fail("the outcome depends on what the symbols or "
                                 "values are", grammar=show(term),
                                 input=stream.s, recover=recover,
                                 renaming={k: repr(v) for k, v in m.items()},
                                 expected=repr(want), observed=repr(got))
            ctx.outcome(base)

    def renamed(self, base, m):
        labels = {repr(k): repr(v) for k, v in m.items()}

        def value(v):
            if isinstance(v, str):
                return m.get(v, v)
            if isinstance(v, (tuple, list)):
                return type(v)(map(value, v))
            return v

        def item(i):
            op = i[3]
            if op is not None and op[0] == "ins":
                op = ("ins", labels.get(op[1], op[1]))
            return (i[0], i[1], tuple(labels.get(e, e) for e in i[2]), op)

        if base[0] == "exc":
            return base
        return tuple(
            ("val", value(u[1])) if u[0] == "val"
            else ("perr", tuple(map(item, u[1]))) for u in base)

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["evaluations"] = c.get("renamed", 0)
        c["distinct_nontrivial"] = c.get("renamed", 0)
        c["rule"] = ("every term x every word x every renaming x recovery "
                     "off/on")
        return c


CHECKS = [C23, C24, C25]

"""Checks whose space is (grammar, input, configuration)."""

import array
import collections
import itertools
import re

from reparsec import lexer as rx

from . import families as fm
from .base import (
    Conform, GrammarCheck, Q, Space, TermSpace, after_a, eof_wrap, lexed,
    listed, p_error, p_labels, p_repair, p_value, text, then_b
)
from .engine import Check
from .explain import explain, well_formed
from .grammar import METHODS, B, Family, U, build, contains, show, words
from .observe import Stream, edits_of, observe, parse_real, unwrap, unwrap0
from .refmodel import EmptyRepetition, Model, TokenValue

ABX = text("abx", 3, 3)
ABX4 = text("abx", 4, 5)
INDEX_DEEP = tuple(n for n, d in fm.DEEP.items())


def no_attempt(t):
    return not contains(t, ("attempt",))


FALSY = Space(fm.FALSY, Q(3, 4), ABX, wraps=(None, eof_wrap, then_b))


MACRO = Space(fm.MACRO, Q(4, 4), text("abx", 3, 4))
MACRO_EOF = Space(fm.MACRO, Q(3, 4), text("abx", 3, 3),
                  wraps=(None, eof_wrap))
BUDGET = Space(fm.BUDGET, Q(3, 4), text("ab", 3, 3), ins=(1, 2),
               wraps=(lambda t: ("seq", ("sym", "c"), t),
                      lambda t: ("alt", ("sym", "x"), ("seq", t, AB)),
                      lambda t: ("seq", t, ("seq", ("sym", "c"), AB))))
AB = fm.AB


# --- sizes that small terms and words do not reach ---------------------------

FAR = (7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 79, 80, 81, 99, 100, 127,
       128, 129, 255, 256, 257, 999, 1000, 1023, 1025, 4095, 4097)
FAR_MORE = (8191, 8193)
LENGTHS = {"quick": (9, 10, 33, 101), "thorough": (
    7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 101, 127, 129, 257)}


def run_inputs(alphabet):
    """Long runs of a foreign symbol, and of each symbol, in short words."""
    def gen(tier):
        for m in LENGTHS[tier]:
            for c in "x" + alphabet:
                for v in words(alphabet, 1):
                    for w in words(alphabet, 2 if c == "x" else 1):
                        yield v + c * m + w
    return gen


RUNS = Space(fm.RECOVERY, Q(2, 3), run_inputs("ab"),
             wraps=(None, eof_wrap, then_b))

LETTERS = "abcdefghijklmnopqrstuvwyzABCDEFGHIJKLMNOPQRSTUVWYZ"  # no x, X


def wide(n, leaf=fm.S):
    return fm.alt_all(*map(leaf, LETTERS[:n]))


def large_terms(tier):
    for n in (9, 11, 17, 50) if tier == "quick" else range(8, 51, 3):
        yield wide(n)
        yield ("seql", ("many", wide(n)), ("eof",))
        yield ("label", wide(n), "L")
        yield ("seq", ("maybe", wide(n)), ("sym", "!"))
        yield wide(n, lambda c: ("label", ("sym", c), c + c))
        yield wide(n, lambda c: ("attempt", ("seq", ("sym", c), ("sym", c))))
        yield ("seql", wide(n, lambda c: ("rw", ("sym", c), c + "?", None)),
               ("eof",))
        yield fm.seq_all(*(("maybe", ("sym", c)) for c in LETTERS[:n]))
    for n in (9, 12, 24):
        yield ("seql", chain(n, LETTERS), ("eof",))
        yield ("many", chain(n, LETTERS))
    t = ("sym", "a")
    for n in range(1, 31):
        t = ("between", ("sym", "("), ("sym", ")"), ("maybe", t))
        if n % 10 == 0:
            yield ("seql", t, ("eof",))
    for n in (3, 5, 7):
        item = ("seql", ("rw", ("sat", "isa"), "?", None), ("sym", ";"))
        yield ("seql", fm.seq_all(*[item] * n), ("eof",))
        yield ("seql", ("many", item), ("eof",))


def large_inputs(tier):
    yield from ("", "x", "!", "Z", "a!", "xa", "ax", "hi", "ij", "ff", "qr")
    for n in (8, 9, 10, 12, 17, 24, 30, 50):
        yield LETTERS[:n]
        yield LETTERS[n - 1:n + 1]
        yield LETTERS[:n - 2] + LETTERS[n - 1:n]
        yield "x" + LETTERS[1:n]
    for n in (5, 9, 10, 19, 20, 29, 30):
        yield "(" * n + "a" + ")" * n
        yield "(" * n + "x" + ")" * n
        yield "(" * n + "a" + ")" * (n - 1)
    for n in (1, 3, 5, 7):
        yield "a;" * n
        yield ";" * n
        yield "xa;" * min(n, 5)
        yield "a;" * n + "x;"


LARGE = TermSpace(large_terms, large_inputs)
LARGE_INS = TermSpace(large_terms, large_inputs, ins=(None, 9, 12, 25))


# symbols whose repr() is not what it is made of
QUOTED = ("'", '"', "\\", "\n", "\0", "\xe9", "'\"", "{}", "%s", "ab",
          "\u2028", b"a", ("a",), 1.5, "w" * 22, "w" * 45 + "z",
          tuple(range(60)), 10 ** 90)
PRINTED = Family(
    [("sym", x) for x in QUOTED],
    [U("maybe"), U("recover")] + [
        U("rw", x, None) for x in QUOTED[:6] + QUOTED[-4:]],
    [B("alt")])

# labels are not looked into
LABELS = ("a, b", "a or b", " a ", "a/b", "a / b", "a\nb", "{}", "%s", "A",
          "a", "\xdf", "it's", "'q'", "a.", "(a)", "w" * 300)
LABELLED = Family(
    [("sym", "a")] + [("unexp", x) for x in LABELS],
    [U("label", x) for x in LABELS],
    [B("alt")])
LABELLED_REPAIRS = Family(
    [("sym", "a"), ("sat", "isb")] + [("symL", "b", x) for x in LABELS],
    [U("rw", "X", x) for x in LABELS] + [U("rwf", "F", x) for x in LABELS],
    [B("seq")])
PRINTED_REPAIRS = Space(PRINTED, Q(3, 3), listed(("ab", 1.5, "x"), 1, 2),
                        wraps=(None, eof_wrap))
LABELLED_REPAIRS = Space(LABELLED_REPAIRS, Q(3, 3), text("ab", 2, 2))
LABELLED_SPACE = TermSpace(lambda tier: LABELLED.upto(3),
                           lambda tier: ("", "a", "x", "aa"))


def far_chains(tier):
    """Longer repetitions and chains than small words reach."""
    atom, op = ("sat", "atom"), ("sym", "!")
    for t in (("chainl1", atom, op), ("chainr1", atom, op),
              ("sep_by", atom, op), ("many", ("seq", atom, op)),
              ("many", atom), ("chainl1", ("many", atom), op),
              ("chainr1", ("chainl1", atom, ("sym", "?")), op),
              ("rec", "v", ("alt", ("attempt", ("seq", atom, (
                  "seqr", op, ("ref", "v")))), atom))):
        yield t
        yield ("seql", t, ("eof",))
        yield ("many", ("between", ("sym", "("), ("sym", ")"), t))


def far_words(tier):
    for n in (2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 18, 25, 33, 48):
        w = LETTERS[:n]
        for x in (w, "!".join(w), "!".join(w) + "!", "?".join(w),
                  "!".join("?".join(w[i:i + 3]) for i in range(0, n, 3)),
                  "!".join(w[i:i + 5] for i in range(0, n, 5))):
            yield x
            yield "(" + x + ")"


FAR_CHAINS = TermSpace(far_chains, far_words)


def nested_terms(tier):
    """Recursion, much deeper than small words reach."""
    v, a, b = ("ref", "v"), ("sym", "a"), ("sym", "b")
    o, c, comma = ("sym", "("), ("sym", ")"), ("sym", ",")
    for body in (
            ("alt", ("between", o, c, v), a),
            ("alt", a, ("seq", o, ("seql", ("label", v, "L"), c))),
            ("alt", ("seq", ("seq", o, ("maybe", v)), c), a),
            ("between", o, c, ("sep_by", ("alt", v, a), comma)),
            ("chainl1", ("alt", ("between", o, c, v), a), comma),
            ("alt", ("attempt", ("seq", ("seq", o, v), c)), a),
            ("seqr", o, ("seql", ("maybe", ("delay", v)), c)),
            ("rw", ("alt", ("between", o, c, v), a), "?", None),
            ("alt", ("between", o, c, ("fmap", v, "f")),
             ("recover", ("seq", a, ("maybe", b))))):
        yield ("rec", "v", body)
        yield ("seql", ("rec", "v", body), ("eof",))


def nested_words(tier):
    for n in (8, 9, 10, 16, 17, 31, 33, 49, 65, 99, 101, 129):
        o, c = "(" * n, ")" * n
        for w in (o + "a" + c, o + c, o + c[1:], o + "a" + c[1:],
                  o + "a" + c + ")", o + "x" + c, o + "b" + c,
                  o + "a,a" + c, o + "a" + c + ",a"):
            yield w


NESTED = TermSpace(nested_terms, nested_words)


TOKENS3 = Space(fm.TOKENS, Q(3, 3), lexed("ab \n", 3, 4), "tokens",
                wraps=(None, eof_wrap))
KINDS = Space(fm.KINDS, Q(3, 3), fm.kind_tokens, "tokens")


# limits on insertions that only long repairs reach
def generous(sizes, cut, ins):
    def terms(tier):
        for n in sizes:
            chained = fm.seq_all(*(("sym", "ab"[i % 2]) for i in range(n)))
            yield ("seql", chained, ("eof",))
            yield ("many", chained)

    def inputs(tier):
        yield from ("x", "cx")
        for n in sizes:
            w = ("ab" * n)[:n]
            yield w[:3] + w[-3:]
            for k in cut:
                if k <= n:
                    yield w[:k]
                    yield w[k:]
    return TermSpace(terms, inputs, ins=ins)


GENEROUS = generous(
    (17, 35, 67), (0, 1, 16, 17, 32, 33, 49, 51, 63, 64, 65),
    (16, 17, 32, 33, 51, 64, 65, 1000))
LAVISH = generous((131,), (0, 3, 99), (99, 101, 127, 128, 129, 1000))


# repairs that go on for long
def far_runs(symbols):
    def inputs(tier):
        for n in FAR + (() if tier == "quick" else FAR_MORE):
            for c in symbols:
                yield c * n
                yield c * n + "a"
                yield "a" + c * n + "ab"
    return inputs


FAR_TERMS = (
    lambda tier: [w(t) for t in list(fm.RECOVERY.upto(2)) + [
        ("seq", ("sym", "a"), ("sym", "b")), ("many", ("sym", "a")),
        ("alt", ("sym", "a"), ("recover", ("sym", "c"))),
        ("seq", ("maybe", ("sym", "b")), ("sym", "a"))]
        for w in (lambda t: t, eof_wrap)])
FAR_RUNS = TermSpace(FAR_TERMS, far_runs("xb"))


# --- C01 / C02: plain parsing -------------------------------------------------

class C01(Conform):
    pid = "C01"
    technique = ("exhaustive enumeration of grammars x inputs; every "
                 "execution compared with an explicit reference model")
    modes = (False,)
    spaces = {
        "core-small": Space(fm.CORE, Q(4, 4), text("abx", 4, 6)),
        "core": Space(fm.CORE, None, ABX, only=Q((5, 5), (5, 5))),
        "core-large": Space(fm.CORE, None, text("abx", 2, 2),
                            only=Q((9, 0), (6, 6))),
        "derived": Space(fm.DERIVED, Q(4, 5), text("abx", 3, 4)),
        "recovery": Space(fm.RECOVERY, Q(3, 4), ABX),
        "small": Space(fm.SMALL, Q(6, 7), text("ab", 4, 4)),
        "falsy": FALSY,
        "macro": MACRO,
        "runs": RUNS,
        "large": LARGE,
        "chains": FAR_CHAINS,
        "deeply": NESTED,
        "tokens": TOKENS3,
        "kinds": KINDS,
    }
    deep = INDEX_DEEP
    project = staticmethod(p_value)


class C02(Conform):
    pid = "C02"
    technique = C01.technique
    modes = (False,)
    spaces = {
        "core-small": Space(fm.CORE, Q(4, 4), text("abx", 3, 6)),
        "core": Space(fm.CORE, None, ABX, only=Q((5, 5), (5, 5))),
        "core-large": Space(fm.CORE, None, text("abx", 2, 2),
                            only=Q((9, 0), (6, 6))),
        "derived": Space(fm.DERIVED, Q(4, 5), text("abx", 3, 4)),
        "recovery": Space(fm.RECOVERY, Q(3, 4), ABX),
        "small": Space(fm.SMALL, Q(6, 7), text("ab", 4, 4)),
        "text": Space(fm.TEXT, Q(3, 3), text("ab\n", 3, 4), "text"),
        "printed": TermSpace(
            lambda tier: PRINTED.upto(3), listed(QUOTED, 1, 2)),
        "quotes": TermSpace(lambda tier: text_terms(tier),
                            text("a'\n", 3, 4), "text"),
        "labels": LABELLED_SPACE,
        "falsy": FALSY,
        "macro": MACRO,
        "runs": RUNS,
        "large": LARGE,
        "chains": FAR_CHAINS,
        "deeply": NESTED,
        "tokens": TOKENS3,
        "kinds": KINDS,
    }
    deep = INDEX_DEEP
    project = staticmethod(p_error)


# --- C03: recovery is transparent for accepted input --------------------------

EDIT_SPACES = {
    "runs": RUNS,
    "large": LARGE_INS,
    "generous": GENEROUS,
    "lavish": LAVISH,
    "far": FAR_RUNS,
    "budget": BUDGET,
    "macro": MACRO_EOF,
    "falsy": FALSY,
    "core": Space(fm.CORE, Q(4, 5), ABX),
    "recovery": Space(fm.RECOVERY, Q(3, 4), ABX, wraps=(None, eof_wrap)),
    "mini": Space(fm.RECOVERY_MINI, Q(5, 6), text("ab", 3, 3),
                  wraps=(None, eof_wrap)),
    "choice": Space(fm.CHOICE, Q(5, 5), text("abc", 3, 3),
                    wraps=(None, eof_wrap)),
    "derived": Space(fm.DERIVED, Q(3, 4), ABX, wraps=(None, eof_wrap)),
    "text": Space(fm.TEXT, Q(3, 3), text("ab\n", 3, 4), "text",
                  wraps=(None, eof_wrap)),
    "layout": Space(fm.LAYOUT, Q(4, 4), text("a \n", 4, 5), "text"),
    "tokens": Space(fm.TOKENS, Q(3, 3), lexed("ab \n", 3, 4), "tokens",
                    wraps=(None, eof_wrap)),
}


class C03(GrammarCheck):
    pid = "C03"
    level = "exploration"
    technique = ("exhaustive enumeration of grammars x inputs x insertion "
                 "limits on the real parser; differential oracle")
    needs_model = False
    minimum = {"units": 100, "accepted": 10000, "rejected": 10000}
    assumptions = [
        "grammars and inputs are limited to the enumerated ones; user "
        "functions are pure",
    ]
    spaces = dict(
        EDIT_SPACES,
        core=Space(fm.CORE, None, ABX, only=Q((1, 5), (1, 5))),
        core_ins=Space(fm.CORE, Q(4, 4), ABX, ins=(0, 1, 7)),
        core_large=Space(fm.CORE, None, text("abx", 2, 2),
                         only=Q((9, 0), (6, 6))),
        longer=Space(fm.CORE, Q(3, 4), text("ab", 5, 7)),
    )
    deep = INDEX_DEEP
    deep_ins = (None, 0, 2)

    def judge(self, term, parser, model, stream, ins, ctx):
        plain = observe(parser, stream.s, False, ins, stream.runner)
        ctx.count("evaluations")
        if plain[0] == "exc":
            ctx.count("guard_errors")
            return
        rec = observe(parser, stream.s, True, ins, stream.runner)
        ctx.count("evaluations")
        if plain[0][0] == "val":
            ctx.count("accepted")
            if rec != plain:
                ctx.fail("enabling error recovery changed the result of an "
                         "accepted input", grammar=show(term),
                         input=stream.s, max_insertions=ins,
                         without_recovery=plain, with_recovery=rec)
            ctx.outcome(plain)
            ctx.sample({"grammar": show(term), "input": stream.s,
                        "both": plain[0]})
        else:
            ctx.count("rejected")
            if rec[0] != "exc" and rec[0][0] == "val":
                ctx.fail("enabling error recovery made unwrap() accept a "
                         "rejected input", grammar=show(term),
                         input=stream.s, max_insertions=ins,
                         without_recovery=plain, with_recovery=rec)

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["distinct_nontrivial"] = c.get("accepted", 0)
        c["rule"] = (
            "every term of the families x every word x every insertion "
            "limit, parsed without and with recovery; non-trivial: the input "
            "is accepted without recovery (each triple occurs once)")
        return c


# --- C04 / C05: the reported edits --------------------------------------------

def chain(n, leaf="abcdefghi"):
    out = ("sym", leaf[0])
    for c in leaf[1:n]:
        out = ("seq", out, ("sym", c))
    return out


def bind_chain(n, leaf="abcdefghi"):
    out = ("fmap", ("sym", leaf[n - 1]), "f")
    for c in reversed(leaf[:n - 1]):
        out = ("bind", ("sym", c), c, out, ("sym", "z"))
    return out


def chain_terms(tier):
    for n in range(1, 10):
        yield ("seql", chain(n), ("eof",))
    for n in range(1, 8):
        yield ("seql", ("seq", ("sym", "x"), chain(n)), ("eof",))
        yield ("seql", ("many", chain(n)), ("eof",))
        yield ("seql", ("alt", chain(n), ("recover", ("seq", ("sym", "b"),
                                                    chain(n, "cdefghi")))),
               ("eof",))
        yield ("seql", ("seqr", ("maybe", ("sym", "x")), ("rw", chain(n),
                                                        "W", None)),
               ("eof",))
    for n in range(2, 8):
        yield ("seql", bind_chain(n), ("eof",))
        yield ("seql", ("seq", bind_chain(n), ("sym", "x")), ("eof",))
        yield ("seql", ("many", bind_chain(n)), ("eof",))
    yield ("rec", "v", ("seq", ("sym", "a"), ("ref", "v")))
    yield ("rec", "v", ("seq", ("rw", ("unexp", "u"), "R", "r"),
                        ("alt", ("sym", "z"), ("ref", "v"))))


def chain_inputs(tier):
    """All subsequences of abcdefgh, some with an alien token inserted."""
    seen = set()
    base = "abcdefghi" if tier == "thorough" else "abcdefg"
    for mask in range(1 << len(base)):
        w = "".join(c for i, c in enumerate(base) if mask >> i & 1)
        for x in (w, "x" + w, w[:2] + "xx" + w[2:], w + "x"):
            if x not in seen:
                seen.add(x)
                yield x


CHAINS = TermSpace(chain_terms, chain_inputs,
                   ins=(None, 0, 1, 2, 3, 4, 6, 8))


class C04(GrammarCheck):
    pid = "C04"
    technique = ("exhaustive enumeration of grammars x inputs; for every "
                 "repair, exhaustive search for a derivation of the edited "
                 "input yielding the returned value")
    needs_model = False
    minimum = {"units": 100, "repairs": 10000}
    assumptions = [
        "grammars and inputs are limited to the enumerated ones",
        "an inserted token is identified by the label in the report",
    ]
    spaces = dict(EDIT_SPACES, chains=CHAINS, printed=PRINTED_REPAIRS,
                  far=TermSpace(FAR_TERMS, far_runs("x")),
                  labels=LABELLED_REPAIRS,
                  core_eof=Space(fm.CORE, Q(4, 5), ABX, wraps=(eof_wrap,)))
    deep = INDEX_DEEP
    deep_ins = (None, 1)

    def judge(self, term, parser, model, stream, ins, ctx):
        o = observe(parser, stream.s, True, ins, stream.runner)
        ctx.count("states")
        if o[0] == "exc" or o[0][0] == "val":
            return
        u, ur = o
        if ur[0] != "val":
            return
        if any(i[3] is None for i in u[1]):
            ctx.fail("a recovered parse reports an error without the edit "
                     "that repaired it", grammar=show(term), input=stream.s,
                     observed=o)
        edits = edits_of(u)
        if stream.runner == "tokens":
            edits = self.to_index(parser, stream, edits, ctx, term, ins)
        ok, steps = explain(term, stream.st(ins), edits, ur[1])
        ctx.count("transitions", steps)
        ctx.count("repairs")
        if len(edits) > 1:
            ctx.count("repairs_with_several_edits")
            ctx.sample({"grammar": show(term), "input": stream.s,
                        "edits": edits, "value": ur[1]})
        ctx.outcome((edits, ur[1]))
        if not ok:
            ctx.fail("no derivation of the edited input yields the returned "
                     "value", grammar=show(term), input=stream.s,
                     runner=stream.runner, max_insertions=ins, edits=edits,
                     value=ur[1])
        ctx.count("traces_validated_against_impl")

    @staticmethod
    def to_index(parser, stream, edits, ctx, term, ins):
        """
        Token reports give source offsets; the edits are replayed by stream
        index.  Offsets are unique per token except at the end of input.
        """
        starts = {t.start.pos: i for i, t in enumerate(stream.s)}
        end = stream.s[-1].end.pos if stream.s else 0
        out = []
        for kind, arg, pos in edits:
            if pos in starts:
                out.append((kind, arg, starts[pos]))
            elif pos == end:
                out.append((kind, arg, len(stream.s)))
            else:
                ctx.fail("an edit is not located at a token or at the end "
                         "of input", grammar=show(term), input=stream.s,
                         edits=edits)
        return out


class C05(GrammarCheck):
    pid = "C05"
    level = "exploration"
    technique = ("exhaustive enumeration of grammars x inputs x insertion "
                 "limits on the real parser; invariant on every reported "
                 "edit script")
    needs_model = False
    minimum = {"units": 100, "repairs": 10000, "at_the_limit": 100}
    assumptions = ["grammars and inputs are limited to the enumerated ones"]
    spaces = {
        n: Space(s.family, s.size, s.inputs, s.runner, s.wraps,
                 (None, 0, 1, 2) if s.runner == "index" else (None,))
        for n, s in EDIT_SPACES.items()
        if not isinstance(s, TermSpace) and n != "budget"
    }
    for n in ("budget", "large", "generous", "lavish", "far"):
        spaces[n] = EDIT_SPACES[n]
    spaces["chains"] = CHAINS
    deep = INDEX_DEEP
    deep_ins = (None, 0, 1, 3)

    def judge(self, term, parser, model, stream, ins, ctx):
        o = observe(parser, stream.s, True, ins, stream.runner)
        ctx.count("evaluations")
        if o[0] == "exc" or o[0][0] == "val":
            return
        u, ur = o
        if ur[0] != "val":
            if len(u[1]) != 1 or u[1][0][3] is not None:
                ctx.fail("a parse that was not repaired must report exactly "
                         "one error, without an edit", grammar=show(term),
                         input=stream.s, max_insertions=ins, observed=o)
            return
        edits = []
        for i in u[1]:
            if i[3] is None:
                ctx.fail("a repaired parse reports an error without an edit",
                         grammar=show(term), input=stream.s,
                         max_insertions=ins, observed=o)
            edits.append((i[3][0], i[3][1], i[0][0]))
        if stream.runner == "tokens":
            edits = C04.to_index(parser, stream, edits, ctx, term, ins)
        limit = 5 if ins is None else ins
        bad = well_formed(len(stream.s), edits, limit)
        ctx.count("repairs")
        ctx.outcome(edits)
        if edits == [] or bad:
            ctx.fail("malformed edit script: %s" % bad, grammar=show(term),
                     input=stream.s, max_insertions=limit, edits=edits)
        run = 0
        prev = None
        for e in edits:
            run = run + 1 if prev and prev[0] == e[0] == "ins" \
                and prev[2] == e[2] else 1
            if e[0] == "ins" and run == limit:
                ctx.count("at_the_limit")
            prev = e
        if len(edits) > 2:
            ctx.sample({"grammar": show(term), "input": stream.s,
                        "max_insertions": limit, "edits": edits})

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["distinct_nontrivial"] = c.get("repairs", 0)
        c["rule"] = (
            "every term x every word x every insertion limit; non-trivial: "
            "the parse was repaired, so there is an edit script to judge")
        return c


# --- C06: the first error --------------------------------------------------------

class C06(GrammarCheck):
    pid = "C06"
    level = "exploration"
    technique = ("exhaustive enumeration of grammars x inputs on the real "
                 "parser; differential oracle (recovery off / on)")
    needs_model = False
    minimum = {"units": 100, "rejected": 10000, "repaired": 10000}
    assumptions = [
        "grammars without attempt, whose repetitions consume input; limited "
        "to the enumerated ones",
    ]
    spaces = {
        "core": Space(fm.CORE_NOATT, Q(5, 5), text("abx", 3, 3)),
        "core_ins": Space(fm.CORE_NOATT, Q(4, 4), text("abx", 3, 4),
                          ins=(0, 1)),
        "derived": Space(fm.DERIVED, Q(4, 4), ABX),
        "recovery": Space(fm.RECOVERY, Q(3, 4), ABX, keep=no_attempt,
                          wraps=(None, eof_wrap, then_b)),
        "choice": Space(fm.CHOICE, Q(5, 5), text("abc", 3, 3)),
        "text": Space(fm.TEXT, Q(3, 3), text("ab\n", 4, 5), "text",
                      keep=no_attempt),
        "layout": Space(fm.LAYOUT, Q(4, 4), text("a \n", 4, 5), "text"),
        "tokens": Space(fm.TOKENS, Q(3, 3), lexed("ab \n", 3, 4), "tokens",
                        keep=no_attempt),
        "chains": CHAINS,
        "macro": Space(fm.MACRO, Q(4, 4), text("abx", 3, 3), keep=no_attempt,
                       wraps=(None, eof_wrap)),
    }
    deep = tuple(n for n in INDEX_DEEP if n != "stmt")

    def judge(self, term, parser, model, stream, ins, ctx):
        plain = observe(parser, stream.s, False, ins, stream.runner)
        ctx.count("evaluations")
        if plain[0] == "exc" or plain[0][0] == "val":
            return
        rec = observe(parser, stream.s, True, ins, stream.runner)
        ctx.count("evaluations")
        if rec[0] == "exc":
            # a repetition of something empty, reached only after a repair
            ctx.count("guard_errors")
            if rec[1] != "RuntimeError":
                ctx.fail("error recovery raised %s" % rec[1],
                         grammar=show(term), input=stream.s)
            return
        ctx.count("rejected")
        first = plain[0][1][0]
        if rec[0][0] == "val":
            ctx.fail("error recovery lost the error", grammar=show(term),
                     input=stream.s, without_recovery=plain,
                     with_recovery=rec)
        again = rec[0][1][0]
        if again[3] is not None:
            ctx.count("repaired")
            ctx.sample({"grammar": show(term), "input": stream.s,
                        "first_error": again})
        ctx.outcome(first)
        if first[:3] != again[:3] or len(plain[0][1]) != 1 \
                or first[3] is not None:
            ctx.fail("the first error reported with recovery differs from "
                     "the error reported without it", grammar=show(term),
                     input=stream.s, runner=stream.runner,
                     max_insertions=ins, without_recovery=first,
                     with_recovery=again)

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["distinct_nontrivial"] = c.get("repaired", 0)
        c["rule"] = (
            "every term x every word x every insertion limit that fails "
            "without recovery; non-trivial: recovery repaired it")
        return c


# --- C07 / C08 / C09: which repair, and how it is described ---------------------

def crowd(n, some=False):
    a, b = (("rw", ("sym", c), c.upper(), None) for c in "ab")

    def terms(tier):
        for i in (("alt", a, b), ("alt", ("recover", ("sym", "b")), a)):
            items = fm.seq_all(*[i] * n)
            yield ("seql", ("seql", items, ("sym", "z")), ("eof",))
            if not some:
                yield ("seql", ("seql", items, ("seq", ("sym", "z"), i)),
                       ("eof",))

    def inputs(tier):
        w = ("ab" * n)[:n]
        if some:
            yield "x" * (n + 1) + w + "z"
            return
        for m in range(0, n + 3):
            for z in ("z", "az", "zb"):
                yield "x" * m + w + z
                yield "x" * m + w[1:] + z
    return TermSpace(terms, inputs, ins=(9,) if some else (None, 9))


class C07(Conform):
    pid = "C07"
    technique = ("exhaustive enumeration of grammars x inputs x insertion "
                 "limits; the reference model explores every eligible repair "
                 "and its choice is compared with the parser's")
    modes = (True,)
    spaces = {
        "core": Space(fm.CORE, Q(4, 5), ABX),
        "core_ins": Space(fm.CORE, Q(3, 4), ABX, ins=(0, 1, 2)),
        "core_eof": Space(fm.CORE, Q(4, 5), ABX, wraps=(eof_wrap,)),
        "core_large": Space(fm.CORE, None, text("abx", 2, 2),
                            only=Q((5, 5), (5, 6))),
        "recovery": Space(fm.RECOVERY, Q(3, 4), ABX),
        "mini": Space(fm.RECOVERY_MINI, Q(5, 7), text("ab", 3, 3),
                      wraps=(None, eof_wrap)),
        "choice": Space(fm.CHOICE, Q(5, 7), text("abc", 3, 3),
                        wraps=(None, eof_wrap)),
        "derived": Space(fm.DERIVED, Q(4, 4), text("abx", 3, 4)),
        "falsy": FALSY,
        "chains": CHAINS,
        "budget": BUDGET,
        "macro": MACRO_EOF,
        "runs": RUNS,
        # many repairs at a time, of which a dear one wins in the end
        "crowd2": crowd(2),
        "crowd3": crowd(3),
        "crowd4": crowd(4),
        "crowd5": crowd(5, True),
        "crowd6": crowd(6, True),
        "crowd7": crowd(7, True),
        "large": LARGE_INS,
        "generous": GENEROUS,
        "lavish": LAVISH,
        "far": FAR_RUNS,
    }
    deep = INDEX_DEEP
    deep_ins = (None, 1)
    project = staticmethod(p_repair)


class C08(Conform):
    pid = "C08"
    technique = C07.technique
    modes = (False, True)
    spaces = {
        "recovery": Space(fm.RECOVERY, Q(4, 4), ABX),
        "mini": Space(fm.RECOVERY_MINI, Q(6, 7), text("ab", 3, 3)),
        "mini_then": Space(fm.RECOVERY_MINI, Q(5, 6), text("ab", 3, 3),
                           wraps=(then_b, eof_wrap)),
        "recovery5": Space(fm.RECOVERY, None, text("abx", 2, 2),
                           only=Q((9, 0), (5, 5))),
        "contexts": Space(fm.RECOVERY, Q(3, 4), ABX,
                          wraps=(eof_wrap, then_b, after_a,
                                 lambda t: ("alt", t, ("sym", "c")),
                                 lambda t: ("alt", ("sym", "c"), t))),
        "limits": Space(fm.RECOVERY, Q(3, 3), ABX, ins=(0, 1, 2)),
        "choice": Space(fm.CHOICE, Q(5, 7), text("abc", 3, 3)),
        "falsy": FALSY,
        "budget": BUDGET,
        "macro": MACRO_EOF,
        "runs": RUNS,
        "large": LARGE_INS,
        "generous": GENEROUS,
        "lavish": LAVISH,
        "far": FAR_RUNS,
        "printed": PRINTED_REPAIRS,
        "labels": LABELLED_REPAIRS,
        "tokens": TOKENS3,
        "kinds": KINDS,
    }
    deep = ("json", "json-dict", "json-list", "tutorial", "expr-rw", "fields")

    def judge(self, term, parser, model, stream, ins, ctx):
        Conform.judge(self, term, parser, model, stream, ins, ctx)
        if stream.runner == "tokens" and contains(term, ("tokins",)):
            self.inserted_tokens(term, parser, model, stream, ctx)

    def inserted_tokens(self, term, parser, model, stream, ctx):
        """Tokens made by token_ins carry the location they stand at."""
        real = {id(t) for t in stream.s}
        got, want = [], []

        def walk(v):
            if isinstance(v, rx.Token):
                # sym() inserts the very token it was given
                if id(v) not in real and v.value not in ("a", "b"):
                    got.append((tuple(v.start), tuple(v.end)))
            elif isinstance(v, TokenValue):
                if v.where is not None:
                    l = stream.loc(v.where)[0]
                    want.append((l, l))
            elif isinstance(v, (tuple, list)):
                for x in v:
                    walk(x)
        r = observe(parser, stream.s, True, None, "tokens")
        if r[0] != "exc" and r[1][0] == "val" and r[0][0] != "val":
            walk(r[1][1])
            walk(model.observe(stream.st(), stream.loc, True)[1][1])
            ctx.count("inserted_tokens", len(got))
            if got != want:
                ctx.fail("an inserted token has a wrong location",
                         grammar=show(term), input=stream.s,
                         expected=want, observed=got)


class C09(Conform):
    pid = "C09"
    technique = C07.technique
    modes = (True,)
    spaces = {
        "core": Space(fm.CORE, Q(4, 5), ABX),
        "core_eof": Space(fm.CORE, Q(4, 5), ABX, wraps=(eof_wrap,)),
        "core_large": Space(fm.CORE, None, text("abx", 2, 2),
                            only=Q((5, 5), (5, 6))),
        "recovery": Space(fm.RECOVERY, Q(3, 4), ABX, wraps=(None, then_b)),
        "mini": Space(fm.RECOVERY_MINI, Q(5, 7), text("ab", 3, 3),
                      wraps=(None, eof_wrap)),
        "choice": Space(fm.CHOICE, Q(5, 7), text("abc", 3, 3),
                        wraps=(None, eof_wrap)),
        "derived": Space(fm.DERIVED, Q(4, 4), text("abx", 3, 4)),
        "text": Space(fm.TEXT, Q(3, 3), text("ab\n", 3, 4), "text"),
        "falsy": FALSY,
        "macro": MACRO_EOF,
        "kinds": KINDS,
        "runs": RUNS,
        "large": LARGE_INS,
        "generous": GENEROUS,
        "lavish": LAVISH,
        "far": FAR_RUNS,
        "chains": TermSpace(chain_terms, chain_inputs, ins=(None, 2)),
        "printed": PRINTED_REPAIRS,
        "labels": LABELLED_REPAIRS,
        "labelled": LABELLED_SPACE,
    }
    deep = INDEX_DEEP
    project = staticmethod(p_labels)


# --- C14 / C15: locations -------------------------------------------------------

class Locations(GrammarCheck):
    """
    The location-tracking wrapper reports what Parser.parse reports, with the
    location of that index computed from scratch.
    """
    level = "exploration"
    technique = ("exhaustive enumeration of grammars x texts on the real "
                 "parser; locations recomputed from scratch")
    needs_model = False
    assumptions = ["grammars and inputs are limited to the enumerated ones"]

    def judge(self, term, parser, model, stream, ins, ctx):
        for recover in (False, True):
            base = observe(parser, stream.s, recover, None, "index")
            got = observe(parser, stream.s, recover, None, stream.runner)
            ctx.count("evaluations")
            if base[0] == "exc" or got[0] == "exc":
                if base != got:
                    ctx.fail("location tracking changed the outcome",
                             grammar=show(term), input=stream.s,
                             recover=recover, tracked=got, plain=base)
                continue
            for b, g in zip(base, got):
                if b[0] == "val" or g[0] == "val":
                    if b != g:
                        ctx.fail("location tracking changed the outcome",
                                 grammar=show(term), input=stream.s,
                                 recover=recover, tracked=g, plain=b)
                    continue
                want = tuple(
                    stream.loc(i[0][0]) + (i[2], i[3]) for i in b[1])
                ctx.count("locations", len(want))
                for i in want:
                    if i[0][1] > 0 and i[0][2] > 0:
                        ctx.count("inner_lines")
                        ctx.sample({"grammar": show(term),
                                    "input": stream.s, "reported": want})
                ctx.outcome(want)
                if want != g[1]:
                    ctx.fail("a reported location is wrong",
                             grammar=show(term), input=stream.s,
                             recover=recover, expected=want, observed=g[1])

    def coverage(self, ctx, tier):
        c = dict(ctx.n)
        c["distinct_nontrivial"] = c.get("inner_lines", 0)
        c["rule"] = (
            "every term x every text x recovery off/on; non-trivial: a "
            "reported location inside a line after the first")
        return c


# several lines, tokens that span lines
LINES = Family(
    [("lit", "a"), ("lit", "\n"), ("lit", "a\nb"), ("lit", "\n\n"),
     ("re", r"\s+", 0), ("re", "b*\n", 0), ("sym", "b"), ("sym", "\n"),
     ("sat", "any"), ("eof",)],
    [U("many"), U("maybe"), U("attempt")],
    [B("seq"), B("alt")])


def far_texts(tier):
    """Short words behind many columns, many lines, or both, up to a "~"."""
    for n in FAR + (() if tier == "quick" else FAR_MORE):
        for before in ("." * n, "\n" * n, ".\n" * n, "\n" + "." * n,
                       "." * n + "\n", "\n" * (n // 2) + "." * n)[
                           :6 if n < 300 else 2]:
            for w in ("", "ab", "\na", "bb\n", "a\nb.", "x" * n + "\nx")[
                    :6 if n < 300 else 2]:
                yield before + "~" + w


def far_terms(family, n):
    return lambda tier: (
        ("seqr", before, eof_wrap(t)) for t in family.upto(n)
        for before in (("re", "(?s:[^~]*~)", 0),
                       ("seq", ("many", ("re", "[^~]|\n", 0)),
                        ("lit", "~"))))


class C14(Locations):
    pid = "C14"
    minimum = {"units": 100, "locations": 10000, "inner_lines": 1000}
    spaces = {
        "text": Space(fm.TEXT, Q(3, 3), text("ab\n", 5, 6), "text"),
        "lines": Space(LINES, Q(3, 4), text("ab\n", 5, 5), "text",
                       wraps=(None, eof_wrap)),
        "lines_after": Space(
            LINES, Q(2, 3), text("a\n", 7, 9), "text",
            wraps=(lambda t: ("seqr", ("many", ("lit", "a\n")),
                              ("seql", t, ("eof",))),
                   lambda t: ("many", ("seq", ("re", r"\s*a", 0), t)))),
        "core": Space(fm.CORE, Q(4, 4), text("ab\n", 3, 4), "text"),
        # only the line feed ends a line; every character is one column
        "other": Space(Family([("sat", "any"), ("lit", "a\n"), ("sym", "a"),
                               ("re", "a*", 0), ("eof",)],
                              [U("many"), U("maybe")],
                              [B("seq"), B("alt")]),
                       Q(3, 4), text("a\n\r\t\x0c\u2028\xe9", 3, 4), "text"),
        # far to the right, far down
        "far": TermSpace(far_terms(Family(
            [("lit", "a\nb"), ("re", "[ab\n]*", 0), ("many", ("sat", "any")),
             ("rw", ("sym", "b"), "b", None)], [], []), 1), far_texts, "text"),
        "far-errors": TermSpace(
            lambda tier: [("seql", ("many", ("alt", ("re", "[a\n]+", 0), (
                "rw", ("seq", ("sym", "("), ("sym", ")")), "?", None))),
                ("eof",))],
            lambda tier: ["(x)".join([c * n] * 4) for n in FAR
                          for c in ("a", "\n", "a\n", "\na")], "text"),
    }
    deep = ("tutorial-text",)


def far_tokens(tier):
    """A few tokens far from each other; many tokens."""
    for n in FAR:
        for gap in (" " * n, "\n" * n, " \n" * n, "\n" + " " * n):
            for w in ("a", "ab", "aab"):
                yield fm.lex(gap.join(w))
                yield fm.lex(gap + w)
                yield fm.lex(w + gap)
    for n in FAR[:22]:
        for gap in ("", " ", "\n"):
            yield fm.lex(gap.join("a" * n) + "\n b")


class C15(Locations):
    pid = "C15"
    minimum = {"units": 100, "locations": 10000, "inner_lines": 1000}
    spaces = {
        "tokens": Space(fm.TOKENS, Q(3, 3), lexed("ab \n", 5, 6), "tokens",
                        wraps=(None, eof_wrap)),
        "tokens4": Space(fm.TOKENS, None, lexed("ab \n", 3, 4), "tokens",
                         only=Q((4, 4), (4, 4))),
        "values": Space(fm.TOKENS, Q(3, 3),
                        lexed("a;\n b", 4, 5, fm.lex2), "tokens",
                        wraps=(None, eof_wrap)),
        "strange": Space(fm.TOKENS, Q(3, 3),
                         lambda tier: fm.strange_tokens(3), "tokens",
                         wraps=(None, eof_wrap)),
        "kinds": KINDS,
        "far": Space(fm.TOKENS, Q(2, 3), far_tokens, "tokens",
                     wraps=(None, eof_wrap,
                            lambda t: ("seqr", ("many", fm.TOK_A), t))),
    }

    def units(self, tier):
        yield ("source",)
        yield from Locations.units(self, tier)

    def run(self, unit, ctx):
        if unit[0] != "source":
            return Locations.run(self, unit, ctx)
        # errors are at the place of the token in the source
        parser = build(("seql", ("many", fm.TOK_A), ("eof",)))
        srcs = list(words("ab \n", 5)) + [
            before + w for n in FAR for before in (
                " " * n, "\n" * n, "\n" * n + " " * n, "a\n" * n, "a " * n)
            for w in ("", "b", "ab", "a\nb", "a\n")]
        for src in srcs:
            ctx.where = src
            loc = Stream(src, "text").loc
            p = src.find("b")
            if p < 0:
                continue
            for recover in (False, True):
                o = observe(parser, fm.lex(src), recover, None, "tokens")
                ctx.count("sources")
                got = o[0][1][0][:2] if o[0] != "exc" else o
                if got != loc(p):
                    ctx.fail("an error is not at the place of its token in "
                             "the source", input=src, recover=recover,
                             expected=loc(p), observed=got)


# --- C16: layout -------------------------------------------------------------------

ALIGNED_A = ("seqr", fm.WS, ("aligned", ("sym", "a")))
ALIGNED_TOK = ("aligned", fm.TOK_A)
LEVELS = Family(
    [("sym", "a"), ("lit", "b")],
    [U("block"), U("aligned"), lambda g: ("indented", 1, g), U("many"),
     U("maybe"), U("attempt"), U("label", "L"), U("recover"),
     U("rw", "X", None)],
    [B("seq"), lambda g, h: ("seq", g, ("seqr", fm.WS, h)), B("alt")])
LEVELS_TOK = Family(
    [fm.TOK_A, ("tokins", "b", "b"), ("tsym", "b", "b", None)],
    LEVELS.unary, [B("seq"), B("alt"), B("sep_by")])




def then(g, h):
    return ("seq", g, ("seqr", fm.WS, h))


# what is at which level, whatever the shape of the text: "a" at any columns
PLACED = Family(
    [("sym", "a")],
    [U("block"), U("aligned"), lambda g: ("indented", 0, g),
     lambda g: ("indented", 1, g), lambda g: ("indented", 2, g),
     lambda g: ("indented", -1, g), lambda g: ("indented", -2, g)],
    [then])


def placed(q, t):
    def gen(tier):
        for n in range(1, (q if tier == "quick" else t) + 1):
            for cols in itertools.product(("", " ", "  ", "   ", None),
                                          repeat=n):
                if cols[0] is not None:
                    yield cols[0] + "a" + "".join(
                        " a" if c is None else "\n" + c + "a"
                        for c in cols[1:])
    return gen


WIDE = (0, 1, 7, 8, 9, 16, 17, 40, 79, 80, 81, 127, 128, 129, 256, 300)
PLACED_WIDE = Family(
    [("sym", "a")],
    [U("block"), U("aligned")] + [
        lambda g, d=d: ("indented", d, g) for d in (1, 8, 72, 80, 128, 256)],
    [then])


def placed_wide(tier):
    for x in WIDE:
        yield " " * x + "a"
        for y in WIDE:
            yield " " * x + "a\n" + " " * y + "a"
            yield " " * x + "a\n\n" + " " * y + "aa"
            if y in (0, 8, 80, 256):
                for z in WIDE:
                    yield "a\n".join((" " * x, " " * y, " " * z + "a"))


ENDS = Family(
    [("eof",), ("sym", "a"), ("pure", "q")],
    [U("block"), U("aligned"), U("maybe"), lambda g: ("indented", 1, g)],
    [B("seq"), B("alt")])


class C16(Conform):
    pid = "C16"
    technique = C01.technique
    modes = (False, True)
    spaces = {
        "text": Space(fm.LAYOUT, Q(4, 5), text("a \n", 4, 5), "text"),
        "text_eof": Space(fm.LAYOUT, Q(4, 4), text("a \n", 4, 6), "text",
                          wraps=(eof_wrap,
                                 lambda t: ("seqr", fm.WS, t))),
        "tokens": Space(fm.LAYOUT_TOK, Q(4, 5), lexed("ab \n", 4, 5),
                        "tokens"),
        "strange": Space(fm.LAYOUT_TOK, Q(3, 4),
                         lambda tier: fm.strange_tokens(3), "tokens",
                         wraps=(None, eof_wrap)),
        "tokens_long": Space(fm.LAYOUT_TOK, Q(3, 4), lexed("a \n", 6, 7),
                             "tokens", wraps=(eof_wrap, lambda t: (
                                 "seq", ("many", ("aligned", fm.TOK_A)),
                                 t))),
        "nested": Space(
            Family([("lit", "a\n"), ("sym", "a")],
                   [U("block"), U("aligned"),
                    lambda g: ("indented", 1, g), U("many")],
                   [B("seq"),
                    lambda g, h: ("seq", g, ("seqr", fm.WS, h)),
                    lambda g, h: ("alt", ("attempt", g), h)]),
            Q(4, 5), text("a \n", 5, 6), "text"),
        # the level in force after a nested block, whatever happened in it
        "restored": Space(
            LEVELS, Q(3, 3), text("ab \n", 4, 5), "text",
            wraps=(lambda t: ("seq", ("seqr", ("re", "\n? ?", 0),
                                      ("block", t)), ALIGNED_A),
                   lambda t: ("seq", ("seqr", fm.WS, ("indented", 1, t)),
                              ALIGNED_A),
                   # not the first choice
                   lambda t: ("seq", ("seqr", fm.WS, (
                       "maybe", ("indented", 1, t))), ALIGNED_A),
                   lambda t: ("seq", ("seqr", fm.WS, (
                       "many", ("block", t))), ALIGNED_A))),
        # any column after any other, deeper or not as deep
        "placed": Space(PLACED, Q(4, 5), placed(3, 3), "text",
                        wraps=(lambda t: ("seqr", fm.WS, ("block", t)),
                               lambda t: ("seqr", fm.WS, (
                                   "block", then(("sym", "a"), t))))),
        "placed_wide": Space(PLACED_WIDE, Q(2, 3), placed_wide, "text",
                             wraps=(lambda t: ("seqr", fm.WS, t),
                                    lambda t: ("seqr", fm.WS, (
                                        "block", then(("sym", "a"), t))))),
        "tokens_wide": Space(
            Family([fm.TOK_A], PLACED_WIDE.unary, [B("seq")]), Q(2, 3),
            lambda tier: map(fm.lex, placed_wide(tier)), "tokens",
            wraps=(None, lambda t: ("block", ("seq", fm.TOK_A, t)))),
        "steered": Space(LEVELS, Q(4, 5), text("ab \n", 3, 4), "text"),
        # the rest of the input is skipped, what follows needs a column
        "ended": Space(
            ENDS, Q(3, 4), text("a \n", 5, 6), "text",
            wraps=(lambda t: ("seqr", fm.WS, ("seq", ("block", t),
                                              ("aligned", ("pure", "p")))),
                   lambda t: ("seqr", fm.WS, (
                       "seq", ("indented", 1, t),
                       ("aligned", ("pure", "p")))))),
        "restored_tokens": Space(
            LEVELS_TOK, Q(3, 3), lexed("ab \n", 4, 6), "tokens",
            wraps=(lambda t: ("seq", ("seqr", ("maybe", fm.TOK_B),
                                      ("block", t)), ALIGNED_TOK),
                   lambda t: ("seq", ("indented", 1, t), ALIGNED_TOK),
                   lambda t: ("seq", ("maybe", ("indented", 1, t)),
                              ALIGNED_TOK),
                   lambda t: ("seq", ("many", ("seqr", fm.TOK_B, (
                       "block", t))), ALIGNED_TOK))),
    }
    deep = ("yaml",)


# --- C18: tuples ------------------------------------------------------------------

def tuple_terms(tier):
    letters = "abcdefgh"
    for n in range(2, 9):
        plain = tuple(("sym", c) for c in letters[:n])
        for k in ("then", "apply"):
            yield (k,) + plain
            yield ("seql", (k,) + plain, ("eof",))
            yield ("many", (k,) + plain)
            yield ("attempt", (k,) + plain)
            # one element at a time is something other than a symbol
            for i in range(n):
                for special in (
                        ("maybe", plain[i]), ("many", plain[i]),
                        ("rw", plain[i], "X", None),
                        ("then", plain[i], ("sym", "x")),
                        ("seq", plain[i], ("sym", "x")),
                        ("pure", "p"), ("sat", "any"),
                        ("label", ("alt", plain[i], ("sym", "x")), "L")):
                    t = plain[:i] + (special,) + plain[i + 1:]
                    if i == 0 and special[0] == "then":
                        continue
                    yield (k,) + t
                    if tier == "thorough":
                        yield ("seql", (k,) + t, ("eof",))


def tuple_inputs(tier):
    base = "abcdefgh"
    seen = set()
    for n in range(len(base) + 1):
        w = base[:n]
        for i in range(n + 1):
            for v in (w, w[:i] + "x" + w[i:], w[:i] + w[i + 1:],
                      w[:i] + w[i:i + 1] + w[i:], w + w):
                if v not in seen:
                    seen.add(v)
                    yield v


class C18(Conform):
    pid = "C18"
    technique = C01.technique
    modes = (False, True)
    minimum = {"units": 100, "states": 1000, "flat_tuples": 100}
    spaces = {
        "tuples": TermSpace(tuple_terms, tuple_inputs, ins=(None, 1)),
        "short": Space(
            Family([("sym", "a"), ("sym", "b"), ("sat", "isa"), ("eof",)],
                   [U("maybe"), U("many"), U("recover"),
                    lambda g: ("then", g, ("sym", "b")),
                    lambda g: ("apply", ("sym", "a"), g, ("sym", "b"))],
                   [lambda g, h: ("then", ("sym", "a"), g, h),
                    lambda g, h: ("apply", ("maybe", g), h),
                    lambda g, h: ("then", ("fmap", g, "f"), h,
                                  ("sym", "a"), ("maybe", ("sym", "b")))]),
            Q(3, 4), text("abx", 4, 4)),
    }
    deep = ("fields",)

    def judge(self, term, parser, model, stream, ins, ctx):
        Conform.judge(self, term, parser, model, stream, ins, ctx)
        if term[0] in ("then", "apply"):
            o = observe(parser, stream.s, True, ins)
            if o[0] != "exc" and o[1][0] == "val":
                v = o[1][1]
                n, first = len(term) - 1, term[1]
                while first[0] == "then":
                    n, first = n + len(first) - 2, first[1]
                n += term[0] == "apply"
                ctx.count("flat_tuples")
                if type(v) is not tuple or len(v) != n:
                    ctx.fail("not a tuple of %d results" % n,
                             grammar=show(term), input=stream.s, value=v)


# --- C20: repetition always makes progress ------------------------------------------

REPEAT = Family(
    [("sym", "a"), ("sym", "b"), ("eof",), ("pure", "p"), ("unexp", "u")],
    [U("many"), U("maybe"), U("attempt"), U("label", "L"),
     U("rw", "X", None)],
    [B("seq"), B("alt"), B("sep_by"), B("chainl1"), B("chainr1")])
REPEAT_TEXT = Family(
    [("re", "a*", 0), ("re", "(?=a)", 0), ("re", "a|b?", 0), ("lit", "a"),
     ("re", "(a)?b?", 1)],
    [U("many"), U("maybe"), U("label", "L")],
    [B("seq"), B("alt"), B("sep_by"), B("chainl1")])


def p_guard(obs):
    return obs if obs[0] == "exc" else (
        tuple(u[0] for u in obs))


class C20(Conform):
    pid = "C20"
    technique = ("exhaustive enumeration of repetition grammars x inputs "
                 "under a CPU and memory bound; outcome compared with the "
                 "reference model")
    modes = (False, True)
    minimum = {"units": 100, "states": 1000, "guard_errors": 1000,
               "accepted": 1000}
    spaces = {
        "repeat": Space(REPEAT, Q(5, 5), text("ab", 3, 4)),
        "twice": Space(REPEAT, Q(4, 4), text("abx", 3, 4),
                       wraps=(lambda t: ("many", t),
                              lambda t: ("many", ("seq", ("sym", "a"), t)),
                              lambda t: ("sep_by", t, ("maybe", (
                                  "sym", "b"))))),
        "text": Space(REPEAT_TEXT, Q(4, 4), text("ab", 3, 4), "text"),
        "text_many": Space(REPEAT_TEXT, Q(3, 4), text("ab", 3, 4), "text",
                           wraps=(lambda t: ("many", t),)),
    }
    deep = ("nested", "right")
    project = staticmethod(p_guard)
    long_terms = (
        ("many", ("sym", "a")),
        ("sep_by", ("sym", "a"), ("sym", "b")),
        ("chainl1", ("sym", "a"), ("sym", "b")),
        ("chainr1", ("sym", "a"), ("sym", "b")),
        ("seql", ("many", ("alt", ("sym", "a"), ("attempt", ("seq", (
            "sym", "b"), ("sym", "a"))))), ("eof",)),
    )

    def units(self, tier):
        yield from Conform.units(self, tier)
        for i, t in enumerate(self.long_terms):
            for n in (3, 500, 20000, 70000):
                for recover in (False, True):
                    yield ("long", t, n, recover)
        for t in self.long_terms:
            for place in ("start", "middle", "end"):
                for wrong in ("x", "xx", ""):
                    for recover in (False, True):
                        yield ("wrong", t, place, wrong, recover)

    @staticmethod
    def long_word(term, n):
        if term[0] == "many":
            return "a" * n
        return "ba" * n if term[0] == "seql" else "ab" * n + "a"

    def wrong(self, unit, ctx):
        """One error in a long input: as in a short one."""
        _, term, place, wrong, recover = unit
        if term[0] != "seql":
            term = ("seql", term, ("eof",))
            inner = term[1]
        else:
            inner = term
        ctx.where = (show(term), "long input with an error")
        parser = build(term)
        seen = []
        for n in (8, 9, 500, 5000):
            w = self.long_word(inner, n)
            k = {"start": 0, "middle": len(w) // 4 * 2, "end": len(w)}[place]
            if wrong:
                w = w[:k] + wrong + w[k:]
            else:  # a symbol is missing
                w = w[:k] + w[k + 1:]
            o = observe(parser, w, recover)
            ctx.count("long_inputs")
            if o[0] == "exc":
                seen.append(o)
                continue
            out = []
            for u in o:
                if u[0] == "val":
                    out.append("val")
                    continue
                for loc, loc_str, labels, op in u[1]:
                    if op is not None and op[0] == "skip" and \
                            loc[0] + op[1] == len(w) and op[1] > 3:
                        op = "skip to the end"
                    out.append((loc[0] - k, loc_str == str(loc[0]), labels,
                                op))
            seen.append(out)
        ctx.outcome(seen[0])
        if any(x != seen[0] for x in seen):
            ctx.fail("an error in a long input is treated differently",
                     grammar=show(term), place=place, inserted=wrong,
                     recover=recover, short_input=seen[0],
                     longer_inputs=seen[1:])

    def run(self, unit, ctx):
        if unit[0] == "wrong":
            return self.wrong(unit, ctx)
        if unit[0] != "long":
            return Conform.run(self, unit, ctx)
        _, term, n, recover = unit
        parser = build(term)
        word = self.long_word(term, n)
        ctx.where = (show(term), "long input", n)
        o = observe(parser, word, recover)
        ctx.count("long_inputs")
        if o[0] == "exc" or o[0][0] != "val":
            ctx.fail("a long repetition fails", grammar=show(term),
                     length=len(word), recover=recover,
                     observed=repr(o)[:200])
        v = o[0][1]
        if isinstance(v, list):
            want = {"many": n, "sep_by": n + 1, "seql": n}[term[0]]
            if len(v) != want:
                ctx.fail("a long repetition lost items", grammar=show(term),
                         expected=want, observed=len(v))


# --- C21: sequences -------------------------------------------------------------------

class Box:
    """A minimal sequence: only len and integer indexing."""

    def __init__(self, items):
        self._items = tuple(items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        if not isinstance(i, int) or i < 0:
            raise TypeError("only non-negative integer indices")
        return self._items[i]

    def __repr__(self):
        return "Box%r" % (self._items,)


ODD = Family(
    [("sym", 0), ("sym", None), ("symL", "", "empty"), ("sat", "truthy"),
     ("eof",), ("pure", 0)],
    [U("many"), U("maybe"), U("label", "L"), U("attempt"),
     U("rw", None, None), U("rw", 0, "zero")],
    [B("seq"), B("alt"), B("sep_by"),
     lambda g, h: ("bind", g, 0, h, ("sym", None))])

class LikeA:
    """Equal to "a"; the comparison gives something true or false."""

    def __eq__(self, other):
        return [other] if other is self or other == "a" else ()

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return "LikeA"


class Text(str):
    """A str with a mind of its own."""

    def __eq__(self, other):
        raise TypeError("the input is not to be compared")

    __hash__ = None


NAN = float("nan")
LIKE_A = LikeA()
ODD_EQ = Family(
    [("sym", NAN), ("sym", "a"), ("sym", LIKE_A), ("sat", "any"), ("eof",)],
    [U("many"), U("maybe"), U("label", "L"), U("recover"),
     U("rw", "X", None)],
    [B("seq"), B("alt")])
BYTES = Family(
    [("sym", 97), ("sym", 0), ("sat", "any"), ("eof",)],
    [U("many"), U("maybe"), U("label", "L"), U("attempt"),
     U("rw", 7, None)],
    [B("seq"), B("alt"), B("sep_by")])

ALPHA = Family(
    [("letter",), ("digit",), ("sym", "a"), ("symL", "1", "one"),
     ("sat", "notx"), ("eof",)],
    [U("many"), U("maybe"), U("label", "L"), U("attempt"),
     U("rw", "X", None)],
    [B("seq"), B("alt"), B("sep_by")])


class C21(Conform):
    pid = "C21"
    technique = C01.technique
    modes = (False, True)
    spaces = {
        "alphabet": Space(ALPHA, Q(3, 4), text("a1x_", 4, 4)),
        "unicode": Space(ALPHA, Q(3, 3), text("aZ1\xe9\xb2\u0661\xbd-", 2, 3)),
        "odd": Space(ODD, Q(3, 4), listed((0, None, ""), 3, 4)),
        "equal": Space(ODD, Q(3, 3), listed((0, False, 0.0, 1, True), 2, 3)),
        "strange": Space(ODD_EQ, Q(3, 4), listed((NAN, LIKE_A, "a"), 3, 3)),
        "printed": Space(PRINTED, Q(3, 3), listed(QUOTED, 1, 2),
                         wraps=(None, eof_wrap)),
        "bytes": Space(BYTES, Q(3, 4), listed((0, 97, 120), 3, 4)),
        "core": Space(fm.CORE, Q(3, 4), text("abx", 4, 4)),
    }

    def kinds(self, s):
        yield list
        yield tuple
        yield Box
        yield collections.deque
        if isinstance(s, str):
            yield Text
        elif all(type(x) is int and 0 <= x < 256 for x in s):
            yield bytes
            yield bytearray
            yield lambda xs: array.array("B", xs)

    def judge(self, term, parser, model, stream, ins, ctx):
        Conform.judge(self, term, parser, model, stream, ins, ctx)
        for recover in (False, True):
            base = observe(parser, stream.s, recover, ins)
            want = model.observe(stream.st(ins), stream.loc, recover)
            if repr(want) != repr(base):
                # equal is not enough: the very symbols of the input
                ctx.fail("a result is not made of the symbols of the input",
                         grammar=show(term), input=stream.s,
                         recover=recover, expected=want, observed=base)
            for kind in self.kinds(stream.s):
                s = kind(stream.s)
                o = observe(parser, s, recover, ins)
                ctx.count("sequence_types")
                if o != base or repr(o) != repr(base):
                    ctx.fail("the result depends on the type of the "
                             "sequence", grammar=show(term), input=s,
                             recover=recover, expected=base, observed=o)
                if list(s[i] for i in range(len(s))) != list(stream.s):
                    ctx.fail("parsing changed the input",
                             grammar=show(term), input=stream.s, after=s)


# --- C22: text terminals ------------------------------------------------------------

PATTERNS = (
    ("a", 0), ("a*", 0), ("a+", 0), ("a|ab", 0), ("ab|a", 0), ("a??b", 0),
    ("(a)(b)?", 1), ("(a)(b)?", 2), ("(?P<x>a)|(?P<y>b)", "y"),
    ("(?P<x>a)|(?P<y>b)", "x"), ("(?:(a)|b)+", 1), ("a(?=b)", 0),
    ("(?!b).", 0), (".", 0), ("(?s:.)", 0), ("[^b]*b", 0), ("\n", 0),
    ("(\\s*)a", 1), ("a$", 0), ("a\\Z", 0), ("", 0), ("(a*)(b*)", 2),
    ("(a*)(b*)", 1), ("()b", 1), ("b()", 1), ("(?=(a))", 1), ("a(?=(b))", 1),
    ("(?=(ab))a", 1), ("(?i:A)", 0), ("\\w+", 0), ("\\d", 0),
    # these look at the text before the position
    ("(?<=b)a", 0), ("(?<!b)a", 0), ("^a", 0), ("(?m:^)[ab]", 0),
    ("\\b[ab]+", 0), ("\\Ba", 0), ("\\Aa|b", 0), ("(?<=(b))a", 1),
    ("(?m:$)\n", 0), ("(a)\\1", 0), ("(?s:.)(?<=\n)", 0),
)
LITERALS = ("a", "b", "ab", "ba", "aa", "aba", "\n", "a\n", "a\nb", "'", "A")
# one character in several forms, characters that case folding changes or
# splits, characters outside the basic plane
UNICODE = "e\u0301\xe9\xdfs\u0130\U0001f600\r"
UNICODE_PATTERNS = (
    ("(?i:\xdf)", 0), (".", 0), ("e\u0301?", 0), ("(?i:\u0130)", 0),
    ("[\xe9\U0001f600]+", 0), ("\\W", 0), ("(?P<x>s)|(?P<y>.)", "y"),
    ("\r?(?P<n>e)", "n"), ("\\s+", 0))


# patterns put together from pieces, with and without groups
PIECES = ("a", "b", ".", "\n", "(a)", "(?P<g>b)", "()", "(?=a)", "(?!a)",
          "(?<=a)", "(?<!b)", "^", "$", "\\b", "[^a]", "(?i:A)", "")
REPEATS = ("*", "+", "?", "*?", "{2}")


def made_patterns(n):
    made = [None, list(PIECES)]
    for k in range(2, n + 1):
        made.append(
            ["(?:%s)%s" % (p, r) for p in made[k - 1] for r in REPEATS] +
            [f % (p, q) for i in range(1, k - 1)
             for p in made[i] for q in made[k - 1 - i]
             for f in ("%s%s", "(?:%s|%s)", "(%s)%s", "(?:(%s)|%s)")])
    seen = set()
    for ps in made[1:]:
        for p in ps:
            if p not in seen:
                seen.add(p)
                try:
                    c = re.compile(p)
                except re.error:  # a name is used twice, or the like
                    continue
                yield from ((p, g) for g in itertools.chain(
                    range(c.groups + 1), c.groupindex))


def made_terms(tier):
    for p, g in made_patterns(3 if tier == "quick" else 4):
        t = ("re", p, g)
        yield t
        yield ("seqr", ("lit", "a"), t)
        if tier != "quick":
            yield ("seq", ("maybe", t), ("many", ("sat", "any")))


def unicode_terms(tier):
    return text_terms(tier, UNICODE_PATTERNS, tuple(UNICODE) + (
        "e\u0301", "ss", "\xe9\xdf"))


def text_terms(tier, patterns=PATTERNS, literals=LITERALS):
    for t in [("re", p, g) for p, g in patterns] + [
            ("lit", s) for s in literals]:
        yield t
        yield eof_wrap(t)
        yield ("seq", ("sat", "any"), t)
        yield ("seq", t, ("sym", "b"))
        yield ("seq", ("sat", "any"), ("seq", ("sat", "any"), t))
        yield ("seq", ("maybe", t), ("many", ("sat", "any")))
        yield ("rw", t, "X", None)
        yield ("seq", t, t)
        yield ("alt", t, ("lit", "b"))
        yield ("label", t, "L")


def long_terms(tier):
    for n in (8, 17, 20, 21, 32, 40, 41, 64, 80, 100, 128, 200, 256, 300):
        for s in ("ab" * n)[:n], "a" * n, "a" * (n - 1) + "b", "'\n" + "a" * n:
            yield ("lit", s)
            yield eof_wrap(("lit", s))
            yield ("many", ("lit", s))
            yield ("seq", ("lit", s), ("lit", s))
            yield ("alt", ("lit", s), ("lit", s + "b"))
            yield ("rw", ("lit", s), "X", None)
            yield ("rw", ("sat", "isb"), s, None)
        for p, g in (("a{%d}", 0), ("a{%d,}b", 0), ("(a{%d})(b*)", 1),
                     ("(?=(a{%d}))a", 1), ("(?:a|b){%d}", 0),
                     ("a*(?<=a{%d})", 0)):
            yield ("re", p % n, g)
            yield ("seq", ("re", p % n, g), ("many", ("sat", "any")))


def long_texts(tier):
    for n in (7, 8, 17, 20, 21, 32, 40, 41, 64, 80, 100, 128, 200, 256, 300):
        for w in ("ab" * n)[:n], "a" * n, "a" * (n - 1) + "b":
            yield w
            yield w[:-1]
            yield w + "a"
            yield w + w
            yield "b" + w
            yield "'\n" + w


class C22(Conform):
    pid = "C22"
    technique = C01.technique
    modes = (False, True)
    spaces = {
        "terminals": TermSpace(text_terms, text("ab\n", 5, 6), "text"),
        "quotes": TermSpace(text_terms, text("a'A1", 3, 4), "text"),
        "unicode": TermSpace(unicode_terms, text(UNICODE, 2, 3), "text"),
        "pairs": Space(fm.TEXT, Q(3, 4), text("ab\n", 4, 4), "text"),
        "made": TermSpace(made_terms, text("ab\n", 3, 4), "text"),
        "long": TermSpace(long_terms, long_texts, "text"),
        # the next match is far away
        "far": TermSpace(
            lambda tier: [w(t) for t in (
                ("lit", "ab"), ("re", "a+b?", 0), ("re", "(a)(b|$)", 2),
                ("lit", "a\nb"), ("re", "(?<=\\.)a", 0), ("re", "a\\Z", 0))
                for w in (lambda t: t, eof_wrap, lambda t: ("many", t),
                          lambda t: ("seq", t, ("lit", "b")),
                          lambda t: ("rw", t, "X", None))],
            lambda tier: [a + c * n + b
                          for n in FAR + (() if tier == "quick" else FAR_MORE)
                          for c in (".", "\n") for a in ("", "a")
                          for b in ("", "a", "ab", "a\nb", "abab")], "text"),
    }


CHECKS = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C14, C15, C16, C18,
          C20, C21, C22]

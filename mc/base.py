"""Checks that run families of grammars, and the projections they compare."""

import os

from reparsec import lexer as rx

from . import families as fm
from .engine import Check
from .grammar import METHODS, build, contains, show, tuples, words
from .observe import Stream, edits_of, observe
from .refmodel import Model

CHUNKS = 32
# development only: smaller spaces
SMOKE = int(os.environ.get("MC_SMOKE", "0"))
# development only: some of the spaces
ONLY = os.environ.get("MC_SPACES", "").split()


class Space:
    """
    A family of terms with the inputs every one of them is run on.

    sizes / inputs: {tier: bound}; wrap: contexts put around each term.
    """

    def __init__(self, family, size, inputs, runner="index", wraps=(None,),
                 ins=(None,), keep=None, only=None):
        self.family = family
        self.size = size
        self.inputs = inputs
        self.runner = runner
        self.wraps = wraps
        self.ins = ins
        self.keep = keep
        self.only = only
        self._streams = {}

    def terms(self, tier):
        lo, hi = self.only[tier] if self.only else (1, self.size[tier])
        for n in range(lo, hi + 1 - SMOKE):
            for t in self.family.iter_terms(n):
                if self.keep is not None and not self.keep(t):
                    continue
                for w in self.wraps:
                    yield t if w is None else w(t)

    def streams(self, tier):
        if tier not in self._streams:
            self._streams[tier] = [
                Stream(s, self.runner) for s in self.inputs(tier)]
        return self._streams[tier]

    def describe(self, tier):
        lo, hi = self.only[tier] if self.only else (1, self.size[tier])
        return "all terms of %d..%d constructors x %d inputs (%s)" % (
            lo, hi, len(self.streams(tier)), self.runner)


class TermSpace:
    """An explicit list of terms (not a family)."""

    def __init__(self, terms, inputs, runner="index", ins=(None,)):
        self._terms = terms
        self.inputs = inputs
        self.runner = runner
        self.ins = ins
        self._streams = {}

    def terms(self, tier):
        return iter(self._terms(tier))

    def streams(self, tier):
        got = Space.streams(self, tier)
        return got[::8] if SMOKE else got

    def describe(self, tier):
        return "%d terms x %d inputs (%s)" % (
            sum(1 for _ in self.terms(tier)), len(self.streams(tier)),
            self.runner)


def text(alphabet, quick, thorough):
    return lambda tier: words(alphabet, quick if tier == "quick" else thorough)


def listed(alphabet, quick, thorough):
    return lambda tier: map(
        list, tuples(alphabet, quick if tier == "quick" else thorough))


def lexed(alphabet, quick, thorough, lex=None):
    lex = fm.lex if lex is None else lex

    def gen(tier):
        seen = set()
        for w in words(alphabet, quick if tier == "quick" else thorough):
            try:
                toks = lex(w)
            except rx.LexError:
                continue
            key = tuple((t.kind, t.value, t.start, t.end) for t in toks)
            if key not in seen:
                seen.add(key)
                yield toks
    return gen


def Q(quick, thorough):
    return {"quick": quick, "thorough": thorough}


def eof_wrap(t):
    return ("seql", t, ("eof",))


def then_b(t):
    return ("seq", t, ("sym", "b"))


def after_a(t):
    return ("seqr", ("sym", "a"), t)


class GrammarCheck(Check):
    """
    Explores spaces of (grammar, input, configuration).  Subclasses give
    `spaces` {name: Space}, `deep` names of realistic grammars, and
    `judge(term, parser, model, stream, ins, ctx)`.
    """

    spaces = {}
    deep = ()
    deep_ins = (None,)
    api = METHODS
    needs_model = True
    tier = "quick"

    def units(self, tier):
        for name, space in self.spaces.items():
            if ONLY and name not in ONLY:
                continue
            for t in space.terms(tier):
                yield ("term", name, t, tier)
        for name in () if ONLY else self.deep:
            for i in range(CHUNKS):
                yield ("deep", name, i, tier)

    def run(self, unit, ctx):
        if unit[0] == "term":
            _, name, term, tier = unit
            space = self.spaces[name]
            streams = space.streams(tier)
            ins_list = space.ins
        else:
            _, name, chunk, tier = unit
            term, runner, alphabet, q, t = fm.DEEP[name]
            streams = [
                Stream(w, runner) for i, w in enumerate(
                    words(alphabet, (q if tier == "quick" else t) - SMOKE))
                if i % CHUNKS == chunk]
            ins_list = self.deep_ins
        parser = build(term, self.api)
        model = Model(term) if self.needs_model else None
        for stream in streams:
            for ins in ins_list:
                if stream.runner != "index" and ins is not None:
                    continue
                ctx.where = (show(term), stream.s, ins)
                self.judge(term, parser, model, stream, ins, ctx)

    def bounds(self, tier):
        out = {n: s.describe(tier) for n, s in self.spaces.items()}
        for n in self.deep:
            _, runner, alphabet, q, t = fm.DEEP[n]
            out["grammar " + n] = "all words over %r up to length %d" % (
                alphabet, q if tier == "quick" else t)
        return out


class Conform(GrammarCheck):
    """Observations of the real parser equal the reference model's."""

    modes = (False,)
    minimum = {"units": 100, "states": 1000,
               "traces_validated_against_impl": 1000}
    assumptions = [
        "grammars are limited to the enumerated terms, inputs to the "
        "enumerated words; user functions are pure",
        "the reference model (mc/refmodel.py) states the documented "
        "semantics; it never imports reparsec",
    ]

    def project(self, obs):
        return obs

    def judge(self, term, parser, model, stream, ins, ctx):
        for recover in self.modes:
            st = stream.st(ins)
            want = model.observe(st, stream.loc, recover)
            got = observe(parser, stream.s, recover, ins, stream.runner)
            ctx.count("transitions", len(st.trace))
            ctx.count("states", len(set(st.trace)))
            pw, pg = self.project(want), self.project(got)
            if pw != pg:
                ctx.fail(
                    "the parser disagrees with the reference model",
                    grammar=show(term), input=stream.s, recover=recover,
                    max_insertions=ins, runner=stream.runner,
                    expected=pw, observed=pg)
            ctx.count("traces_validated_against_impl")
            ctx.outcome(pw)
            if got[0] == "exc":
                ctx.count("guard_errors")
            elif got[0][0] == "val":
                ctx.count("accepted")
            elif got[1][0] == "val":
                ctx.count("repaired")
                if len(got[0][1]) > 1:
                    ctx.count("repaired_with_several_edits")
                    ctx.sample({"grammar": show(term), "input": stream.s,
                                "observed": got})
            else:
                ctx.count("rejected")
                if not recover and got[0][1][0][2]:
                    ctx.sample({"grammar": show(term), "input": stream.s,
                                "observed": got[0]})


# --- projections ------------------------------------------------------------

def p_value(obs):
    if obs[0] == "exc":
        return obs
    return tuple(u if u[0] == "val" else "fails" for u in obs)


def p_error(obs):
    if obs[0] == "exc":
        return obs
    return tuple("ok" if u[0] == "val" else u for u in obs)


def p_repair(obs):
    if obs[0] == "exc":
        return obs
    u, ur = obs
    if u[0] == "val":
        return obs
    return (tuple((i[0][0], i[3]) for i in u[1]),
            ur if ur[0] == "val" else "fails")


def p_labels(obs):
    if obs[0] == "exc":
        return obs
    u, _ = obs
    if u[0] == "val":
        return "ok"
    return tuple((i[0][0], i[2]) for i in u[1])

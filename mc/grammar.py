"""
Grammar terms: an abstract syntax for reparsec parsers, a builder that turns a
term into a real parser through the public API, and bounded exhaustive
enumeration of terms.

A term is a tuple whose first item is the constructor name:

  terminals  ("sym", s) ("symL", s, label) ("sat", name) ("eof",) ("pure", v)
             ("purefn", v) ("fresh",) ("unexp", label) ("lit", s) ("re", pat, group)
             ("letter",) ("digit",) ("tok", kind) ("tokins", kind, value)
             ("tsym", kind, value, label)
  unary      ("fmap", g, tag) ("maybe", g) ("many", g) ("attempt", g)
             ("label", g, x) ("recover", g) ("rw", g, x, label)
             ("rwf", g, tag, label) ("block", g) ("aligned", g)
             ("indented", delta, g)
  binary     ("seq", g, h) ("seql", g, h) ("seqr", g, h) ("alt", g, h)
             ("bind", g, key, h, k) ("sep_by", g, sep)
             ("chainl1", g, op) ("chainr1", g, op)
  other      ("between", open, close, g) ("then", g1, ..., gn)
             ("apply", g1, ..., gn) ("ref", name)
             ("rec", name, g)  -- Delay named `name`, defined as g
"""

import itertools

import reparsec
from reparsec import Delay
from reparsec import layout as rl
from reparsec import lexer as rx
from reparsec import primitive as rp
from reparsec import scannerless as rs
from reparsec import sequence as rq

PREDS = {
    "any": lambda t: True,
    "isa": lambda t: t == "a",
    "isb": lambda t: t == "b",
    "ab": lambda t: t == "a" or t == "b",
    "notx": lambda t: t != "x",
    "atom": lambda t: t not in "!?()",
    "isnum": lambda t: t == "1",
    "isspace": lambda t: t in " \n\t",
    # any truth value will do, not only bool
    "truthy": lambda t: [] if t == 0 and t is not None else ["yes"],
}


def tag_fn(tag):
    """Functions that return something falsy have the tag None."""
    if tag is None:
        return lambda v: None
    return lambda v: (tag, v)


def rwf_fn(tag):
    if tag is None:
        return lambda stream, pos: None
    if tag == "list":  # a new one every time
        return lambda stream, pos: [tag, pos]
    return lambda stream, pos: (tag, pos, len(stream))


_BINOPS = {}


def binop(o):
    """One function per symbol, as in a table of operators."""
    if type(o) is not str:
        return lambda l, r: (l, o, r)
    if o not in _BINOPS:
        _BINOPS[o] = lambda l, r: (l, o, r)
    return _BINOPS[o]


# --- builders ---------------------------------------------------------------

class MethodApi:
    """Combinators as methods / operators."""

    def wrap(self, kind, fn):
        """What becomes of the functions a user would pass."""
        return fn

    def fmap(self, p, f): return p.fmap(f)
    def bind(self, p, f): return p.bind(f)
    def seq(self, p, q): return p + q
    def seql(self, p, q): return p << q
    def seqr(self, p, q): return p >> q
    def alt(self, p, q): return p | q
    def maybe(self, p): return p.maybe()
    def many(self, p): return p.many()
    def attempt(self, p): return p.attempt()
    def label(self, p, x): return p.label(x)
    def recover(self, p): return p.recover()
    def recover_with(self, p, x, l): return p.recover_with(x, l)
    def recover_with_fn(self, p, f, l): return p.recover_with_fn(f, l)
    def sep_by(self, p, s): return p.sep_by(s)
    def between(self, o, c, p): return p.between(o, c)
    def chainl1(self, p, o): return p.chainl1(o)
    def chainr1(self, p, o): return p.chainr1(o)


class FunctionApi:
    """Combinators as functions of the reparsec module."""

    wrap = MethodApi.wrap

    def fmap(self, p, f): return reparsec.fmap(p, f)
    def bind(self, p, f): return reparsec.bind(p, f)
    def seq(self, p, q): return reparsec.seq(p, q)
    def seql(self, p, q): return reparsec.seql(p, q)
    def seqr(self, p, q): return reparsec.seqr(p, q)
    def alt(self, p, q): return reparsec.alt(p, q)
    def maybe(self, p): return reparsec.maybe(p)
    def many(self, p): return reparsec.many(p)
    def attempt(self, p): return reparsec.attempt(p)
    def label(self, p, x): return reparsec.label(p, x)
    def recover(self, p): return reparsec.recover(p)

    def recover_with(self, p, x, l):
        if l is None:
            return reparsec.recover_with(p, x)
        return reparsec.recover_with(p, x, l)

    def recover_with_fn(self, p, f, l):
        if l is None:
            return reparsec.recover_with_fn(p, f)
        return reparsec.recover_with_fn(p, f, label=l)

    def sep_by(self, p, s): return reparsec.sep_by(p, s)
    def between(self, o, c, p): return reparsec.between(o, c, p)
    def chainl1(self, p, o): return reparsec.chainl1(p, o)
    def chainr1(self, p, o): return reparsec.chainr1(p, o)


class NamedMethodApi(MethodApi):
    """Named methods where MethodApi uses operators, keyword arguments."""

    def seql(self, p, q): return p.seql(q)
    def seqr(self, p, q): return p.seqr(q)
    def recover_with(self, p, x, l): return p.recover_with(x, label=l)
    def recover_with_fn(self, p, f, l): return p.recover_with_fn(f, label=l)
    def label(self, p, x): return p.label(expected=x)


class SharingApi(MethodApi):
    """Equal closed subterms become one and the same parser object."""

    def __init__(self):
        self.memo = {}


METHODS = MethodApi()
FUNCTIONS = FunctionApi()
NAMED = NamedMethodApi()


def build(g, api=METHODS, env=None):
    """Builds the real parser for term `g` through the public API."""
    memo = getattr(api, "memo", None)
    if memo is not None and not contains(g, ("ref",)):
        if g not in memo:
            memo[g] = _build(g, api, env)
        return memo[g]
    return _build(g, api, env)


def _build(g, api, env):
    k = g[0]
    if k == "sym":
        return rq.sym(g[1])
    if k == "symL":
        return rq.sym(g[1], g[2])
    if k == "sat":
        return rq.satisfy(api.wrap("sat", PREDS[g[1]]))
    if k == "letter":
        return rq.letter
    if k == "digit":
        return rq.digit
    if k == "eof":
        return rq.eof()
    if k == "pure":
        return rp.Pure(g[1])
    if k == "purefn":
        return rp.PureFn(api.wrap("purefn", lambda v=g[1]: v))
    if k == "fresh":
        return rp.PureFn(api.wrap("purefn", list))
    if k == "unexp":
        return rp.unexpected(g[1])
    if k == "lit":
        return rs.literal(g[1])
    if k == "re":
        return rs.regexp(g[1]) if g[2] == 0 else rs.regexp(g[1], g[2])
    if k == "tok":
        return rx.token(g[1])
    if k == "tokins":
        return rx.token_ins(g[1], g[2])
    if k == "tsym":
        return rq.sym(rx.Token(g[1], g[2]), g[3])
    if k == "ref":
        return env[g[1]]
    if k == "rec":
        env = dict(env or {})
        d = Delay()
        env[g[1]] = d
        d.define(build(g[2], api, env))
        return d
    if k == "delay":  # a Delay that is not recursive
        d = Delay()
        d.define(build(g[1], api, env))
        return d

    if k == "fmap":
        return api.fmap(
            build(g[1], api, env), api.wrap("fmap", tag_fn(g[2])))
    if k == "maybe":
        return api.maybe(build(g[1], api, env))
    if k == "many":
        return api.many(build(g[1], api, env))
    if k == "attempt":
        return api.attempt(build(g[1], api, env))
    if k == "label":
        return api.label(build(g[1], api, env), g[2])
    if k == "recover":
        return api.recover(build(g[1], api, env))
    if k == "rw":
        return api.recover_with(build(g[1], api, env), g[2], g[3])
    if k == "rwf":
        return api.recover_with_fn(
            build(g[1], api, env), api.wrap("rwf", rwf_fn(g[2])), g[3])
    if k == "block":
        return rl.block(build(g[1], api, env))
    if k == "aligned":
        return rl.aligned(build(g[1], api, env))
    if k == "indented":
        return rl.indented(g[1], build(g[2], api, env))

    if k in ("seq", "seql", "seqr", "alt", "sep_by"):
        return getattr(api, k)(build(g[1], api, env), build(g[2], api, env))
    if k == "bind":
        yes = build(g[3], api, env)
        no = build(g[4], api, env)
        key = g[2]
        return api.bind(
            build(g[1], api, env),
            api.wrap("bind", lambda v: yes if v == key else no))
    if k in ("chainl1", "chainr1"):
        return getattr(api, k)(
            build(g[1], api, env), api.fmap(
                build(g[2], api, env),
                lambda o: api.wrap("binop", binop(o))))
    if k == "between":
        return api.between(
            build(g[1], api, env), build(g[2], api, env),
            build(g[3], api, env))
    if k == "then":
        p = build(g[1], api, env)
        for h in g[2:]:
            p = p.then(build(h, api, env))
        return p
    if k == "apply":
        p = build(g[1], api, env)
        for h in g[2:]:
            p = p.then(build(h, api, env))
        return p.apply(api.wrap("apply", lambda *xs: ("apply",) + xs))
    raise ValueError(g)


# --- enumeration ------------------------------------------------------------

class Family:
    """
    A finite menu of constructors. `terms(n)` are all terms with exactly n
    constructors from the menu (leaves, unary and binary constructors count
    one each).
    """

    def __init__(self, leaves, unary, binary):
        self.leaves = list(leaves)
        self.unary = list(unary)
        self.binary = list(binary)
        self._memo = {}

    def terms(self, n):
        if n not in self._memo:
            self._memo[n] = list(self.iter_terms(n))
        return self._memo[n]

    def iter_terms(self, n):
        """As terms(n), without keeping the terms of size n in memory."""
        if n < 1:
            return
        if n == 1:
            yield from self.leaves
            return
        for f in self.unary:
            for g in self.terms(n - 1):
                yield f(g)
        for f in self.binary:
            for i in range(1, n - 1):
                for g in self.terms(i):
                    for h in self.terms(n - 1 - i):
                        yield f(g, h)

    def upto(self, n):
        for i in range(1, n + 1):
            yield from self.iter_terms(i)

    def count(self, n):
        c = {1: len(self.leaves)}
        for k in range(2, n + 1):
            c[k] = len(self.unary) * c[k - 1] + len(self.binary) * sum(
                c[i] * c[k - 1 - i] for i in range(1, k - 1))
        return c[n]

    def count_upto(self, n):
        return sum(self.count(i) for i in range(1, n + 1))


def words(alphabet, maxlen, minlen=0):
    """All words over the alphabet, shortest first."""
    for n in range(minlen, maxlen + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield "".join(w)


def tuples(alphabet, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(alphabet, repeat=n)


def U(name, *args):
    """Unary constructor with trailing constant arguments."""
    return lambda g: (name, g) + args


def B(name):
    return lambda g, h: (name, g, h)


def to_json(g):
    return [to_json(x) if isinstance(x, tuple) else x for x in g]


def from_json(j):
    return tuple(from_json(x) if isinstance(x, list) else x for x in j)


def size(g):
    return 1 + sum(size(x) for x in g[1:]
                   if isinstance(x, tuple) and x and isinstance(x[0], str)
                   and x[0] in ALL)


def contains(g, names):
    if g[0] in names:
        return True
    return any(
        contains(x, names) for x in g[1:]
        if isinstance(x, tuple) and x and isinstance(x[0], str)
        and x[0] in ALL)


ALL = frozenset(
    "sym symL sat letter digit eof pure purefn fresh unexp lit re tok tokins tsym "
    "ref rec fmap maybe many attempt label recover rw rwf block aligned "
    "indented delay seq seql seqr alt sep_by bind chainl1 chainr1 between then "
    "apply".split())


def show(g):
    """Readable rendering, close to the code a user would write."""
    k = g[0]
    if k == "sym":
        return "sym(%r)" % (g[1],)
    if k in ("eof", "letter", "digit"):
        return k
    if k in ("seq", "seql", "seqr", "alt"):
        op = {"seq": "+", "seql": "<<", "seqr": ">>", "alt": "|"}[k]
        return "(%s %s %s)" % (show(g[1]), op, show(g[2]))
    args = [
        show(x) if isinstance(x, tuple) and x and isinstance(x[0], str)
        and x[0] in ALL else repr(x)
        for x in g[1:]
    ]
    return "%s(%s)" % (k, ", ".join(args))

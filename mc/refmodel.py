"""
Reference model of reparsec, written from its documentation.

It never imports reparsec. A term (mc/grammar.py) is compiled to two functions
over immutable tuples:

  plain(st, pos, mark)      -> (OK, value, end, exp, cons)
                             | (ERR, where, exp, cons)
  repair(st, pos, mark, k)  -> OK... | ERR...
                             | (REC, candidates, where, exp, cons)

`mark` is the layout mark (an inherited attribute: only block / indented change
it, for the parser they enclose), `exp` the labels tried at the end position
since input was last consumed, `cons` whether input was consumed, and `k` how
many tokens may still be inserted in a row at this point (None: no repair may
start before some input is consumed).

A candidate repair is a tuple
  (cost, auto, left, edits, value, end, exp, cons)
and an edit is (kind, arg, pos, exp, closed): kind "skip" / "ins".  `auto` says
that the first edit is an automatic insertion not sanctioned by recover().
"""

import itertools
import re

OK, ERR, REC = 0, 1, 2

PREDS = {
    "any": lambda t: True,
    "isa": lambda t: t == "a",
    "isb": lambda t: t == "b",
    "ab": lambda t: t == "a" or t == "b",
    "notx": lambda t: t != "x",
    "atom": lambda t: t not in "!?()",
    "isnum": lambda t: t == "1",
    "isspace": lambda t: t in " \n\t",
    # any truth value will do, not only bool
    "truthy": lambda t: [] if t == 0 and t is not None else ["yes"],
}


class EmptyRepetition(Exception):
    """many() applied to a parser that succeeded without consuming input."""


class Undefined(Exception):
    """A Delay that was never defined was asked to parse."""


class St:
    __slots__ = "s", "n", "col", "ins", "trace", "calls"

    def __init__(self, s, col=None, ins=5):
        self.s = s
        self.n = len(s)
        self.col = col if col is not None else (lambda pos: 0)
        self.ins = ins
        self.trace = []
        self.calls = []  # of the user's functions, without recovery


# --- locations --------------------------------------------------------------

def loc_index(stream):
    """Parser.parse without get_loc: only the index is tracked."""
    return lambda p: ((p, 0, 0), repr(p))


def loc_text(stream):
    """Line and column, counted from the beginning of the text."""
    table = [(0, 0)]
    for c in stream:
        line, col = table[-1]
        table.append((line + 1, 0) if c == "\n" else (line, col + 1))

    def loc(p):
        line, col = table[p]
        return (p, line, col), "%d:%d" % (line + 1, col + 1)
    return loc


def loc_tokens(stream):
    """Start of the token, or the end of the last one at the end of input."""
    def loc(p):
        if p < len(stream):
            l = stream[p].start
        elif len(stream):
            l = stream[len(stream) - 1].end
        else:
            return (p, 0, 0), "1:1"
        return tuple(l), "%d:%d" % (l[1] + 1, l[2] + 1)
    return loc


# --- terminals --------------------------------------------------------------

class Terminal:
    """
    match(st, pos) -> (value, end) or None; insert: (value, label) or None.
    """

    def __init__(self, match, expected, insert=None, token=True):
        self.match = match
        self.exp = expected
        self.insert = insert


def terminal(g):
    k = g[0]
    if k in ("sym", "symL", "tsym"):
        if k == "tsym":
            s = TokenValue(g[1], g[2])
            label = g[3] if g[3] is not None else repr(s)

            def match(st, pos):
                if pos < st.n:
                    t = st.s[pos]
                    if t.kind == s.kind and t.value == s.value:
                        return t, pos + 1
                return None
        else:
            s = g[1]
            label = g[2] if k == "symL" else repr(s)

            def match(st, pos):
                if pos < st.n and st.s[pos] == s:
                    return st.s[pos], pos + 1
                return None
        return Terminal(match, (label,), (s, label))
    if k == "lit":
        s = g[1]

        def match(st, pos):
            if st.s[pos:pos + len(s)] == s:
                return s, pos + len(s)
            return None
        return Terminal(match, (repr(s),), (s, repr(s)))
    if k == "re":
        pat = re.compile(g[1])
        group = g[2]

        def match(st, pos):
            m = pat.match(st.s, pos)
            if m is None:
                return None
            v = m.group(group)
            return None if v is None else (v, m.end())
        return Terminal(match, ())
    if k in ("sat", "letter", "digit", "tok"):
        if k == "sat":
            pred, exp = PREDS[g[1]], ()
        elif k == "letter":
            pred, exp = str.isalpha, ("letter",)
        elif k == "digit":
            pred, exp = str.isdigit, ("digit",)
        else:
            kind = g[1]
            pred, exp = (lambda t: t.kind == kind), (kind,)

        def match(st, pos):
            if pos < st.n and pred(st.s[pos]):
                return st.s[pos], pos + 1
            return None
        return Terminal(match, exp)
    return None


class TokenValue:
    """Stand-in for an inserted lexer token; compares by kind and value."""
    __slots__ = "kind", "value", "where"

    def __init__(self, kind, value, where=None):
        self.kind = kind
        self.value = value
        self.where = where

    def __eq__(self, other):
        return (getattr(other, "kind", None) == self.kind
                and getattr(other, "value", None) == self.value)

    def __hash__(self):
        return hash((self.kind, self.value))

    def __repr__(self):
        return "Token(kind=%r, value=%r)" % (self.kind, self.value)


# --- derived forms: documented as compositions of the basic ones -------------

def expand(g):
    k = g[0]
    if k == "sep_by":
        return ("map", ("maybe", ("seq", g[1], ("many", ("seqr", g[2], g[1])))),
                lambda v: [] if v is None else [v[0]] + v[1])
    if k == "between":
        return ("seqr", g[1], ("seql", g[3], g[2]))
    if k == "chainl1":
        def left(v):
            acc, rest = v
            for o, x in rest:
                acc = (acc, o, x)
            return acc
        return ("map", ("seq", g[1], ("many", ("seq", g[2], g[1]))), left)
    if k == "chainr1":
        def right(v):
            first, rest = v
            if not rest:
                return first
            o, x = rest[0]
            return (first, o, right((x, rest[1:])))
        return ("map", ("seq", g[1], ("many", ("seq", g[2], g[1]))), right)
    if k in ("then", "apply"):
        while g[1][0] == "then":  # then() extends the tuple it is called on
            g = (k,) + g[1][1:] + g[2:]
        out = ("map", g[1], lambda v: (v,))
        for h in g[2:]:
            out = ("merge", out, h, lambda a, b: a + (b,))
        if k == "apply":
            out = ("map", out, lambda v: ("apply",) + v, "apply")
        return out
    if k == "tokins":
        return ("tokrw", ("tok", g[1]), g[1], g[2])
    return None


def tagged(tag):
    return lambda v: None if tag is None else (tag, v)


MERGE = {
    "seq": lambda a, b: (a, b),
    "seql": lambda a, b: a,
    "seqr": lambda a, b: b,
}


# --- plain parsing ----------------------------------------------------------
#
# st.trace records every model state entered: (node of the term, position,
# mark, remaining insertions).  Each entry is one transition of the model.

_ids = itertools.count()


def plain(g, env=None):
    f = _plain(g, env)
    node = next(_ids)

    def step(st, pos, mark):
        st.trace.append((node, pos, mark))
        return f(st, pos, mark)
    return step


def repair(g, env=None, penv=None):
    f = _repair(g, env, penv)
    node = next(_ids)

    def step(st, pos, mark, rem):
        st.trace.append((node, pos, mark, rem))
        return f(st, pos, mark, rem)
    return step


def _plain(g, env):
    e = expand(g)
    if e is not None:
        g = e
    k = g[0]
    t = terminal(g)
    if t is not None:
        match, exp = t.match, t.exp

        def f(st, pos, mark):
            m = match(st, pos)
            if m is None:
                return ERR, pos, exp, False
            return OK, m[0], m[1], (), m[1] != pos
        return f
    if k == "eof":
        def f(st, pos, mark):
            if pos == st.n:
                return OK, None, pos, (), False
            return ERR, pos, ("end of file",), False
        return f
    if k == "purefn":
        def f(st, pos, mark):
            st.calls.append(("purefn", ()))
            return OK, g[1], pos, (), False
        return f
    if k == "pure":
        return lambda st, pos, mark: (OK, g[1], pos, (), False)
    if k == "unexp":
        return lambda st, pos, mark: (ERR, pos, (g[1],), False)
    if k == "ref":
        def f(st, pos, mark):
            if g[1] not in env:
                raise Undefined()
            return env[g[1]](st, pos, mark)
        return f
    if k == "delay":
        return plain(g[1], env)
    if k == "rec":
        env = dict(env or {})
        f = plain(g[2], env)
        env[g[1]] = f
        return f

    if k in ("recover", "rw", "rwf", "tokrw"):
        return plain(g[1], env)
    if k in ("fmap", "map"):
        p = plain(g[1], env)
        fn = g[2] if k == "map" else tagged(g[2])
        user = k == "fmap" or len(g) > 3

        def f(st, pos, mark):
            r = p(st, pos, mark)
            if r[0] == OK:
                if user:
                    st.calls.append(
                        ("fmap", (r[1],)) if k == "fmap" else (g[3], r[1]))
                return OK, fn(r[1]), r[2], r[3], r[4]
            return r
        return f
    if k == "maybe":
        p = plain(g[1], env)

        def f(st, pos, mark):
            r = p(st, pos, mark)
            if r[0] == ERR and not r[3]:
                return OK, None, pos, r[2], False
            return r
        return f
    if k == "many":
        p = plain(g[1], env)

        def f(st, pos, mark):
            vs = []
            while True:
                r = p(st, pos, mark)
                if r[0] == ERR:
                    if r[3]:
                        return r
                    return OK, vs, pos, r[2], bool(vs)
                if not r[4]:
                    raise EmptyRepetition()
                vs = vs + [r[1]]
                pos = r[2]
        return f
    if k == "attempt":
        p = plain(g[1], env)

        def f(st, pos, mark):
            r = p(st, pos, mark)
            if r[0] == ERR:
                return ERR, r[1], r[2], False
            return r
        return f
    if k == "label":
        p = plain(g[1], env)
        x = (g[2],)

        def f(st, pos, mark):
            r = p(st, pos, mark)
            if r[-1]:
                return r
            return r[:-2] + (x, False)
        return f
    if k == "block":
        p = plain(g[1], env)
        return lambda st, pos, mark: p(st, pos, st.col(pos))
    if k == "aligned":
        p = plain(g[1], env)

        def f(st, pos, mark):
            if st.col(pos) != mark:
                return ERR, pos, ("indentation",), False
            return p(st, pos, mark)
        return f
    if k == "indented":
        p = plain(g[2], env)
        delta = g[1]

        def f(st, pos, mark):
            if st.col(pos) != mark + delta:
                return ERR, pos, ("indentation",), False
            return p(st, pos, mark + delta)
        return f

    if k == "alt":
        p, q = plain(g[1], env), plain(g[2], env)

        def f(st, pos, mark):
            r = p(st, pos, mark)
            if r[0] == OK or r[3]:
                return r
            s = q(st, pos, mark)
            if s[-1]:
                return s
            exp = r[2] + s[-2]
            if s[0] == OK:
                return OK, s[1], s[2], exp, False
            return ERR, r[1], exp, False
        return f
    if k in ("seq", "seql", "seqr", "merge", "bind"):
        p = plain(g[1], env)
        if k == "bind":
            yes, no, key = plain(g[3], env), plain(g[4], env), g[2]
        else:
            q = plain(g[2], env)
            mg = g[3] if k == "merge" else MERGE[k]

        def f(st, pos, mark):
            r = p(st, pos, mark)
            if r[0] == ERR:
                return r
            if k == "bind":
                st.calls.append(("bind", (r[1],)))
                s = (yes if r[1] == key else no)(st, r[2], mark)
                v = s[1]
            else:
                s = q(st, r[2], mark)
                v = mg(r[1], s[1]) if s[0] == OK else None
            exp, cons = s[-2], s[-1]
            if not cons:
                exp = r[3] + exp
                cons = r[4]
            if s[0] == OK:
                return OK, v, s[2], exp, cons
            return ERR, s[1], exp, cons
        return f
    raise ValueError(g)


# --- parsing with error recovery ---------------------------------------------

def _prepend_edits(edits, exp, cons):
    return tuple(
        e if e[4] else (e[0], e[1], e[2], exp + e[3], cons) for e in edits)


def _prepend(r, exp, cons):
    """Continuation `r` of a parse that tried `exp` at its end position."""
    if r[-1]:
        head = r
    else:
        head = r[:-2] + (exp + r[-2], cons)
    if r[0] != REC:
        return head
    reps = tuple(
        (c, auto, left, _prepend_edits(edits, exp, cons), v, end,
         e if k else exp + e, k or cons)
        for c, auto, left, edits, v, end, e, k in r[1])
    return (REC, reps) + head[2:]


def _relabel(r, x):
    head = r if r[-1] else r[:-2] + (x, False)
    if r[0] != REC:
        return head
    reps = tuple(
        (c, auto, left,
         tuple(ed if ed[4] else ed[:3] + (x, False) for ed in edits),
         v, end, e if k else x, k)
        for c, auto, left, edits, v, end, e, k in r[1])
    return (REC, reps) + head[2:]


def _map(r, fn):
    if r[0] == OK:
        return (OK, fn(r[1])) + r[2:]
    if r[0] == ERR:
        return r
    reps = tuple(rep[:4] + (fn(rep[4]),) + rep[5:] for rep in r[1])
    return (REC, reps) + r[2:]


def _continue(r, ins, cont, merge):
    """Continues every candidate repair of `r` with cont(value, pos, left)."""
    reps = []
    for cost, auto, left, edits, v, end, exp, cons in r[1]:
        s = cont(v, end, left)
        if s[0] == OK:
            _, v2, end2, exp2, cons2 = s
            reps.append((
                cost, auto, left if end2 == end else ins, edits,
                merge(v, v2), end2, exp2 if cons2 else exp + exp2,
                cons or cons2))
        elif s[0] == REC:
            for c2, _, left2, edits2, v2, end2, exp2, cons2 in s[1]:
                reps.append((
                    cost + c2, auto, left2,
                    edits + _prepend_edits(edits2, exp, cons),
                    merge(v, v2), end2, exp2 if cons2 else exp + exp2,
                    cons or cons2))
    return (REC, tuple(reps)) + r[2:]


def _repair(g, env, penv):
    e = expand(g)
    if e is not None:
        g = e
    k = g[0]
    t = terminal(g)
    if t is not None:
        match, exp, insert = t.match, t.exp, t.insert

        def f(st, pos, mark, rem):
            m = match(st, pos)
            if m is not None:
                return OK, m[0], m[1], (), m[1] != pos
            if rem is None:
                return ERR, pos, exp, False
            reps = []
            if rem > 0 and insert is not None:
                reps.append((
                    1, True, rem - 1,
                    (("ins", insert[1], pos, exp, False),),
                    insert[0], pos, (), True))
            for cur in range(pos + 1, st.n):
                m = match(st, cur)
                if m is not None:
                    reps.append((
                        cur - pos, False, st.ins,
                        (("skip", cur - pos, pos, exp, False),),
                        m[0], m[1], (), True))
                    break
            if not reps and insert is None:
                return ERR, pos, exp, False
            # what can be inserted counts as repairable even where the limit
            # does not allow it: alternatives after it stay alternatives
            return REC, tuple(reps), pos, exp, False
        return f
    if k == "eof":
        def f(st, pos, mark, rem):
            if pos == st.n:
                return OK, None, pos, (), False
            exp = ("end of file",)
            if rem is None:
                return ERR, pos, exp, False
            rep = (st.n - pos, False, st.ins,
                   (("skip", st.n - pos, pos, exp, False),),
                   None, st.n, (), False)
            return REC, (rep,), pos, exp, False
        return f
    if k in ("pure", "purefn"):
        return lambda st, pos, mark, rem: (OK, g[1], pos, (), False)
    if k == "unexp":
        return lambda st, pos, mark, rem: (ERR, pos, (g[1],), False)
    if k == "ref":
        def f(st, pos, mark, rem):
            if g[1] not in env:
                raise Undefined()
            return env[g[1]](st, pos, mark, rem)
        return f
    if k == "delay":
        return repair(g[1], env, penv)
    if k == "rec":
        env, penv = dict(env or {}), dict(penv or {})
        penv[g[1]] = plain(g[2], penv)
        f = repair(g[2], env, penv)
        env[g[1]] = f
        return f

    if k in ("fmap", "map"):
        p = repair(g[1], env, penv)
        fn = g[2] if k == "map" else tagged(g[2])
        return lambda st, pos, mark, rem: _map(p(st, pos, mark, rem), fn)
    if k == "maybe":
        p = repair(g[1], env, penv)

        def f(st, pos, mark, rem):
            r = p(st, pos, mark, None)
            if r[0] != OK and not r[-1]:
                return OK, None, pos, r[-2], False
            return r
        return f
    if k == "many":
        p = repair(g[1], env, penv)

        def f(st, pos, mark, rem):
            vs = []
            while True:
                r = p(st, pos, mark, None)
                if r[0] == ERR:
                    if r[-1]:
                        return r
                    return OK, vs, pos, r[2], bool(vs)
                if r[0] == REC:
                    return _continue(
                        r, st.ins,
                        lambda _, end, left: f(st, end, mark, None),
                        lambda v, rest: vs + [v] + rest)
                if not r[4]:
                    raise EmptyRepetition()
                vs = vs + [r[1]]
                pos = r[2]
        return f
    if k == "attempt":
        p, pp = repair(g[1], env, penv), plain(g[1], penv)

        def f(st, pos, mark, rem):
            r = (pp(st, pos, mark) if rem is None
                 else p(st, pos, mark, rem))
            if r[0] == ERR:
                return ERR, r[1], r[2], False
            if r[0] == REC and not r[1]:
                return ERR, r[2], r[3], False
            return r
        return f
    if k == "label":
        p = repair(g[1], env, penv)
        x = (g[2],)
        return lambda st, pos, mark, rem: _relabel(p(st, pos, mark, rem), x)
    if k == "recover":
        p = repair(g[1], env, penv)

        def f(st, pos, mark, rem):
            r = p(st, pos, mark, rem)
            if r[0] != REC:
                return r
            return (REC, tuple(
                rep[:1] + (False,) + rep[2:] for rep in r[1])) + r[2:]
        return f
    if k in ("rw", "rwf", "tokrw"):
        p = repair(g[1], env, penv)

        def f(st, pos, mark, rem):
            r = p(st, pos, mark, rem)
            if not rem or r[0] == OK or r[-1]:
                return r
            if k == "rw":
                x = g[2]
            elif k == "rwf":
                x = None if g[2] is None else (g[2], pos, st.n)
            else:
                x = TokenValue(g[2], g[3], pos)
            if k == "tokrw":
                label = g[2]
            else:
                label = repr(x) if g[3] is None else g[3]
            rep = (1, False, rem - 1, (("ins", label, pos, r[-2], False),),
                   x, pos, (), True)
            others = r[1] if r[0] == REC else ()
            return REC, (rep,) + others, pos, r[-2], False
        return f
    if k == "block":
        p = repair(g[1], env, penv)
        return lambda st, pos, mark, rem: p(st, pos, st.col(pos), rem)
    if k == "aligned":
        p = repair(g[1], env, penv)

        def f(st, pos, mark, rem):
            if st.col(pos) != mark:
                return ERR, pos, ("indentation",), False
            return p(st, pos, mark, rem)
        return f
    if k == "indented":
        p = repair(g[2], env, penv)
        delta = g[1]

        def f(st, pos, mark, rem):
            if st.col(pos) != mark + delta:
                return ERR, pos, ("indentation",), False
            return p(st, pos, mark + delta, rem)
        return f

    if k == "alt":
        p, q = repair(g[1], env, penv), repair(g[2], env, penv)

        def f(st, pos, mark, rem):
            r = p(st, pos, mark, None)
            if r[0] == OK or r[-1]:
                return r
            s = q(st, pos, mark, None)
            if s[-1]:
                return s
            exp = r[2] + s[-2]
            if s[0] == OK:
                return OK, s[1], s[2], exp, False
            if rem is not None:
                rr = p(st, pos, mark, rem)
                ss = q(st, pos, mark, rem)
                if rr[0] == REC and ss[0] == REC:
                    # of the second alternative, only repairs that do not
                    # begin with an automatic insertion
                    reps = rr[1] + tuple(x for x in ss[1] if not x[1])
                    if rr[-1]:
                        both = (REC, reps) + rr[2:]
                    elif ss[-1]:
                        both = (REC, reps) + ss[2:]
                    else:
                        both = (REC, reps, rr[2], exp, False)
                    return _relabel(both, exp)
                if rr[0] == REC:
                    return _relabel(rr, exp)
                if ss[0] == REC:
                    return _relabel(ss, exp)
            return ERR, r[1], exp, False
        return f
    if k in ("seq", "seql", "seqr", "merge", "bind"):
        p = repair(g[1], env, penv)
        if k == "bind":
            yes, no, key = repair(g[3], env, penv), repair(g[4], env, penv), g[2]

            def second(st, v, pos, mark, rem):
                return (yes if v == key else no)(st, pos, mark, rem)

            def mg(a, b):
                return b
        else:
            q = repair(g[2], env, penv)
            mg = g[3] if k == "merge" else MERGE[k]

            def second(st, v, pos, mark, rem):
                return q(st, pos, mark, rem)

        def f(st, pos, mark, rem):
            r = p(st, pos, mark, rem)
            if r[0] == ERR:
                return r
            if r[0] == REC:
                return _continue(
                    r, st.ins,
                    lambda v, end, left: second(st, v, end, mark, left), mg)
            _, v, end, exp, cons = r
            s = second(st, v, end, mark, st.ins if cons else rem)
            return _prepend(_map(s, lambda b: mg(v, b)), exp, cons)
        return f
    raise ValueError(g)


# --- observations -----------------------------------------------------------

class Model:
    """Predicts what a user observes from parsing with term g."""

    def __init__(self, g, env=None, penv=None):
        self.g = g
        self.env = {} if env is None else env
        self.penv = {} if penv is None else penv
        self._plain = plain(g, self.penv)
        self._repair = None

    def plain_raw(self, st):
        return self._plain(st, 0, 0)

    def repair_raw(self, st):
        if self._repair is None:
            self._repair = repair(self.g, self.env, self.penv)
        return self._repair(st, 0, 0, st.ins)

    def observe(self, st, loc, recover):
        """
        -> ("exc", name) | (u, ur): what unwrap() and unwrap(recover=True) do,
        each ("val", v) or ("perr", ((loc, loc_str, expected, op), ...)).
        """
        try:
            r = self.repair_raw(st) if recover else self.plain_raw(st)
        except (EmptyRepetition, Undefined):
            return ("exc", "RuntimeError")
        if r[0] == OK:
            return ("val", r[1]), ("val", r[1])
        if r[0] == ERR or not r[1]:
            where = r[1] if r[0] == ERR else r[2]
            l, ls = loc(where)
            e = ("perr", ((l, ls, r[-2], None),))
            return e, e
        best = self.select(r[1])
        items = []
        for kind, arg, pos, exp, _ in best[3]:
            l, ls = loc(pos)
            items.append((l, ls, exp, (kind, arg)))
        return ("perr", tuple(items)), ("val", best[4])

    @staticmethod
    def select(reps):
        """Cheapest, then furthest, then sanctioned, then first."""
        best = None
        for rep in reps:
            key = (rep[0], -rep[5], rep[1])
            if best is None or key < best[0]:
                best = (key, rep)
        return best[1]

"""
Edit-replay oracle, independent of the reference model's recovery rules.

`explain(g, st, edits, value)` decides by exhaustive search whether some
derivation of the grammar g, read declaratively (alternatives and repetitions
are free choices), consumes the input *with the reported edits applied* and
yields `value`.  An edit is ("skip", n, pos) or ("ins", label, pos).  The
search does not use priorities, costs, insertion budgets or commitment.
"""

import sys

from .refmodel import MERGE, TokenValue, expand, tagged, terminal


class Search:
    def __init__(self, st, edits):
        self.st = st
        self.edits = tuple(edits)
        self.steps = 0

    def edit(self, k, pos):
        if k < len(self.edits):
            e = self.edits[k]
            if e[2] == pos:
                return e
        return None

    def run(self, g, pos, k, mark, env):
        """Yields (value, pos, k) for every derivation of g from here."""
        self.steps += 1
        st = self.st
        e = expand(g)
        if e is not None:
            g = e
        c = g[0]
        t = terminal(g)
        if t is not None:
            e = self.edit(k, pos)
            if e is None:
                m = t.match(st, pos)
                if m is not None:
                    yield m[0], m[1], k
                return
            if e[0] == "skip":
                # a match of nothing may come before the skipped input
                m = t.match(st, pos)
                if m is not None and m[1] == pos:
                    yield m[0], m[1], k
                m = t.match(st, pos + e[1])
                if m is not None and pos + e[1] < st.n:
                    yield m[0], m[1], k + 1
                return
            # an insertion is pending here: a parser that can match the
            # present input may do so before or after it
            m = t.match(st, pos)
            if m is not None and m[1] == pos:
                yield m[0], m[1], k
            if t.insert is not None and t.insert[1] == e[1]:
                yield t.insert[0], pos, k + 1
            return
        if c == "eof":
            e = self.edit(k, pos)
            if pos == st.n:
                yield None, pos, k
            elif e is not None and e[0] == "skip" and pos + e[1] == st.n:
                yield None, st.n, k + 1
            return
        if c in ("pure", "purefn"):
            yield g[1], pos, k
            return
        if c == "unexp":
            return
        if c == "ref":
            yield from self.run(env[g[1]][0], pos, k, mark, env[g[1]][1])
            return
        if c == "rec":
            env = dict(env)
            env[g[1]] = (g[2], env)
            yield from self.run(g[2], pos, k, mark, env)
            return
        if c in ("rw", "rwf", "tokrw"):
            e = self.edit(k, pos)
            if e is not None and e[0] == "ins":
                if c == "rw":
                    x = g[2]
                    label = repr(x) if g[3] is None else g[3]
                elif c == "rwf":
                    x = None if g[2] is None else (g[2], pos, st.n)
                    label = repr(x) if g[3] is None else g[3]
                else:
                    x, label = TokenValue(g[2], g[3], pos), g[2]
                if label == e[1]:
                    yield x, pos, k + 1
            yield from self.run(g[1], pos, k, mark, env)
            return
        if c in ("attempt", "label", "recover", "delay"):
            yield from self.run(g[1], pos, k, mark, env)
            return
        if c in ("fmap", "map"):
            fn = g[2] if c == "map" else tagged(g[2])
            for v, p, j in self.run(g[1], pos, k, mark, env):
                yield fn(v), p, j
            return
        if c == "maybe":
            yield None, pos, k
            yield from self.run(g[1], pos, k, mark, env)
            return
        if c == "many":
            yield [], pos, k
            for v, p, j in self.run(g[1], pos, k, mark, env):
                if p == pos and j == k:
                    continue
                for vs, p2, j2 in self.run(g, p, j, mark, env):
                    yield [v] + vs, p2, j2
            return
        if c == "block":
            yield from self.run(g[1], pos, k, st.col(pos), env)
            return
        if c == "aligned":
            if st.col(pos) == mark:
                yield from self.run(g[1], pos, k, mark, env)
            return
        if c == "indented":
            if st.col(pos) == mark + g[1]:
                yield from self.run(g[2], pos, k, mark + g[1], env)
            return
        if c == "alt":
            yield from self.run(g[1], pos, k, mark, env)
            yield from self.run(g[2], pos, k, mark, env)
            return
        if c == "bind":
            for v, p, j in self.run(g[1], pos, k, mark, env):
                nxt = g[3] if v == g[2] else g[4]
                yield from self.run(nxt, p, j, mark, env)
            return
        mg = g[3] if c == "merge" else MERGE[c]
        for v, p, j in self.run(g[1], pos, k, mark, env):
            for w, p2, j2 in self.run(g[2], p, j, mark, env):
                yield mg(v, w), p2, j2


def explain(g, st, edits, value):
    s = Search(st, edits)
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(50000)  # the search needs several frames per level
    try:
        for v, p, k in s.run(g, 0, 0, 0, {}):
            if k == len(s.edits) and v == value:
                return True, s.steps
        return False, s.steps
    finally:
        sys.setrecursionlimit(limit)


def well_formed(st_len, edits, max_insertions, step=None):
    """
    Order, bounds and insertion limit of a reported edit script; returns a
    complaint or None.
    """
    at = 0
    run = 0
    for i, (kind, arg, pos) in enumerate(edits):
        if not 0 <= pos <= st_len:
            return "edit %d at %d lies outside the input" % (i, pos)
        if pos < at:
            return "edit %d at %d overlaps or precedes an earlier one" % (
                i, pos)
        if kind == "skip":
            if arg < 1:
                return "edit %d skips %d tokens" % (i, arg)
            if pos + arg > st_len:
                return "edit %d skips past the end of the input" % i
            at = pos + arg
            run = 0
        else:
            run = run + 1 if i and edits[i - 1][2] == pos and \
                edits[i - 1][0] == "ins" else 1
            at = pos
            if run > max_insertions:
                return "edit %d is insertion number %d in a row" % (i, run)
    return None

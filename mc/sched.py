"""
A controlled scheduler for two real threads.

Each thread is traced; before every line (or byte code) of the library it asks
the scheduler, which runs exactly one thread at a time and switches only where
the plan says so.  plan = (s1, s2, ...): the first thread runs s1 steps, the
other s2 steps, and so on; after the plan is used up, the running thread
finishes and then the other one does.  All plans up to the preemption bound
are enumerated; each one is an execution of the real code.
"""

import os
import sys
import threading

import reparsec
from reparsec import lexer as rx
from reparsec import scannerless as rs

from . import families as fm
from .grammar import build, show
from .observe import observe, parse_real, unwrap, unwrap0

SRC = os.path.dirname(os.path.realpath(reparsec.__file__)) + os.sep
STALL_S = 0.5
MAX_STALLS = 5


class Run:
    """One execution of two thread bodies under a plan."""

    def __init__(self, bodies, grain, first, plan, count_all=False):
        self.count_all = count_all
        self.bodies = bodies
        self.opcodes = grain == "opcode"
        self.plan = list(plan)
        self.at = 0
        self.left = self.plan[0] if self.plan else -1
        self.turn = first
        self.first = first
        self.gates = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.steps = [0, 0]
        self.switches = 0
        self.results = [None, None]
        self.stalled = False

    def step(self, me):
        """Called by thread `me`, which is the running one."""
        if self.left == 0 and not self.stalled:
            other = 1 - me
            self.at += 1
            self.left = (self.plan[self.at]
                         if self.at < len(self.plan) else -1)
            if not self.done[other]:
                self.switches += 1
                self.turn = other
                self.gates[other].release()
                self.wait(me)
        self.steps[me] += 1
        if self.left > 0:
            self.left -= 1

    def wait(self, me):
        # if the other thread makes no progress it is waiting for something
        # that this one holds: let this one go on
        seen = None
        while not self.gates[me].acquire(timeout=STALL_S):
            now = tuple(self.steps), tuple(self.done)
            if now == seen:
                self.stalled = True
                return
            seen = now

    def body(self, me):
        if me != self.first:
            self.wait(me)

        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.step(me)
            return local

        opcodes = self.opcodes

        def tracer(frame, event, arg):
            # after the last switch new frames run at full speed
            if (self.left >= 0 or self.count_all) and frame.f_code.co_filename.startswith(
                    SRC):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        try:
            sys.settrace(tracer)
            try:
                self.results[me] = self.bodies[me]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[me] = ("exc", type(e).__name__, str(e))
        self.done[me] = True
        self.gates[1 - me].release()

    def go(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True)
              for i in (0, 1)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self.results


class Scenario:
    """Two operations on objects that they share."""

    def __init__(self, title, setup, quick=False, tiny=False):
        self.title = title
        self.setup = setup
        self.quick = quick
        self.tiny = tiny


class Outcome:
    schedules = 0
    preempted = 0
    steps = 0
    bad = None
    lengths = None
    stalls = 0
    drift = 0


_warm = False


def warm_up():
    """The first byte code trace of a process reports nothing."""
    global _warm
    if not _warm:
        _warm = True
        for grain in ("opcode", "opcode"):
            Run(SCENARIOS[0].setup(), grain, 0, (), True).go()


def explore(scenario, grain, first, bound, part, parts, tick=int):
    """All plans with exactly `bound` preemptions, thread `first` first."""
    out = Outcome()
    # each operation alone, on objects of its own
    want = []
    for i in (0, 1):
        want.append(scenario.setup()[i]())
    warm_up()
    base = Run(scenario.setup(), grain, first, (), True)
    if base.go() != want:
        out.bad = ((), want, base.results)
        return out
    n = base.steps[first], base.steps[1 - first]
    out.lengths = n
    if not n[0] or not n[1]:
        return out  # nothing to interleave
    if bound == 1:
        plans = [(i,) for i in range(1, n[0])]
    else:
        plans = [(i, j) for i in range(1, n[0]) for j in range(1, n[1])]
    replayed = False
    for plan in plans[part::parts]:
        tick()
        run = Run(scenario.setup(), grain, first, plan)
        got = run.go()
        out.schedules += 1
        out.preempted += run.switches > 0
        out.steps += sum(run.steps)
        if run.stalled:
            out.stalls += 1
            if out.stalls >= MAX_STALLS:
                break
        if not replayed:
            # a schedule is reproducible: same observations; and the same
            # steps, unless the library computes something only once
            replayed = True
            again = Run(scenario.setup(), grain, first, plan)
            if again.go() != got:
                out.bad = (plan, got, again.results)
                return out
            out.drift += again.steps != run.steps and not (
                run.stalled or again.stalled)
        if got != want:
            out.bad = (plan, want, got)
            return out
    return out


def two_parses(term, a, b, runners=None):
    """Two parses with the same parser object."""
    if runners is None:
        runners = ("index", "index")

    def stream(w, runner):
        return fm.lex(w) if runner == "tokens" else w

    def setup():
        p = build(term)

        def op(w, recover, runner):
            s = stream(w, runner)
            return lambda: observe(p, s, recover, None, runner)
        return op(a[0], a[1], runners[0]), op(b[0], b[1], runners[1])
    return Scenario("two parses with %s: %r, %r" % (show(term), a, b), setup)


def mark(scenario, quick=False, tiny=False):
    scenario.quick, scenario.tiny = quick, tiny
    return scenario


def _shared_result():
    term = ("seql", ("many", ("seq", ("sym", "a"), ("sym", "b"))), ("eof",))

    def setup():
        r = build(term).parse("abax", recover=True)
        return (lambda: (unwrap0(r), unwrap(r, True)),
                lambda: (unwrap(r, True), unwrap0(r)))
    return Scenario("two threads unwrap one repaired result", setup)


def _shared_failure():
    term = ("seq", ("alt", ("sym", "a"), ("sym", "b")),
            ("alt", ("maybe", ("sym", "c")), ("eof",)))

    def setup():
        r = build(("seq", term, ("sym", "d"))).parse("ax")
        return (lambda: (unwrap0(r), unwrap(r, True)),
                lambda: (unwrap(r.fmap(lambda v: ("f", v)), True)))
    return Scenario("unwrap and fmap of one failed result", setup)


def _compose():
    def setup():
        p = build(("seq", ("alt", ("sym", "a"), ("sym", "b")),
                   ("maybe", ("sym", "c"))))

        def composing():
            q = p.label("L") | p.many().label("M").recover()
            return observe(q.recover_with("X"), "bcx", True)
        return lambda: observe(p, "ax", True), composing
    return Scenario("building on a parser while it parses", setup)


def _sharing():
    def setup():
        p = build(("alt", ("sym", "a"), ("label", ("sym", "b"), "bee")))
        q = (p + p.label("L")) | p
        r = p.many() << p.maybe()
        return (lambda: observe(q, "xa", True),
                lambda: observe(r, "ab", False))
    return Scenario("two grammars that share a parser", setup)


def _lexing():
    def setup():
        return (lambda: [repr((t, t.start, t.end)) for t in fm.lex("a\n b")],
                lambda: [repr((t, t.start, t.end)) for t in fm.lex("bb a")])
    return Scenario("two texts being split into tokens", setup)


A, Bs = ("sym", "a"), ("sym", "b")
SCENARIOS = [
    mark(two_parses(("seq", A, Bs), ("ab", False), ("ax", False)),
         True, True),
    mark(two_parses(("alt", ("label", A, "L"), Bs), ("x", False),
                    ("b", False)), True, True),
    two_parses(("many", ("alt", A, Bs)), ("ab", False), ("b", False)),
    two_parses(("seq", A, Bs), ("a", True), ("b", True)),
    mark(two_parses(("label", ("alt", A, ("rw", Bs, "X", None)), "L"),
                    ("x", True), ("a", True)), True),
    two_parses(("seql", ("many", ("seq", A, Bs)), ("eof",)), ("ax", True),
               ("abx", True)),
    two_parses(("attempt", ("seq", A, ("recover", Bs))), ("ax", True),
               ("a", False)),
    two_parses(("sep_by", A, Bs), ("aba", False), ("ab", True)),
    two_parses(("chainl1", A, Bs), ("aba", False), ("ab", True)),
    two_parses(("rec", "v", ("alt", Bs, ("seq", A, ("ref", "v")))),
               ("aab", False), ("ab", True)),
    mark(two_parses(("bind", ("sat", "any"), "a", Bs, ("maybe", A)),
                    ("ab", False), ("bx", True)), True, True),
    two_parses(("then", A, Bs, ("maybe", A)), ("ab", False), ("aba", True)),
    two_parses(("many", ("aligned", ("seql", ("sym", "a"), fm.WS))),
               ("a\na", False), ("a\n a", False), ("text", "text")),
    mark(two_parses(("block", ("indented", 1, ("sym", "a"))), ("a", True),
                    ("a", False), ("text", "text")), True),
    two_parses(("seqr", fm.WS, ("block", ("seq", ("lit", "a\n"), (
        "aligned", ("lit", "b"))))), (" a\nb", False), ("a\nb", True),
        ("text", "text")),
    mark(two_parses(("seq", ("re", "a|b\n", 0), ("lit", "b")),
                    ("b\nx", False), ("ab", False), ("text", "text")), True),
    two_parses(("seq", ("re", "a|b\n", 0), ("lit", "b")), ("b\nx", True),
               ("ax", False), ("text", "index")),
    two_parses(("seq", fm.TOK_A, ("tokins", "b", "bb")), ("a\na", True),
               ("a b", False), ("tokens", "tokens")),
    mark(_shared_result(), True, True),
    mark(_shared_failure(), True, True),
    _sharing(),
    _compose(),
    mark(_lexing(), True),
]


# --- one preemption, cheaply -------------------------------------------------------

class Helper:
    """A thread that runs one operation at a time on demand."""

    def __init__(self):
        self.start = threading.Semaphore(0)
        self.end = threading.Semaphore(0)
        self.job = None
        self.result = None
        threading.Thread(target=self.main, daemon=True).start()

    def main(self):
        while True:
            self.start.acquire()
            self.result = guarded(self.job)
            self.end.release()

    def post(self, job):
        self.job = job
        self.start.release()

    def wait(self, timeout=None):
        return self.end.acquire(timeout=timeout)


def guarded(op):
    try:
        return op()
    except Exception as e:
        return ("exc", type(e).__name__, str(e))


_helper = None


class Wedge:
    """
    Runs operation `a` in this thread, traced, and lets another thread run all
    of operation `b` before step number `k` of `a`.
    """

    def __init__(self, a, b, grain, k):
        self.a, self.b, self.k = a, b, k
        self.opcodes = grain == "opcode"
        self.steps = 0
        self.stalled = False
        self.pending = False

    def hit(self):
        global _helper
        if _helper is None:
            _helper = Helper()
        _helper.post(self.b)
        if not _helper.wait(STALL_S):
            # it waits for something that this thread holds
            self.stalled = self.pending = True

    def go(self):
        event_name = "opcode" if self.opcodes else "line"
        opcodes, k = self.opcodes, self.k

        def local(frame, event, arg):
            if event == event_name:
                self.steps += 1
                if self.steps == k:
                    sys.settrace(None)
                    self.hit()
                    return None
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(SRC):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        sys.settrace(tracer)
        try:
            ra = guarded(self.a)
        finally:
            sys.settrace(None)
        if self.pending:
            _helper.wait()
        return ra, (_helper.result if k and self.steps >= k else None)


def wedges(setup, grain, tick=int):
    """
    All schedules of setup() -> (a, b) in which b runs as a whole between two
    steps of a.  -> (number of schedules, stalls, violation or None)
    """
    warm_up()
    a, b = setup()
    want = guarded(a), guarded(setup()[1])
    w = Wedge(setup()[0], None, grain, 0)
    if w.go()[0] != want[0]:
        return 0, 0, (0, want, "differs when traced")
    stalls = 0
    for k in range(2, w.steps + 1):
        tick()
        run = Wedge(*setup(), grain, k)
        got = run.go()
        if run.steps < k:
            # fewer steps than before: something is computed only once
            if got[0] != want[0]:
                return k, stalls, (k, want, got)
            continue
        if got != want:
            return k, stalls, (k, want, got)
        stalls += run.stalled
        if stalls >= MAX_STALLS:
            break
    return w.steps, stalls, None

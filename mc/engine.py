"""
Exhaustive exploration driver.

A check is an object with
  pid, level, technique
  units(tier)        -> iterable of JSON-able units, simplest first
  run(unit, ctx)     -> explores the unit completely, reporting to ctx
  finish(cov, tier)  -> optional, adds to the coverage record

Every unit of the enumeration is run (unit i on worker i mod W); nothing is
sampled and nothing is cut off by time.  The deciding outcome is exit 0 / 1.
"""

import hashlib
import json
import mmap
import os
import pickle
import resource
import signal
import sys
import time
import struct
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HANG_CPU_S = float(os.environ.get("MC_HANG_CPU_S", "40"))
MEM_LIMIT = 3 << 30
PROFILE = bool(os.environ.get("MC_PROFILE"))  # development only
SMOKE = bool(os.environ.get("MC_SMOKE"))  # development only


class Hang(BaseException):
    """The code under test used far more CPU time than any unit needs."""


class Violation(Exception):
    def __init__(self, info):
        super().__init__(info)
        self.info = info


class Ctx:
    """Counters and findings of one worker."""

    def __init__(self):
        self.n = {}
        self.samples = []
        self.violation = None
        self.known = {}
        self.outcomes = set()
        self.where = None

    def count(self, key, by=1):
        self.n[key] = self.n.get(key, 0) + by

    @staticmethod
    def alive():
        """A part of the unit is done: the CPU time is counted anew."""
        if signal.getitimer(signal.ITIMER_PROF)[0]:
            signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def outcome(self, x):
        """Distinct observed outcomes (hashes), to show non-vacuity."""
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(repr(x)))

    def fail(self, what, **detail):
        info = {"what": what}
        info.update(detail)
        raise Violation(info)


def _on_alarm(signum, frame):
    raise Hang()


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        if isinstance(x, dict):
            return {str(k): _jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [_jsonable(v) for v in x]
        return repr(x)


def from_library(e):
    """Does the traceback of `e` reach into the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_globals.get("__name__", "")
        if name == "reparsec" or name.startswith("reparsec."):
            return True
        tb = tb.tb_next
    return False


def run_unit(check, unit, ctx):
    """-> None or violation info."""
    ctx.where = None
    signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S)
    try:
        check.run(unit, ctx)
        return None
    except Violation as v:
        return v.info
    except Hang:
        return {"what": "no result after %g s of CPU time (does not "
                "terminate)" % HANG_CPU_S, "case": ctx.where}
    except MemoryError:
        return {"what": "ran out of memory", "case": ctx.where}
    except Exception as e:
        # every unit runs through on the tree the checks were made for, so
        # the library has raised, or returned what nobody can make sense of
        return {"what": "the library raised %s" % type(e).__name__
                if from_library(e) else
                "the library returned something malformed (%s: %s)" % (
                    type(e).__name__, e),
                "case": ctx.where, "traceback": traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class Board:
    """Where the workers note the index of the violation they found."""

    NONE = 2 ** 62

    def __init__(self, n):
        self.n = n
        self.mem = mmap.mmap(-1, 8 * n)
        for i in range(n):
            self.put(i, self.NONE)

    def put(self, shard, index):
        struct.pack_into("q", self.mem, 8 * shard, index)

    def least(self):
        return min(struct.unpack_from("%dq" % self.n, self.mem))


def _worker(check, tier, shard, shards, out, board):
    ctx = Ctx()
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    signal.signal(signal.SIGPROF, _on_alarm)
    try:
        for i, unit in enumerate(check.units(tier)):
            if i % shards != shard:
                continue
            if board.least() < i:
                break  # another worker has found an earlier one
            ctx.count("units")
            if PROFILE:
                before = time.process_time()
            info = run_unit(check, unit, ctx)
            if PROFILE:
                ctx.count("cpu_ms %s" % ("/".join(map(str, unit[:2])))[:40], int(
                    1000 * (time.process_time() - before)))
            if info is not None:
                ctx.violation = (i, unit, info)
                board.put(shard, i)
                break
        res = ("ok", ctx)
    except BaseException:
        res = ("crash", traceback.format_exc())
    with open(out, "wb") as f:
        pickle.dump(_portable(res), f)


def _portable(res):
    if res[0] == "ok":
        ctx = res[1]
        if ctx.violation is not None:
            i, unit, info = ctx.violation
            ctx.violation = (i, _jsonable(unit), _jsonable(info))
        ctx.samples = [_jsonable(s) for s in ctx.samples]
        ctx.where = None
        return ("ok", ctx.__dict__)
    return res


def workers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(8, int(os.environ.get("MC_WORKERS", n))))


def explore(check, tier):
    """Runs all units in forked workers and merges what they report."""
    import tempfile
    import shutil
    n = workers()
    tmp = tempfile.mkdtemp(prefix="mc-")
    pids = []
    board = Board(n)
    try:
        sys.stdout.flush()
        sys.stderr.flush()
        for shard in range(n):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    _worker(check, tier, shard, n,
                            os.path.join(tmp, "%d.pickle" % shard), board)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids.append(pid)
        for pid in pids:
            os.waitpid(pid, 0)
        merged = Ctx()
        violations = []
        for shard in range(n):
            path = os.path.join(tmp, "%d.pickle" % shard)
            if not os.path.exists(path):
                raise RuntimeError("worker %d died without a report" % shard)
            with open(path, "rb") as f:
                kind, payload = pickle.load(f)
            if kind != "ok":
                raise RuntimeError("worker %d failed:\n%s" % (shard, payload))
            for k, v in payload["n"].items():
                merged.count(k, v)
            merged.samples.append(payload["samples"])
            merged.outcomes |= payload["outcomes"]
            if payload["violation"] is not None:
                violations.append(payload["violation"])
        merged.samples = [
            s[i] for i in range(4) for s in merged.samples if i < len(s)][:8]
        violations.sort(key=lambda v: v[0])
        return merged, violations
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, default=repr)
        f.write("\n")
    os.replace(tmp, path)


def main(check, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    merged, violations = explore(check, tier)
    if PROFILE:
        for k in sorted(merged.n):
            if k.startswith("cpu_ms"):
                print("%-50s %8.1f s" % (k, merged.n.pop(k) / 1000))
    cov = check.coverage(merged, tier)
    cov.setdefault("samples", merged.samples or ["(none)"])
    cov.setdefault("distinct_outcomes", len(merged.outcomes))
    cov.setdefault("units", merged.n.get("units", 0))
    # a run that stopped at a violation did not enumerate its whole space
    cov["exhaustive"] = not violations
    cov["bounds"] = check.bounds(tier)
    evidence = {
        "property": check.pid,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    if not SMOKE:
        write_json(
            os.path.join(VERIF, "evidence", check.pid + ".json"), evidence)
    if not violations and not SMOKE and check.vacuous(merged):
        print("ERROR: vacuous run of %s: %s" % (check.pid, merged.n))
        return 2
    for line in summary(check, cov, evidence):
        print(line)
    if not violations:
        print("OK property=%s tier=%s" % (check.pid, tier))
        return 0
    i, unit, info = violations[0]
    replay = {"property": check.pid, "tier": tier, "unit": unit,
              "unit_index": i, "violation": info,
              "replay_with": "bash check.sh --replay <this file>"}
    digest = hashlib.sha1(
        json.dumps(replay, sort_keys=True, default=repr).encode()
    ).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (check.pid, digest))
    write_json(path, replay)
    print("unit: %s" % json.dumps(unit, default=repr)[:2000])
    for k, v in info.items():
        print("  %s: %s" % (k, str(v)[:2000]))
    print("VIOLATION property=%s replay=%s" % (check.pid, path))
    return 1


def summary(check, cov, ev):
    keys = [k for k, v in cov.items() if isinstance(v, int)
            and not isinstance(v, bool)]
    yield "%s [%s] %.1fs  %s" % (
        check.pid, ev["tier"], ev["wall_s"],
        ", ".join("%s=%d" % (k, cov[k]) for k in keys))


def replay(checks, path):
    with open(path) as f:
        data = json.load(f)
    check = checks[data["property"]]
    signal.signal(signal.SIGPROF, _on_alarm)
    ctx = Ctx()
    unit = check.load_unit(data["unit"])
    info = run_unit(check, unit, ctx)
    again = run_unit(check, unit, Ctx())
    if repr(info) != repr(again):
        print("ERROR: the replay is not deterministic:\n%r\n%r" % (info, again))
        return 2
    if info is None:
        print("no violation: the property holds on this unit now")
        return 0
    for k, v in info.items():
        print("  %s: %s" % (k, v))
    print("VIOLATION property=%s replay=%s" % (check.pid, path))
    return 1


class Check:
    pid = None
    level = "model_checking"
    technique = ""
    assumptions = []
    minimum = {"units": 1}

    def units(self, tier):
        raise NotImplementedError

    def run(self, unit, ctx):
        raise NotImplementedError

    def bounds(self, tier):
        return ""

    def vacuous(self, ctx):
        return any(ctx.n.get(k, 0) < v for k, v in self.minimum.items())

    def coverage(self, ctx, tier):
        return dict(ctx.n)

    @staticmethod
    def load_unit(unit):
        def conv(x):
            if isinstance(x, list):
                return tuple(conv(y) for y in x)
            return x
        return conv(unit)

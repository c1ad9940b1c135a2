"""python -m mc.main ID [quick|thorough]  |  --replay FILE  |  --list"""

import os
import sys


def load():
    from . import checks_grammar, checks_more, checks_special
    found = {c.pid: c for m in (checks_grammar, checks_special, checks_more)
             for c in m.CHECKS}
    return {k: found[k]() for k in sorted(found)}


def main(argv):
    import reparsec
    repo = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
    src = os.path.join(repo, "src") + os.sep
    if not os.path.realpath(reparsec.__file__).startswith(src):
        print("ERROR: reparsec comes from %s, not from %s" % (
            reparsec.__file__, src))
        return 2
    sys.setrecursionlimit(3000)
    checks = load()
    if argv[:1] == ["--list"]:
        print("\n".join(checks))
        return 0
    from . import engine
    if argv[:1] == ["--replay"]:
        return engine.replay(checks, argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return engine.main(checks[argv[0]], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

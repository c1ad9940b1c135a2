"""Writes MANIFEST.json from the check classes: python -m mc.manifest"""

import json

from . import checks_grammar, checks_more, checks_special

CONFORM = (
    "Conformance of the real library with an independent reference model on "
    "every enumerated grammar, input and mode: exhaustive within the bounds "
    "in the evidence file, silent outside them. Trusts mc/refmodel.py to "
    "state the documented semantics, and that user functions are pure.")
DIRECT = (
    "Every execution of the real library within the bounds in the evidence "
    "file is judged directly (no model); silent outside the bounds.")
NOTES = {
    "C04": "Every repair within the bounds is explained by an exhaustive "
           "search of mc/explain.py for a derivation of the edited input "
           "with the returned value; silent outside the bounds.",
    "C10": "Complete for the stated histories of two operations (and one "
           "fault) on shared objects, against freshly built parsers; longer "
           "histories are covered only through the walks. Assumes pure user "
           "functions.",
    "C11": "All schedules of two threads with the stated number of "
           "preemptions at line / byte code granularity of library code, and "
           "all nesting points of a re-entrant parse; switches inside "
           "built-ins and more threads or preemptions are not covered.",
    "C12": "All histories of create / combine / define / parse up to the "
           "bound and conformance of recursive grammars with the reference "
           "model; concurrent define() is not covered.",
    "C13": "Conformance of the lexer with a character-by-character reference "
           "on every specification x text within the bounds.",
}


def main():
    checks = sorted(checks_grammar.CHECKS + checks_special.CHECKS
                    + checks_more.CHECKS,
                    key=lambda c: c.pid)
    out = {
        "version": 1,
        "setup_cmd": "bash check.sh --list",
        "checks": [{
            "property": c.pid,
            "quick_cmd": "bash check.sh %s quick" % c.pid,
            "thorough_cmd": "bash check.sh %s thorough" % c.pid,
            "technique": "model checking: " + c.technique,
            "level": c.level,
            "level_note": NOTES.get(
                c.pid, CONFORM if c.level == "model_checking" else DIRECT),
        } for c in checks],
        "not_applicable": [],
        "notes": "No hooks: the checks run the unmodified library. "
                 "known_findings.txt lists the repaired defects; there are "
                 "no open findings.",
    }
    with open("MANIFEST.json", "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

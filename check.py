#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property for /repo's current tree."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] else "quick"
    from common import Report, AnalysisBroken
    rep = Report(pid, tier)
    m = importlib.import_module(pid.lower())
    try:
        m.run(rep)
    except AnalysisBroken as e:
        print("%s: the analysis could not be set up: %s" % (pid, e))
        return 2
    except Exception as e:
        traceback.print_exc()
        rep.undecided("analysis", "%s: %s" % (type(e).__name__, e))
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())

"""Run one check: python3 -m ux.run C01"""
import importlib
import os
import sys
import traceback

from .facts import AnalysisError, FrontEndError
from .report import Report


def main():
    sys.setrecursionlimit(20000)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        mod = importlib.import_module("ux.checks." + pid.lower())
        rep = mod.check(tier)
        rc = rep.finish()
    except (AnalysisError, Exception) as e:
        if not isinstance(e, AnalysisError):
            traceback.print_exc()
        rep = Report.current
        if rep is not None and not isinstance(e, FrontEndError):
            # what was decided before this point still counts; the rest of the check is undecided
            rep.undecided("analysis stopped early", "%s: %s" % (type(e).__name__, e))
            rc = rep.finish()
        else:
            print("error: %s" % e)
            rc = 3
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()

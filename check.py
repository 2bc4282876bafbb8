#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]: decide one property from /repo's current source."""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]; a = [x for x in a if x != tier]
    if tier not in ("quick", "thorough"): tier = "quick"
    from sa.report import Report, Broken
    from checks import REG
    rc = 0
    for pid in a:
        mod, fn = REG[pid]
        r = Report(pid, tier)
        try:
            getattr(importlib.import_module("checks." + mod), fn)(r)
            rc = max(rc, r.finish())
        except Exception as e:
            traceback.print_exc()
            print("ANALYSIS-ERROR property=%s %s: %s" % (pid, type(e).__name__, e))
            # what was found before the analysis stopped stands
            rc = max(rc, (r.finish() or 2) if r.viol else 2)
    return rc

if __name__ == "__main__":
    sys.exit(main())

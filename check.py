#!/usr/bin/env python3
"""check.py <property id>|all [--tier quick|thorough]: decide one property by static analysis of /repo's source."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa import model, report  # noqa: E402
from sa.rules import RULES    # noqa: E402


def run(pid, tier):
    modname, title = RULES[pid]
    rep = report.Report(pid, tier, title)
    try:
        prog = model.Program()
        mod = importlib.import_module("sa.rules." + modname)
        getattr(mod, "check_" + pid)(prog, rep)
        return rep.finish(prog)
    except model.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s" % pid)
        rc = 2
    return 1 if rep.viol and rep.finish() == 1 else rc      # what was found before is still reported


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        argv = argv[:i] + argv[i + 2:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    ids = list(RULES) if argv[:1] == ["all"] else argv
    if not ids or any(i not in RULES for i in ids):
        print("usage: check.py <%s>|all [--tier quick|thorough]" % "|".join(RULES))
        return 2
    rc = 0
    for i in ids:
        rc = max(rc, run(i, tier))
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current source by static analysis."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from rp3d import model, report
    from rp3d.rules import RULES
    mod, text = RULES[pid]
    rep = report.Report(pid, tier, seed, text)
    try:
        m = importlib.import_module("rp3d.rules." + mod)
        configs = getattr(m, "CONFIGS", {}).get(tier) or (["single", "double"] if tier == "thorough" else ["single"])
        info = []
        for c in configs:
            P = model.load(c)
            info.append({"config": c, "units": len(P.files), "functions": len(P.fns), "classes": len(P.classes)})
            rep.cfgname = c
            getattr(m, "check_" + pid)(P, rep)
        return report.finish(rep, info)
    except model.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e)); return 3
    except Exception:
        traceback.print_exc(); print("ANALYSIS-BROKEN property=%s" % pid); return 3

if __name__ == "__main__":
    sys.exit(main())

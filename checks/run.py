#!/usr/bin/env python3
"""python3 checks/run.py <property id> [--thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from hbsa.build import AnalysisError
from hbsa.report import Report


def main():
    pid = sys.argv[1]
    if pid == "--setup":         # nothing to build: the analyser is Python, the sources are lowered on every run
        import shutil
        from hbsa import build
        for t in (build.CLANG, build.OPT):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        return 0
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        mod = importlib.import_module("hbsa.rules." + pid.lower())
        from hbsa.ctx import Ctx
        rep = Report(pid, mod.RULE)
        rep.assume = list(getattr(mod, "ASSUME", []))
        ctx = Ctx()
        ctx.tier = tier
        mod.run(ctx, rep)
        return rep.finish(tier, int(os.environ.get("VERIF_SEED", "1")), ctx.tree)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s: internal error" % pid)
        return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import objs                          # noqa: E402
import report                       # noqa: E402
from registry import CHECKS         # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mods, technique = CHECKS[pid][:2]
    ctx = report.Ctx(pid, tier, seed)
    try:
        for name in mods:
            mod, _, fn = name.partition(":")
            getattr(importlib.import_module(mod), fn or "run")(ctx)
    except objs.Stop as e:
        ctx.bad("uninitialized", str(e))
    except Exception as e:
        import traceback
        if not ctx.viol or os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        known = report.known_findings(pid)
        if not any(k not in known for k, _ in ctx.viol):
            return 2
        # a violation established before the analysis gave up stands
    return report.finish(ctx, "other", technique)


if __name__ == "__main__":
    sys.exit(main())

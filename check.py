#!/usr/bin/env python3
"""Static check of one property of /repo:  check.py <property id> [--tier quick|thorough]

exit 0: the property holds on everything analysed (known findings are printed)
exit 1: violation (line VIOLATION property=... replay=...)
exit 2: the analysis could not be carried out (vanished anchor, unsupported construct)
"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from sa.core import Ctx
    from sa.loader import AnalysisError
    ctx = Ctx(a.prop, a.tier)
    try:
        mod = importlib.import_module("sa.rules." + a.prop.lower())
        ctx.forms = getattr(mod, "FORMS", True)
        mod.run(ctx)
        if not ctx.obligations:
            raise AnalysisError("no obligation was generated")
    except AnalysisError as e:
        if any(True for _ in ctx.violations):
            ctx.notes.append(str(e))
            print("analysis incomplete: %s" % e)
            return ctx.finish(mod.LEVEL, mod.EXPLANATION)
        print("ANALYSIS-ERROR property=%s %s" % (a.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % a.prop)
        return 2
    return ctx.finish(mod.LEVEL, mod.EXPLANATION)


if __name__ == "__main__":
    sys.exit(main())

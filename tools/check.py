#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import registry
    ctx = vlib.Ctx(prop, tier)
    try:
        registry.CHECKS[prop](ctx)
    except vlib.CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        # a violation found before the error still counts
        if not ctx.violations:
            return 2
    return ctx.finish("model_checking", registry.ASSUMPTIONS.get(prop, registry.COMMON))

if __name__ == "__main__":
    sys.exit(main())

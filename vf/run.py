#!/usr/bin/env python3
"""python3 vf/run.py <property> [quick|thorough]   -- exit 0 held, 1 violated, 2 the check itself failed"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import props


def main():
    if sys.argv[1] == "setup":
        core.build()
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = None
    try:
        core.build()
        ctx = core.Ctx(prop, tier, seed)
        props.PROPS[prop](ctx)
        return ctx.finish()
    except core.ToolError as e:
        if ctx and ctx.violations:
            ctx.notes.append(str(e))
            return ctx.finish()
        print("CHECK-ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())

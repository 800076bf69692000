#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]   (exit 0 held, 1 violation, 2 the check failed)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = core.Check(pid, tier, seed)
    try:
        props.CHECKS[pid](c)
    except core.ToolError as e:
        print("CHECK-ERROR", e, flush=True)
        if not c.violations:
            return 2
    return c.finish()


sys.exit(main())

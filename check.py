#!/usr/bin/env python3
"""check.py <property id>: decides one property for the code in /repo (see DESIGN.md)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    import checks
    ctx = common.Ctx(pid)
    try:
        sys.exit(checks.CHECKS[pid](ctx))
    except common.ToolError as e:
        print("ERROR", e.args[0], file=sys.stderr)
        sys.exit(1 if ctx.alarm() else 2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(1 if ctx.alarm() else 2)   # what has been decided stays decided


if __name__ == "__main__":
    main()

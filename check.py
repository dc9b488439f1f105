#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property on /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = vlib.Check(prop, tier, seed)
    try:
        checks.CHECKS[prop](c)
        return c.finish()
    except vlib.BuildError as e:
        print("build error:", e)
        return 3
    except vlib.ToolError as e:
        if c.violations:
            return c.finish()
        print("check error:", e)
        return 2
    except Exception:
        if c.violations:
            return c.finish()
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

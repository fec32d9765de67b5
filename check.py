#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] [--replay FILE]: decide one property for the working tree of /repo.

Exit 0: it held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Exit 2: the machinery failed.  VERIF_SEED and VERIF_TIER (quick, thorough) are honoured."""
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import plan  # noqa: E402
from run import ToolError, log  # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in plan.PROPS:
        log("usage: check.py PROPERTY [--thorough] [--replay FILE]; properties: " + " ".join(sorted(plan.PROPS)))
        return 2
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    elif tier not in ("quick", "thorough"):
        tier = "quick"
    t = time.time()
    try:
        if "--replay" in sys.argv:
            return plan.replay(prop, sys.argv[sys.argv.index("--replay") + 1])
        bad = plan.check(prop, tier, seed, t)
    except ToolError as e:
        log("error of the check: %s" % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

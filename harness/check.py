"""usage: check.py PROPERTY   (tier and seed from VERIF_TIER / VERIF_SEED)"""

import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402
from registry import CHECKS  # noqa: E402


def main() -> int:
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return vlib.run_check(prop, CHECKS[prop], tier, seed)
    except vlib.MachineryError as e:
        print(f"MACHINERY-ERROR property={prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())

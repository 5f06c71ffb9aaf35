"""Entry point of all checks: check.py <property> ; VERIF_SEED and VERIF_TIER from the environment."""

import importlib
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from harness import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = core.Context(prop, tier, seed)
    try:
        warnings.simplefilter("ignore")
        driver = importlib.import_module("harness.%s" % prop.lower())
        driver.check(ctx)
        return core.finish(ctx)
    except core.MachineryError as e:
        print("ERROR in the verification machinery: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())

"""
Runs one shard of a driver against the real code:

    drive.py <driver> <out> <seed> <tier> <prop> <shard> <nshard>

Exit code 3 means that the driver itself is broken, or does not fit the code's
interface. Any other exception that a driver does not expect comes from the code
under test refusing a step that it should take, and is recorded as a case.
"""

import importlib
import random
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
import log  # noqa: E402


def main():
    drv, out, seed, tier, prop, shard, nshard = sys.argv[1:8]
    mod = importlib.import_module(f"drv_{drv}")
    rng = random.Random(f"{seed}/{prop}/{drv}/{shard}")
    lg = log.Log(out)
    try:
        mod.run(lg, rng, tier, prop, int(shard), int(nshard))
    except (ImportError, AttributeError, NameError, TypeError, SyntaxError):
        traceback.print_exc()
        sys.exit(3)
    except Exception as e:
        traceback.print_exc()
        tb = traceback.format_exc()[-1500:]
        lg.case(dict(desc=f"driver {drv}", exc=repr(e), tb=tb))
    lg.close()


if __name__ == "__main__":
    main()

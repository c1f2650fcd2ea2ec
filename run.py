#!/opt/venv/bin/python
"""run.py <property> | run.py all | run.py replay <file>   (VERIF_TIER, VERIF_SEED)"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from harness import core  # noqa: E402

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    keep = "--keep" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if args[0] == "replay":
            sys.exit(core.rejudge(args[1]))
        props = sorted(core.PROPS) if args[0] == "all" else args
        sys.exit(max([core.check(p, tier, seed, keep) for p in props]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

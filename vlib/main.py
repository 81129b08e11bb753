import os
import sys

from vlib.core import run_check

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    rc = run_check(prop, tier)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)  # leftover daemon threads of simulated ranks must not block exit

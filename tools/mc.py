"""mc.py MODULE [K=V ...]: model-checks one design module, with coverage off."""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from vlib import tlc  # noqa: E402
from vlib.core import Ctx  # noqa: E402

ctx = Ctx("X00", "quick", 1)
cov = "-c" in sys.argv
a = [x for x in sys.argv[1:] if x != "-c"]
try:
    tlc.model_check(ctx, a[0], overrides=dict(x.split("=", 1) for x in a[1:]), workers=8, coverage=cov, timeout=800)
except tlc.Machinery as ex:
    print(ex)

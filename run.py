#!/usr/bin/env python3
"""run.py <property> <quick|thorough>"""
import importlib, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
try:
    import numpy, scipy  # noqa
except ImportError:
    if os.path.exists(VT) and os.environ.get("VERIF_PY") != "1":
        os.environ["VERIF_PY"] = "1"
        os.execv(VT, [VT] + sys.argv)
    raise
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
import vlib
m = importlib.import_module(pid.lower())
if len(sys.argv) > 3 and sys.argv[3] == "golden":
    sys.exit(m.golden())
c = vlib.Check(pid, tier, getattr(m, "LEVEL", "observed executions"))
try:
    m.main(c, tier)
except vlib.HarnessError as e:
    # the code under test no longer builds or the driver misbehaves: no verdict can be given
    print("no verdict: %s" % e)
    traceback.print_exc()
    if c.viol:
        sys.exit(c.finish())
    sys.exit(2)
sys.exit(c.finish())

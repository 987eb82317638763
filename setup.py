#!/usr/bin/env python3
"""Pre-builds the driver variants the checks use (they rebuild by themselves whenever /repo differs)."""
import os, sys
if os.environ.get("VERIF_PY") != "1":
    os.environ["VERIF_PY"] = "1"
    py = "/opt/veriftools/pyvenv/bin/python3"
    if os.path.exists(py):
        os.execv(py, [py] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
try:
    for v, p in (("plain", "drv"), ("asan", "drv"), ("replay", "fuzz")):
        print(vlib.build(v, p))
except vlib.HarnessError as e:
    print(e)

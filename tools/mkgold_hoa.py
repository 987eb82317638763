"""Record golden/C17.npz: the rendering matrix of every HOA order and layout, measured on the current tree (python3-vt tools/mkgold_hoa.py)."""
import os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [R + "/lib", R + "/checks"]
from c17 import *
vlib.build("plain")
G = {}
for a, bs, co, cls, run_, M, h in procmap(job, [(("g", o, l), o, l, 48000, 0, None, {}) for o in range(1, 7) for l in LAYOUTS]):
    x = run_.i.audio()
    m = min(len(x), len(co))
    G["%d_%d" % (a[1], a[2])] = np.linalg.lstsq(co[:m], x[:m], rcond=1e-9)[0].astype(np.float32)
np.savez_compressed(R + "/golden/C17.npz", **G)

#!/usr/bin/env python3
"""pack.py OUT.xz FILE|DIR... : hostile-input cases -> one compressed pack (u32 count, then u32 length + bytes each)"""
import sys, os, struct, lzma, hashlib
out = sys.argv[1]
cases = {}
for a in sys.argv[2:]:
    for f in ([os.path.join(a, x) for x in os.listdir(a)] if os.path.isdir(a) else [a]):
        b = open(f, "rb").read()
        cases[hashlib.sha1(b).digest()] = b
l = sorted(cases.values(), key=lambda b: (len(b), b))
raw = struct.pack("<I", len(l)) + b"".join(struct.pack("<I", len(b)) + b for b in l)
open(out, "wb").write(lzma.compress(raw, preset=9))
print(len(l), "cases", len(raw), "->", os.path.getsize(out))

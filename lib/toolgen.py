"""Streams of the coding tools for which the sandbox has no encoder (linear-prediction modes, gap filling, stereo linear
prediction, multichannel prediction, ...): grown frame by frame from random element payloads, keeping those the decoder
accepts and renders at a useful level.  Used off line by tools/mkcorpus.py to make corpus/tools.xz; no check runs it."""
from suite import *
import hoa


def rb(rng, n):
    return format(rng.getrandbits(n), "0%db" % n) if n else ""


def el_bits(rng, e, kind):
    n = rng.choice([200, 400, 700, 1100, 1600])
    t = e["type"]
    if t == "SCE":
        p = "1" if kind == "lpd" else "0"
    elif t == "CPE":
        p = "11" if kind == "lpd" else "00" if kind == "fd" else rng.choice(["01", "10"])
        if e.get("lpdstereo") and kind == "lpd":
            p = rng.choice(["11", "1"])
    elif t == "LFE":
        p = ""; n = rng.choice([60, 120])
    return p + rb(rng, n)


def frame_bits(rng, els, indep, kinds, extf=None):
    w = BW(); w.u(1 if indep else 0, 1)
    for i, e in enumerate(els):
        if e["type"] == "EXT":
            b = extf(rng, i, e, indep) if extf else None
            if b is None:
                w.u(1, 16); w.u(0, 1)
                continue
            if isinstance(b, bytes):
                b = from_bytes(b)
            n = (len(b) + 7) // 8; b = b + "0" * (8 * n - len(b))
            x = BW(); x.u(1, 1).u(0, 1)
            if n < 255:
                x.u(n, 8)
            else:
                x.u(255, 8).u(n - 253, 16)
            x.s(b)
            w.u(x.n, 16); w.w(x)
        else:
            b = el_bits(rng, e, kinds(rng, i))
            w.u(len(b), 16); w.s(b)
    return w.bytes()


def grow(key, cfg, els, nframes, kinds, opt=None, lo=.003, hi=.7, batch=12, tries=5, extf=None, pindep=.3):
    """-> list of frames, list of independence flags"""
    rng = random.Random(key)
    opt = dict(pcmsz=32, **(opt or {}))
    frames, ind = [], []
    for k in range(nframes):
        best = None
        for t in range(tries):
            f = k == 0 or rng.random() < pindep
            cand = [frame_bits(rng, els, f, kinds, extf) for _ in range(batch)]
            R = vlib.run("plain", [(stream(cfg, frames + [c]), opt) for c in cand])
            for c, I in zip(cand, R.insts):
                if I.bad or I.alarms or not I.cfg or not I.cfg["ch"]:
                    continue
                p = pcm_float(I.pcm, 32, I.cfg["ch"])
                if len(p) < 200:
                    sc = 1
                else:
                    q = np.abs(p[-1024:]).max(axis=0)
                    if not np.isfinite(q).all() or q.max() > hi:
                        continue
                    sc = 1 + (q > lo).mean() * 4 + rng.random() * .5
                if best is None or sc > best[0]:
                    best = (sc, c, f)
            if best and best[0] > 4.5:
                break
        if not best:
            break
        frames.append(best[1]); ind.append(int(best[2]))
    return frames, ind

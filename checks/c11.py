"""C11: the three word lengths carry the same signal; overload saturates."""
from suite import *
LEVEL = "cross-configuration comparison plus saturation oracle from the independent model"


def job(a):
    key, fs, cicp, level = a
    sc = scene(key, fs, cicp, 5, ALL_TOOLS)
    if level:
        set_level(sc, level)
    out = {}
    for w in (16, 24, 32):
        out[w] = run("plain", [(sc["bytes"], dict(pcmsz=w))])
    out["conv"] = None
    r = random.Random(str(key))
    o = r.choice([dict(cicp=2), dict(cicp=1), dict(cicp=6), dict(cicp=12), dict(tl=-10), dict(outfs=48000)])
    conv = {w: run("plain", [(sc["bytes"], dict(o, pcmsz=w))]) for w in (16, 24, 32)}
    return a, sc, out, o, conv


def relate(c, nm, out, b, tag):
    I = {}
    for w in (16, 24, 32):
        R = out[w]
        if not c.judge("%s %d bit" % (nm, w), R, stream_mhas=b):
            return None
        if R.i.bad or R.i.cfg is None:
            return None
        if R.i.cfg["pcm"] != w:
            c.violation("word-length-ignored", "%s: asked for %d bits, reported %d" % (nm, w, R.i.cfg["pcm"]), stream_mhas=b)
            return None
        I[w] = pcm_int_of(R.i, w)
    n = {w: I[w].shape for w in I}
    if len(set(n.values())) != 1:
        c.violation("sizes-differ" + tag, "%s: samples by word length %s" % (nm, n), stream_mhas=b)
        return None
    for w in (16, 24):
        d = np.abs((I[w] << (32 - w)) - I[32])
        m = int(d.max()) if d.size else 0
        c.smax("largest difference in units of the %d-bit step" % w, m / float(1 << (32 - w)))
        if m >= 1 << (32 - w):
            p = np.unravel_index(int(d.argmax()), d.shape)
            c.violation("words-differ%d%s" % (w, tag), "%s: sample %s is %d in %d bit but %d in 32 bit" % (nm, p, I[w][p], w, I[32][p]), stream_mhas=b)
    c.stat("samples compared", int(I[32].size))
    return I


def pcm_int_of(i, w):
    return vlib.pcm_int(i.pcm, w, i.nch)


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c11")
    W = []
    for k in range(200 if th else 44):
        fs = r.choice(FS_ALL)
        W.append(("c11/%s/%d" % (SEED, k), fs, r.choice([1, 2, 2, 3, 6, 7, 12, 14, 19]), r.choice([0, .95, 1.05, 2, 8, 40, 1e-3])))
    for a, sc, out, o, conv in procmap(job, W):
        key, fs, cicp, level = a
        b = sc["bytes"]
        ref = sc["ref"]
        pk = float(np.abs(ref).max())
        nm = "cicp %d %d Hz peak %.2f" % (cicp, fs, pk)
        over = "over" if pk > 1.01 else "under"
        c.saw(b, "fs%d" % fs, "ch%d" % sc["nch"], over, "limiter" if fs == 48000 else "no-limiter")
        I = relate(c, nm, out, b, "")
        if I is not None and fs != 48000:
            for w in (16, 24, 32):
                x = I[w]
                n = min(len(x), len(ref))
                full = 1 << (w - 1)
                eps = 3 + (full >> 20)
                hi, lo = ref[:n] > 1 + 1e-4, ref[:n] < -1 - 1e-4
                c.stat("saturated samples", int(hi.sum() + lo.sum()))
                bad = (hi & (x[:n] < full - eps * 130)) | (lo & (x[:n] > -full + eps * 130)) if w == 32 else \
                    (hi & (x[:n] < full - 2)) | (lo & (x[:n] > -full + 2))
                if bad.any():
                    p = tuple(int(v[0]) for v in np.nonzero(bad))
                    c.violation("saturation%d" % w, "%s: decoded value %.4f of full scale gives code %d in %d bit" % (nm, ref[p], x[p], w), stream_mhas=b)
                # elsewhere each word length equals the model rounded to it
                inside = np.abs(ref[:n]) < 1 - 1e-3
                tol = np.maximum(local_tol(ref[:n], 1e-5, 1e-6), 1.01 / full) * full
                d = np.abs(x[:n] - ref[:n] * full)
                bad = inside & (d > tol + 1)
                if bad.any():
                    p = tuple(int(v[0]) for v in np.nonzero(bad))
                    c.violation("value%d" % w, "%s: decoded value %.6f gives code %d in %d bit" % (nm, ref[p], x[p], w), stream_mhas=b)
        if relate(c, nm + " %s" % o, conv, b, "-conv") is not None:
            c.saw(b + repr(o).encode(), *["opt-" + k for k in o])
    c.rule = "evaluation = one stream decoded at 16, 24 and 32 bits; samples related to each other and to the model"
    c.min_classes = 8

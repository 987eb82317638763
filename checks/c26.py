"""C26: binaural rendering: both ears hear the loudspeaker signals convolved with the supplied impulse responses."""
from suite import *
import brir, drc, objscene
LEVEL = "randomised differential testing against an independent convolution model"
LAYOUTS = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19]


def pow2(n):
    k = 4
    while k < 2 * n:
        k *= 2
    return k // 2


def geo(cicp):
    return [tuple(GEO[s][:3]) for s in CICP[cicp]]


def mapping(spk, bspk):
    out = []
    for g in spk:
        k = [i for i, h in enumerate(bspk) if h == g] or ([i for i, h in enumerate(bspk) if h[2]] if g[2] else [])
        if not k:
            return None
        out.append(k[0])
    return out


def band(h, F, fc):
    """impulse response of F taps limited to the lowest int(fc F) bins of its spectrum over 2F points"""
    H = np.fft.rfft(np.concatenate([h, np.zeros(2 * F - len(h))]))
    k = int(np.float32(min(np.float32(fc), np.float32(1))) * F)
    H[max(1, k):F] = 0
    return H


def render(x, P, m, nout, D):
    """x [samples, channels]; overlap-add of blocks of F samples, every response given by its spectrum over 2F points"""
    F = pow2(P["n"])
    nb = (len(x) + D + F - 1) // F + 1
    x = np.concatenate([np.zeros((D, x.shape[1])), x, np.zeros((nb * F - D - len(x), x.shape[1]))])
    nd = len(P["diffuse"])
    out = np.zeros((2, (nb + nd + 2) * F))
    dsp = [[band(P["direct"][p][e], F, P["dfc"][p][e]) for e in range(2)] for p in range(len(P["direct"]))]
    fsp = [[band(P["diffuse"][j][e], F, P["ffc"][j][e]) for e in range(2)] for j in range(nd)]
    for b in range(nb):
        X = np.fft.rfft(x[b * F:(b + 1) * F], 2 * F, axis=0)
        mixd = sum(X[:, c] * np.float32(P["weight"][m[c]]) for c in range(x.shape[1]))
        for e in range(2):
            Y = sum(X[:, c] * dsp[m[c]][e] for c in range(x.shape[1]))
            out[e, b * F:(b + 2) * F] += np.fft.irfft(Y, 2 * F)
            for j in range(nd):
                out[e, (b + 1 + j) * F:(b + 3 + j) * F] += np.fft.irfft(mixd * fsp[j][e], 2 * F)
    y = out[:, :nout].T
    return y


def draw(key, fs, blay):
    rng = random.Random(str(key))
    rs = np.random.RandomState(rng.getrandbits(31))
    n = rng.choice([1, 2, 3, 17, 60, 64, 100, 128, 255, 256, 257, 500, 512, 900, 1024, 1024, 1500, 2048, 2048, 2049, 4000, 4096, 8191, 8192])
    pairs = len(CICP[blay])
    nd = rng.choice([0, 0, 1, 2])
    env = np.exp(-np.arange(n) / (n / rng.choice([2., 6., 20.])))
    d = rs.standard_normal((pairs, 2, n)) * env
    if rng.random() < .3:
        d *= (rs.rand(pairs, 2, 1) < .7)
    f = rs.standard_normal((nd, 2, n)) * env[-1]
    full = rng.random() < .5
    fc = lambda: 1.0 if full else rng.choice([1.0, 1.5, rng.uniform(.02, 1), rng.uniform(.02, 1), 0.0])
    d *= 2 / (max(1e-9, np.abs(d).sum(axis=2).max()) * pairs ** .5)
    f *= 1 / (max(1e-9, np.abs(f).sum(axis=2).max() if nd else 1) * pairs ** .5)
    d, f = d.astype(np.float32), f.astype(np.float32)
    return dict(n=n, direct=d, diffuse=f, dfc=[[fc(), fc()] for _ in range(pairs)], ffc=[[fc(), fc()] for _ in range(nd)],
                weight=[rng.uniform(-1, 1) for _ in range(pairs)], delay=rng.choice([0, 0, 37, 500]))


def job(a):
    key, fs, cicp, blay, target, frames = a
    rng = random.Random("o%s" % (key,))
    sc = scene(key, fs, cicp, frames, target=.5)
    tl = None
    if target:
        # what the converter puts out before its delay is over is not part of its output: make it silence
        shift_gain(sc["data"][0], 120)
        sc["bytes"] = encode(sc)
    data = sc["bytes"]
    if rng.random() < .25:
        tl = rng.randint(-31, -20)
        el = sc["elements"] + [drc.ele(sc["nch"], [], [])]
        pl = drc.payload([], [], fs)
        cfg = config(fs=fs, level=0x0D, spk=spk_cicp(cicp), groups=[grp_ch(sc["nch"])], elements=el,
                     cfgext=[drc.loudness_ext([dict(meas=((1, -23.0, 2, 3),))])])
        data = encode(dict(sc, cfg=cfg, elements=el, data=[d + [pl] for d in sc["data"]]))
    P = draw(key, fs, blay)
    b = brir.td(fs, blay, P["delay"], P["direct"], P["dfc"], P["diffuse"], P["ffc"], P["weight"])
    o = dict(pcmsz=32)
    if target:
        o["cicp"] = target
    if tl is not None:
        o["tl"] = tl
    R = run("plain", [(data, dict(o, brir=b)), (sc["bytes"], o), (data, dict(o, brir=b, outfs=48000))])
    return a, sc, P, b, tl, R


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c26")
    W = []
    for k in range(900 if th else 90):
        fs = r.choice(FS_ALL + [48000] * 3)
        cicp = r.choice([1, 2, 2, 6, 6, 7, 12, 19] + LAYOUTS)
        conv = r.random() < .3
        tgt = r.choice(LAYOUTS) if conv else 0
        lay = tgt or cicp
        sup = [l for l in LAYOUTS if mapping(geo(lay), geo(l))]
        W.append((("c26", SEED, k), fs, cicp, r.choice(sup), tgt, r.choice([6, 12, 20])))
    for a, sc, P, b, tl, R in procmap(job, W):
        key, fs, cicp, blay, tgt, frames = a
        nm = "layout %d%s at %d Hz, responses of %d samples for layout %d, %d diffuse blocks" % (
            cicp, " to %d" % tgt if tgt else "", fs, P["n"], blay, len(P["diffuse"]))
        f = dict(stream_mhas=sc["bytes"], brir_bin=b, log=R.i.text if R.i else "")
        if not c.judge(nm, R, **f):
            continue
        i, feed, rs = R.insts
        if feed.bad or not len(feed.pcm):
            c.stat("conversions the decoder does not offer")
            continue
        if i.bad or i.cfg is None:
            c.violation("refused", "%s: %s" % (nm, [hex(x) for x in i.bad][:3]), **f)
            continue
        m = mapping(geo(tgt or cicp), geo(blay))
        x = feed.audio()
        skip = 256 if tgt else 0
        x = np.concatenate([np.zeros((256, x.shape[1])), x]) if tgt else sc["ref"]
        F = pow2(P["n"])
        D = min(F, 2048)
        total = frames * 1024
        want = max(0, (total + D) // F * F - skip)
        y = render(x, P, m, want + skip, D)[skip:] * (10 ** ((tl + 23) / 20) if tl is not None else 1)
        nch = set(q["ch"] for q in i.calls if q["kind"] == "exec" and q["out"])
        if nch - {2}:
            c.violation("channels", "%s: audio announced with %s channels" % (nm, nch), **f)
            continue
        z = pcm_float(i.pcm, 32, 2)
        c.saw(b + sc["bytes"], "responses%d" % F, "diffuse%d" % len(P["diffuse"]), "converted" if tgt else "native", "superset" if blay != (tgt or cicp) else "same",
              "limited" if any(v < 1 for q in P["dfc"] for v in q) else "full-band", "loudness" if tl is not None else "plain", str(fs))
        c.stat("samples compared", z.size)
        if len(z) != want:
            c.violation("length", "%s: %d samples instead of %d" % (nm, len(z), want), **f)
            continue
        lim = np.abs(x).max()
        if len(z) and (lim > .85 or np.abs(y).max() > .99):
            c.stat("too loud to compare")
            continue
        # of a converted scene the last, not yet released, samples of the feed are unknown
        known = max(0, min(len(z), (len(x) + D) // F * F - skip)) if tgt else len(z)
        d = compare(z[:known], y[:known], rel=1e-5, floor=3e-8) if known else None
        if len(z):
            c.smax("peak of the output", float(np.abs(y).max()))
        if d:
            c.violation("convolution", "%s: %s" % (nm, d), **f)
        # a rate conversion is not offered for binaural output: same samples, announced at the rate they have
        if same(i, rs, ("pcm",)) or any(q["fs"] != fs for q in rs.calls if q["kind"] == "exec" and q["out"]):
            c.violation("rate", "%s: with another output rate requested the announced rate and the samples disagree" % nm, **f)
    objects(c, r, th)
    reconf(c, r, th)
    unusable(c, r, th)
    c.rule = "evaluation = one stream rendered with one set of responses, every output sample compared with the model"
    c.min_classes = 12


def ujob(a):
    key, fs, cicp, bfs, blay, fir = a
    sc = scene(key, fs, cicp, 4, target=.5)
    P = draw(key, bfs, blay)
    b = brir.fir(bfs, blay, P["direct"][:, :, :300], 1) if fir else brir.td(bfs, blay, P["delay"], P["direct"], P["dfc"], P["diffuse"], P["ffc"], P["weight"])
    return a, sc, b, run("plain", [(sc["bytes"], dict(brir=b))])


def unusable(c, r, th):
    """responses taken at another rate or for other loudspeakers must be refused, not applied"""
    W = []
    for k in range(120 if th else 16):
        fs, cicp = r.choice([48000, 48000, 44100, 32000, 24000]), r.choice([1, 2, 6, 7, 12, 19])
        lays = [l for l in LAYOUTS if not mapping(geo(cicp), geo(l))]
        if k % 2 or not lays:
            W.append((("c26u", SEED, k), fs, cicp, r.choice([x for x in (48000, 44100, 32000, 24000, 16000) if x != fs]), cicp, r.random() < .3))
        else:
            W.append((("c26u", SEED, k), fs, cicp, fs, r.choice(lays), False))
    for (key, fs, cicp, bfs, blay, fir), sc, b, R in procmap(ujob, W):
        nm = "layout %d at %d Hz with responses for layout %d at %d Hz" % (cicp, fs, blay, bfs)
        f = dict(stream_mhas=sc["bytes"], brir_bin=b, log=R.i.text if R.i else "")
        if not c.judge(nm, R, **f):
            continue
        c.saw(b + sc["bytes"], "unusable-rate" if bfs != fs else "unusable-layout")
        if not R.i.bad or R.i.pcm:
            c.violation("unusable-responses-applied", "%s: statuses %s and %d bytes of audio" % (nm, [hex(x) for x in R.i.bad][:3], len(R.i.pcm)), **f)


def ojob(a):
    key, fs, cicp, blay, target, frames, n, bed = a
    sc = objscene.make(key, fs, cicp, n, 1024, 1, 0, frames, .3, bed, spk=CICP[target or cicp])
    P = draw(key, fs, blay)
    b = brir.td(fs, blay, P["delay"], P["direct"], P["dfc"], P["diffuse"], P["ffc"], P["weight"])
    o = dict(pcmsz=32)
    if target:
        o["cicp"] = target
    return a, P, sc, b, run("plain", [(sc["bytes"], dict(o, brir=b)), (sc["bytes"], o)])


def objects(c, r, th):
    W = []
    for k in range(200 if th else 24):
        cicp = r.choice([2, 3, 6, 6, 7, 12, 14, 19])
        bed = r.random() < .5
        tgt = 0 if bed or r.random() < .5 else r.choice([2, 3, 6, 7, 12, 14, 19])
        W.append((("c26o", SEED, k), r.choice([48000, 44100, 32000]), cicp, r.choice([l for l in LAYOUTS if mapping(geo(tgt or cicp), geo(l))]), tgt,
                  r.choice([6, 12]), r.randint(1, 3), bed))
    for a, P, sc, b, R in procmap(ojob, W):
        key, fs, cicp, blay, tgt, frames, n, bed = a
        nm = "%d objects%s, layout %d at %d Hz, responses of %d samples for layout %d" % (n, " over channels" if bed else "", tgt or cicp, fs, P["n"], blay)
        f = dict(stream_mhas=sc["bytes"], brir_bin=b, log=R.i.text if R.i else "")
        if not c.judge(nm, R, **f):
            continue
        i, feed = R.insts
        if feed.bad or not len(feed.pcm):
            c.stat("object scenes the decoder does not offer")
            continue
        if i.bad or i.cfg is None:
            c.violation("refused", "%s: %s" % (nm, [hex(x) for x in i.bad][:3]), **f)
            continue
        if {q["ch"] for q in i.calls if q["kind"] == "exec" and q["out"]} - {2}:
            c.violation("channels", "%s: not two channels" % nm, **f)
            continue
        x = feed.audio()
        F = pow2(P["n"])
        D = min(F, 2048)
        want = (frames * 1024 + D) // F * F
        z = pcm_float(i.pcm, 32, 2)
        c.saw(b + sc["bytes"], "objects over channels" if bed else "objects", "to another layout" if tgt else "own layout", "responses%d" % F)
        if len(z) != want:
            c.violation("length", "%s: %d samples instead of %d" % (nm, len(z), want), **f)
            continue
        y = render(x, P, mapping(geo(tgt or cicp), geo(blay)), want, D)
        if len(z) == 0 or np.abs(x).max() > .85 or np.abs(y).max() > .99:
            c.stat("too loud or too short to compare")
            continue
        known = max(0, min(want, (len(x) + D) // F * F))
        d = compare(z[:known], y[:known], rel=1e-5, floor=3e-8)
        c.stat("samples compared", 2 * known)
        if d:
            c.violation("convolution", "%s: %s" % (nm, d), **f)


def rjob(a):
    key, fs, cicp, blay = a
    A, B = scene((key, 0), fs, cicp, 7, target=.5), scene((key, 1), fs, cicp, 9, target=.5, tools=("win", "ms", "tns"))
    # a configuration that differs in nothing that matters but its bytes
    cfg = config(fs=fs, level=0x0D, spk=spk_cicp(cicp), groups=[grp_ch(B["nch"])], elements=B["elements"], cfgext=[(0, b"\xa5" * 3)])
    B["bytes"] = stream(cfg, B["frames"])
    P = draw(key, fs, blay)
    b = brir.td(fs, blay, P["delay"], P["direct"], P["dfc"], P["diffuse"], P["ffc"], P["weight"])
    o = dict(pcmsz=32, brir=b)
    return a, P, A, B, b, run("plain", [(A["bytes"], o), (B["bytes"], o), (A["bytes"] + B["bytes"], o)])


def reconf(c, r, th):
    W = [(("c26r", SEED, k), r.choice([48000, 44100, 32000]), *r.choice([(2, 2), (6, 6), (2, 6), (6, 12), (1, 5)])) for k in range(60 if th else 12)]
    for a, P, A, B, b, R in procmap(rjob, W):
        nm = "configuration change, layout %d at %d Hz, responses of %d samples" % (a[2], a[1], P["n"])
        f = dict(stream_mhas=A["bytes"] + B["bytes"], brir_bin=b)
        if not c.judge(nm, R, **f):
            continue
        x, y, z = R.insts
        c.saw(b + B["bytes"], "reconfigured", "responses%d" % pow2(P["n"]))
        if z.bad or x.bad or y.bad:
            c.violation("refused", "%s: %s" % (nm, [hex(v) for v in z.bad][:3]), **f)
        elif z.pcm != x.pcm + y.pcm:
            c.violation("reconfiguration", "%s: not the two parts one after the other (%d, %d, %d bytes)" % (nm, len(x.pcm), len(y.pcm), len(z.pcm)), **f)

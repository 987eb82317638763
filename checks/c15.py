"""C15: loudspeaker format conversion and transmitted downmix matrices."""
from suite import *
import fcmodel, oam
LEVEL = "randomised testing against an independent model"
TOOLS = ("win", "shape", "nf", "ms")
OUT = [x for x in CICPS if x not in (13, 20)]     # 13: too many channels, 20: not selectable
IN = [x for x in CICPS if x != 13]


def rescale(sc, m, target=.6):
    """make the converted scene peak below target"""
    for _ in range(4):
        y = fcmodel.convert(sc["ref"], m)
        pk = max(np.abs(y).max(), np.abs(sc["ref"]).max())
        if pk <= target:
            break
        k = int(np.ceil(4 * np.log2(pk / target)))
        for d in sc["data"]:
            shift_gain(d, k)
        sc["ref"] = model_ref(sc)
    return y


def remake(sc, exts):
    """write the configuration again with configuration extensions"""
    sc["cfg"] = config(fs=sc["fs"], level=sc.get("level", 0x0D), spk=spk_cicp(sc["cicp"]), groups=[grp_ch(sc["nch"])], elements=sc["elements"], cfgext=exts)


def bursts(key, cin, fs):
    """each channel alone, with silence in between"""
    rng = random.Random("c15b/%s" % (key,))
    el = layout_elements(cin, force_sce=True)
    spk = CICP[cin]
    n = len(spk)
    data = []
    for f in range(3 * n):
        data.append([(rand_ch(rng, fs, max_sfb=3 if GEO[s][2] else rng.randint(6, 30), gg=rng.randint(138, 142), density=.5)
                      if f == 3 * k else silent_ch(gg=rng.randint(60, 120))) for k, s in enumerate(spk)])
    cfg = config(fs=fs, level=0x0D, spk=spk_cicp(cin), groups=[grp_ch(n)], elements=el)
    sc = dict(cfg=cfg, data=data, indep=[1] + [rng.randint(0, 1) for _ in data[1:]], elements=el, fs=fs, cicp=cin, counts={}, elen=0, nch=n)
    normalise(sc, .4)
    sc["bytes"] = encode(sc)
    return sc


def measure(sc, x, nout):
    """gains of each channel from its burst -> (gains [in, out], worst relative residual)"""
    n = min(len(x), len(sc["ref"]))
    G = np.zeros((sc["nch"], nout)); worst = 0.
    for k in range(sc["nch"]):
        a, b = max(0, 3 * k * 1024 - 400), min(n, (3 * k + 2) * 1024 + 400)
        s, y = sc["ref"][a:b, k], x[a:b]
        e = float(s @ s)
        if e < 1e-12:
            G[k] = np.nan
            continue
        G[k] = s @ y / e
        worst = max(worst, float(np.abs(y - s[:, None] * G[k]).max() / np.abs(s).max()))
    return G, worst


def job(a):
    kind, key, cin, cout, fs, frames = a
    rng = random.Random("c15/%s" % (a,))
    out = dict(a=a)
    if kind == "panned":
        b = bursts(key, cin, fs)
        out["burst"] = b
        out["RB"] = run("plain", [(b["bytes"], dict(pcmsz=32, cicp=cout))])
    sc = scene(("c15", key, cin, cout), fs, cin, frames, target=.15, tools=TOOLS, elements=layout_elements(cin, force_sce=rng.random() < .3))
    opts = dict(pcmsz=32, cicp=cout)
    if kind in ("matrix", "foreign"):
        w, m = fcmodel.random_matrix(rng, cin, cout, fs)
        while w.n > 2040:
            w, m = fcmodel.random_matrix(rng, cin, cout, fs)
        ent = [(cout, w)]
        for o in rng.sample([x for x in OUT if x != cout], rng.randint(0, 3)):
            if rng.random() < .5:
                v = fcmodel.random_matrix(rng, cin, o, fs)[0]
                ent.append((o, v if v.n <= 2040 else None))
            else:
                ent.append((o, None))
        rng.shuffle(ent)
        if kind == "foreign":        # the matrix is for another layout than the one asked for: the rules hold
            ent = [e for e in ent if e[0] != cout] or [(next(x for x in OUT if x != cout), None)]
            m = fcmodel.matrix(cin, cout, fs)
        exts = [(1, fcmodel.downmix_ext(rng, ent))]
        if rng.random() < .3:
            exts.insert(rng.randint(0, 1), (0, b"\xa5" * rng.randint(0, 20)))
        remake(sc, exts)
        out["bits"] = w.n
    elif kind == "native":           # own layout, none asked for: untouched
        w, m = fcmodel.random_matrix(rng, cin, cout, fs)
        if w.n <= 2040:
            remake(sc, [(1, fcmodel.downmix_ext(rng, [(cout, w)]))])
        del opts["cicp"]
        m = None
    else:
        m = fcmodel.matrix(cin, cout, fs)
    if m is not None:
        out["y"] = rescale(sc, m)
    else:
        out["y"] = sc["ref"]
    out["m"] = m
    sc["bytes"] = encode(sc)
    out["sc"] = sc
    out["R"] = run("plain", [(sc["bytes"], opts)])
    return out


_P = {}


def panned(c, nm, G, cin, cout, f):
    """judge measured panning gains"""
    src, dst = CICP[cin], CICP[cout]
    lfe = [i for i, s in enumerate(dst) if GEO[s][2]]
    if cout not in _P:
        try:
            _P[cout] = oam.Panner(dst)
        except Exception:
            _P[cout] = None
    for k, s in enumerate(src):
        g = G[k]
        if not np.isfinite(g).all():
            c.stat("bursts without signal")
            continue
        if GEO[s][2] and lfe:
            if abs(g[lfe[0]] - 1) > 1e-3 or np.abs(np.delete(g, lfe[0])).max(initial=0) > 1e-3:
                c.violation("lfe", "%s: low frequency channel %d plays with gains %s" % (nm, s, np.round(g, 4)), **f)
            c.stat("low frequency channels checked")
            continue
        if lfe and np.abs(g[lfe]).max() > 1e-3:
            c.violation("into-lfe", "%s: channel %d plays from an LFE: %s" % (nm, s, np.round(g, 4)), **f)
        p = float((g ** 2).sum())
        if abs(p - 1) > 3e-3:
            c.violation("power", "%s: channel %d: power %.4f instead of 1" % (nm, s, p), **f)
        if g.min() < -1e-3 or ((g > 1e-3) & (g < .3 - 1e-3)).any() and g.max() > .31:
            c.violation("threshold", "%s: channel %d: gains %s" % (nm, s, np.round(g, 4)), **f)
        c.stat("panned channels checked")
        if s in dst and not GEO[s][2]:
            if abs(g[dst.index(s)] - 1) > 1e-3:
                c.violation("same-position", "%s: channel %d has a loudspeaker but plays with gains %s" % (nm, s, np.round(g, 4)), **f)
            c.stat("channels at a loudspeaker")
        pan = _P[cout]
        d = pan.look(GEO[s][0], GEO[s][1]) if pan else (None,)
        if d[0] == "exact":
            e = d[1].copy()
            if np.abs(e - .3).min() > .005:
                t = np.where(e <= .3, 0, e)
                t = t / np.sqrt((t ** 2).sum())
                w = np.zeros(len(dst)); w[pan.idx] = t
                if np.abs(w - g).max() > 3e-3:
                    c.violation("panning", "%s: channel %d plays with gains %s instead of %s" % (nm, s, np.round(g, 4), np.round(w, 4)), **f)
                c.stat("panned channels compared with the panning model")


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c15")
    W = []
    for rep in range(3 if th else 1):
        for cin in IN:
            for cout in OUT:
                m = fcmodel.matrix(cin, cout, 48000)
                for fs in (FS_ALL if th and rep == 0 else [r.choice(FS_ALL + [48000] * 3)]):
                    W.append(("rules" if m is not None else "panned", (SEED, rep, fs), cin, cout, fs, 4 if th else 3))
        for k in range(600 if th else 150):
            cin, cout = r.choice([x for x in IN if x not in (20,)]), r.choice(OUT)
            if k % 5 == 0:
                cin, cout = r.choice([(12, 6), (14, 6), (7, 6)])
            if cin == cout:
                continue
            W.append(("matrix", (SEED, rep, k, "m"), cin, cout, r.choice(FS_ALL + [48000] * 3), 3))
        for k in range(20):
            cin, cout = r.choice(IN), r.choice(OUT)
            if cin == cout or fcmodel.matrix(cin, cout, 48000) is None:
                continue
            W.append(("foreign", (SEED, rep, k, "f"), cin, cout, r.choice(FS_ALL), 3))
        for k in range(8):
            cin = r.choice([x for x in IN if x != 20])
            W.append(("native", (SEED, rep, k, "n"), cin, cin, r.choice(FS_ALL), 3))
    for o in procmap(job, W):
        kind, key, cin, cout, fs, frames = o["a"]
        sc, R, y = o["sc"], o["R"], o["y"]
        nm = "%s layout %d -> %d, %d Hz" % (kind, cin, cout, fs)
        f = dict(stream_mhas=sc["bytes"], log=R.i.text if R.i else "")
        if not c.judge(nm, R, **f):
            continue
        i = R.i
        if i.bad or i.cfg is None:
            c.violation("refused", "%s: %s" % (nm, [hex(x) for x in i.bad][:3]), **f)
            continue
        n = len(CICP[cout])
        if i.nch != n or i.fs != fs:
            c.violation("format", "%s: %d channels at %d Hz" % (nm, i.nch, i.fs), **f)
            continue
        c.saw(sc["bytes"], kind, "to%d" % cout, "from%d" % cin, str(fs))
        x = i.audio()
        if kind == "panned":
            b, RB = o["burst"], o["RB"]
            fb = dict(stream_mhas=b["bytes"], log=RB.i.text if RB.i else "")
            if not c.judge(nm + " bursts", RB, **fb):
                continue
            if RB.i.bad or RB.i.nch != n:
                c.violation("refused", "%s: %s" % (nm, [hex(v) for v in RB.i.bad][:3]), **fb)
                continue
            G, res = measure(b, RB.i.audio(), n)
            if res > 1e-4:
                c.violation("burst-residual", "%s: a channel alone is not reproduced with constant gains (residual %.3g)" % (nm, res), **fb)
                continue
            panned(c, nm, G, cin, cout, fb)
            if not np.isfinite(G).all():
                continue
            y = fcmodel.convert(sc["ref"], np.repeat(G[None], 257, axis=0))
            k = min(len(x), len(y)) - 512
            d = compare(x[:k], y[:k], rel=2e-4, floor=2e-6)
            if d:
                c.violation("mixture", "%s: %s" % (nm, d), **f)
            c.stat("panned scenes compared with the model")
            continue
        k = min(len(x), len(y)) - 512
        if kind == "native":
            k += 512
        if k < 1024:
            c.violation("short", "%s: %d samples of output" % (nm, len(x)), **f)
            continue
        d = compare(x[:k], y[:k], rel=4e-5, floor=1e-6)
        if d:
            c.violation(kind, "%s: %s" % (nm, d), **f)
        c.stat({"rules": "layout pairs compared with the model", "matrix": "transmitted matrices compared with the model",
                "foreign": "matrices for other layouts", "native": "streams in their own layout"}[kind])
        c.stat("samples compared", k * n)
        c.sample(nm)
    c.rule = "evaluation = one scene converted to another layout, every output sample compared with the model"
    c.min_classes = 30

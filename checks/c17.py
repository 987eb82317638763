"""C17: HOA scenes: every coding of a scene gives the coefficients of an independent spatial decoder, rendered by one matrix per
layout that is mirror-symmetric, keeps the level and points where the plane wave comes from."""
from suite import *
import struct
from hoa import *
LEVEL = "model-based monitoring: independent spatial decoder, measured rendering matrices judged by geometry"
LAYOUTS = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19]
BOOKS = (0, 1, 2, 3, 7)


def conditioned(H, c):
    """the sum of the code vectors is exactly zero or not nearly so"""
    if len(c["idx"]) == 1:
        return True
    B = codebook(c["book"], H.order)[0]
    W = TAB["weights"].astype(np.float64).reshape(256, 8)[c["w"]]
    p = [B[i] * (1 if s else -1) * W[j if j < 8 else 6 + j % 2] for j, (i, s) in enumerate(zip(c["idx"], c["sgn"]))]
    t, q = np.abs(sum(p)).max(), sum(np.abs(x).max() for x in p)
    return t > .03 * q or (t == 0 and len(p) == 2)


def vec_entry(rng, H, n, indep, prevn):
    c = dict(t=VEC, n=n)
    if n == 4:
        ne = rng.randint(1, min(1 << H.vqbits, 16))
        b = rng.choice(BOOKS)
        for _ in range(20):
            c.update(book=b, idx=[rng.randrange(len(codebook(b, H.order)[0])) for _ in range(ne)], sgn=[rng.randint(0, 1) for _ in range(ne)],
                     w=rng.randrange(256))
            if conditioned(H, c):
                break
        else:
            c.update(idx=c["idx"][:1], sgn=c["sgn"][:1])
    elif n == 5:
        c.update(q=[rng.randrange(256) for _ in range(H.K)])
    else:
        lim = (1 << (n - 1)) - 1
        small = rng.random() < .5
        v = [0 if small and rng.random() < .5 else rng.randint(-lim, lim) for _ in range(H.K)]
        c.update(v=v, cb=rng.randint(0, 1))
        if not indep and prevn and rng.random() < .5:
            c["p"] = 1
            c["v"] = [x // 4 for x in v]
    return c


def hoa_frames(rng, H, F, fixed=None, gains=True, switch=True, still=False):
    """-> (independence flags, channel entries per frame, predictions per frame)"""
    free = list(range(H.nmin + 1, (H.maxorder + 1) ** 2 + 1))
    kinds = []
    for k in range(H.nadd):
        kinds.append(fixed if fixed is not None else rng.choice([DIR, VEC, AMB, VEC, DIR]))
    owner = {}
    inds, chs, preds = [], [], []
    prev = [None] * H.nadd
    lastst = {k: None for k in range(H.nadd)}
    for f in range(F):
        ind = 1 if f == 0 or rng.random() < .3 else 0
        row = []
        used = {c["c"] for c in prev if c and c["t"] == AMB}
        for k in range(H.nadd):
            p = prev[k]
            kind = kinds[k]
            if switch and fixed is None and f and rng.random() < .2 and not (p and p["t"] == AMB and p["st"] != 2):
                kind = kinds[k] = rng.choice([DIR, VEC, AMB, OFF])
            if kind == AMB:
                if p and p["t"] == AMB and p["st"] != 2:
                    c = dict(t=AMB, c=p["c"], st=2 if rng.random() < .25 and switch and f > 1 else 0)
                else:
                    can = [x for x in free if x not in used]
                    if not can or not (ind or lastst[k] == 2):
                        c = dict(t=OFF)
                        kinds[k] = OFF
                    else:
                        c = dict(t=AMB, c=rng.choice(can), st=1 if f else 0)
                        used.add(c["c"])
                if c["t"] == AMB:
                    lastst[k] = c["st"]
            elif kind == DIR:
                c = dict(t=DIR, id=p["id"] if p and p["t"] == DIR and (still or rng.random() < .4) else 0 if rng.random() < .06 else rng.randint(1, 900))
            elif kind == VEC:
                was = p and p["t"] == VEC
                n = rng.choice([4, 4, 5, 5] + list(range(6, 16)))
                if was and (rng.random() < .25 or still) and not ind:
                    n = p["n"]
                    c = vec_entry(rng, H, n, 1, None)
                    c["same"] = 1
                    if n == 4:
                        c["book"], m = p["book"], len(p["idx"])
                        for _ in range(20):
                            c["idx"] = [rng.randrange(len(codebook(c["book"], H.order)[0])) for _ in range(m)]
                            c["sgn"] = [rng.randint(0, 1) for _ in range(m)]
                            if conditioned(H, c):
                                break
                        else:
                            c["idx"], c["sgn"], c["w"] = list(p["idx"]), list(p["sgn"]), p["w"]
                    elif n >= 6:
                        c["cb"], c["p"] = p["cb"], p.get("p", 0)
                        if c["p"]:
                            c["v"] = [x // 4 for x in c["v"]]
                else:
                    c = vec_entry(rng, H, n, ind, was)
                if H.vlen == 1:
                    c["new"] = int(bool(p and p["t"] != VEC)) if not ind else rng.randint(0, 1)
            else:
                c = dict(t=OFF)
            row.append(c)
        row += [{} for _ in range(H.ntc - H.nadd)]
        for c in row:
            c["pe"] = 0
        if gains:
            for c in row:
                c["g"] = rng.choice([0, 0, 0, -1, 1, 2]) if rng.random() < .5 else 0
                c["ex"] = int(rng.random() < .3)
        dirs = [k for k in range(H.nadd) if row[k]["t"] == DIR]
        pr = None
        if dirs and H.single and rng.random() < .5:
            pr = {g: [(rng.choice(dirs), rng.randrange(1 << H.sfbits)) for _ in range(H.preddir)] for g in range(H.K) if rng.random() < .4}
            if pr:
                last = max(pr)
                pr[last] = pr[last][:rng.randint(1, H.preddir)]
                if rng.random() < .5:
                    pr["list"] = True
            pr = pr or None
        inds.append(ind); chs.append(row); preds.append(pr)
        prev = row[:H.nadd]
    # running gains as previous exponents of independent frames
    e = [0] * H.ntc
    for f in range(F):
        for k in range(H.ntc):
            c = chs[f][k]
            if gains and not -4 < e[k] - c.get("g", 0) < H.maxgain:
                c["g"] = 0
            c["pe"] = e[k]
            e[k] -= c.get("g", 0)
    return inds, chs, preds


def build(seed, H, inds, chs, preds, cicp, fs, level=.02, cfgext=None):
    rng = random.Random("%s" % (seed,))
    F = len(inds)
    H.reset()
    el = [dict(type="SCE") for _ in range(H.ntc)] + [H.ele()]
    cfg = config(fs=fs, level=0x0D, spk=spk_cicp(cicp), groups=[grp_hoa(H.ntc)], elements=el, cfgext=cfgext)
    data = []
    for f in range(F):
        row = [rand_ch(rng, fs, max_sfb=rng.randint(20, 34), gg=rng.randint(128, 132), density=.5, sfvar=2) for _ in range(H.ntc)]
        data.append(row + [H.frame(inds[f], chs[f], preds[f])])
    sc = dict(cfg=cfg, data=data, indep=inds, elements=el, fs=fs, cicp=cicp, counts={}, elen=0, nch=H.ntc)
    m = dict(sc, elements=el[:-1], data=[d[:-1] for d in data])
    ref = model_ref(m)
    for rnd in range(6):
        H.reset()
        co = np.concatenate([H.coefs(inds[f], chs[f], ref[f * 1024:(f + 1) * 1024], preds[f]) for f in range(F)])
        pk = max(np.abs(ref).max(), np.abs(co).max() / 4)
        k = int(np.ceil(4 * np.log2(max(1e-9, pk / level))))
        if k <= 0:
            break
        for d in m["data"]:
            shift_gain(d, k)
        ref = model_ref(m)
    sc["bytes"] = encode(sc)
    sc["co"] = nfc(co, H.order, fs, H.nfc, 2.) if H.nfc and H.nfc > 2 else co
    return sc


def ident(order, cicp, fs):
    K = (order + 1) ** 2
    ntc = min(8, max(4, K))
    F = 6 + 3 * K // ntc
    H = Hoa(order=order, ntc=ntc, minamb=-1)
    rng = random.Random(9)
    chs = [[dict(t=VEC, n=5, q=[rng.randrange(256) for _ in range(K)]) for k in range(ntc)] for f in range(F)]
    return build("ident", H, [1] * F, chs, [None] * F, cicp, fs)


def classes(H, inds, chs, preds):
    out = {"order%d" % H.order, "interp%d-%d" % (H.interp, H.method), "veclen%d" % H.vlen, "minamb%d" % H.minamb}
    if H.nfc:
        out.add("nfc" if H.nfc > 2 else "nfc-near")
    p = None
    for f in range(len(inds)):
        for k in range(H.ntc):
            c = chs[f][k]
            if k < H.nadd:
                t = c["t"]
                if t == VEC:
                    out.add("vec-book%d" % c["book"] if c["n"] == 4 else "vec-%d-bit" % (8 if c["n"] == 5 else c["n"]))
                    for x in ("same", "p", "cb"):
                        if c.get(x):
                            out.add("vec-" + x)
                if t == AMB:
                    out.add("amb-state%d" % c["st"])
                if p and p[k]["t"] != t:
                    out.add("type-%d-to-%d" % (p[k]["t"], t))
            if c.get("g"):
                out.add("gain%+d%s" % (c["g"], "x" if c.get("ex") else ""))
        if preds[f]:
            out.add("prediction%d" % H.preddir)
            if preds[f].get("list") and len(preds[f]) - 1 <= 1 << H.numidbits:
                out.add("prediction-list")
        out.add("dependent" if not inds[f] else "independent")
        p = chs[f]
    return out


def rand_hoa(rng, order):
    K = (order + 1) ** 2
    lim = 10
    ntc = rng.randint(max(2, min(4, K)), lim)
    mx = int(np.floor(np.sqrt(ntc))) - 1
    minamb = rng.choice([-1] + list(range(0, min(mx, order) + 1)))
    if (minamb + 1) ** 2 >= K:
        minamb = -1
    maxorder = rng.randint(max(minamb, 0) + (1 if minamb >= 0 else 0), order) if minamb < order else order
    H = Hoa(order=order, ntc=ntc, minamb=minamb, interp=rng.randrange(8), method=rng.randint(0, 1), vlen=rng.choice([0, 0, 1, 2]),
            maxgain=rng.randint(3, 6), maxorder=max(maxorder, 1), preddir=rng.randint(1, 4), sfbits=rng.randint(1, 10), single=rng.choice([1, 1, 1, 0]))
    if order <= 2 and rng.random() < .35:
        H.nfc = struct.unpack("<f", struct.pack("<f", rng.choice([.5, 2, 2.5, 3, 5, 20])))[0]
    H.vqbits = rng.randint(0, min(3, (1 << clog2(clog2(H.K + 1))) - 1))
    return H


def job(a):
    key, order, cicp, fs, F, kw, opt = a
    rng = random.Random("c17/%s" % (key,))
    M = None
    if kw is None:
        sc = ident(order, cicp, fs)
        cls = {"identification"}
        H = None
    else:
        H = rand_hoa(rng, order)
        inds, chs, preds = hoa_frames(rng, H, F, **{k: v for k, v in kw.items() if k != "matrix"})
        M = ext = None
        if kw.get("matrix"):
            out = opt.get("cicp", cicp)
            ext, M = matrix_ext(rng, order, out, rng.sample([x for x in LAYOUTS if x != out], rng.randint(0, 3)))
        sc = build(key, H, inds, chs, preds, cicp, fs, cfgext=[(4, ext)] if ext else None)
        cls = classes(H, inds, chs, preds)
    o = dict(opt, pcmsz=32)
    R = run("plain", [(sc["bytes"], o)], timeout=120)
    return a, sc["bytes"], sc["co"], cls, R, M, (None if H is None else {k: v for k, v in H.__dict__.items() if isinstance(v, (int, bool, float))})


def geo(c):
    return np.array([GEO[s] for s in T["cicp"][str(c)]], float)


def cart(az, el):
    az, el = np.deg2rad(az), np.deg2rad(el)
    return np.stack([np.cos(az) * np.cos(el), np.sin(az) * np.cos(el), np.sin(el)], -1)


def mirror(c):
    g = geo(c)
    lfe = g[:, 2] > 0
    P = cart(g[:, 0], g[:, 1])
    return [int(np.argmin(np.abs(cart(-g[i, 0], g[i, 1]) - P).sum(1) + 10 * (lfe != lfe[i]))) for i in range(len(g))]


def judge_matrix(c, order, cicp, D, f, gold):
    """the rendering matrix of a layout against its geometry and the recorded one"""
    nm = "order %d, layout %d" % (order, cicp)
    g = geo(cicp)
    lfe = g[:, 2] > 0
    P = cart(g[:, 0], g[:, 1])
    top = np.abs(D).max()
    if lfe.any() and np.abs(D[:, lfe]).max() > 1e-6 * top:
        c.violation("lfe", "%s: the scene is played on the LFE" % nm, **f)
    sg = np.array([-1 if m < 0 else 1 for n in range(order + 1) for m in range(-n, n + 1)])
    mir = np.abs(D * sg[:, None] - D[:, mirror(cicp)]).max() / top
    c.smax("left/right difference", mir)
    if mir > (.1 if order == 2 else 5e-3):
        c.violation("mirror", "%s: the mirrored scene is not rendered mirrored (difference %.3g)" % (nm, mir), **f)
    S = np.where(~lfe)[0]
    flat = order == 2 and cicp in (16, 17)
    for az in range(-180, 180, 5):
        d = cart(az, 0)
        G = sh(order, np.deg2rad(az), 0., 1.)[0] @ D
        E = (G[S] ** 2).sum()
        c.smax("plane wave energy", E)
        c.smin("plane wave energy (least)", E)
        c.stat("plane waves judged")
        if not .4 < E < 2.2:
            c.violation("energy", "%s: plane wave from %d degrees has %.3g of its energy" % (nm, az, E), **f)
        if flat:
            continue
        k = S[np.argmax(np.abs(G[S]))]
        ang = np.rad2deg(np.arccos(np.clip(P @ d, -1, 1)))
        if ang[k] - ang[S].min() > 55 or (ang[S] < ang[k] - 1e-3).sum() > 5:
            c.violation("direction", "%s: plane wave from %d degrees is loudest at loudspeaker %d, %.0f degrees away (nearest %.0f)" % (
                nm, az, k, ang[k], ang[S].min()), **f)
    if gold is not None:
        e = np.abs(D - gold).max() / np.abs(gold).max()
        c.smax("difference from the recorded matrix", e)
        if not e < 1e-3:
            c.violation("matrix", "%s: rendering matrix differs from the recorded one by %.3g" % (nm, e), **f)


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c17")
    gold = dict(np.load(os.path.join(vlib.ROOT, "golden", "C17.npz")))
    W = [((SEED, "i", o, l), o, l, 48000, 0, None, {}) for o in range(1, 7) for l in LAYOUTS]
    for k in range(40 if th else 12):
        o, l = r.randint(1, 4), r.choice(LAYOUTS)
        W.append(((SEED, "t", k), o, l, r.choice([48000, 44100, 32000, 24000]), 0, None, dict(cicp=r.choice(LAYOUTS))))
    for k in range(4000 if th else 400):
        o = [1, 2, 3, 4, 2, 3, 1, 3, 5, 6][k % 10]
        kw = dict(switch=k % 3 != 0, gains=k % 4 != 1)
        if k % 9 == 0:
            kw["fixed"] = r.choice([DIR, VEC, AMB])
        if k % 6 == 1:
            kw["matrix"] = True
        W.append(((SEED, k), o, r.choice(LAYOUTS), r.choice([48000] * 3 + [44100, 32000, 24000]), 10, kw, dict(cicp=r.choice(LAYOUTS)) if k % 8 == 7 else {}))
    mats = {}
    for a, bs, co, cls, R, M, h in procmap(job, W):
        key, o, l, fs, F, kw, opt = a
        out = opt.get("cicp", l)
        nm = "order %d, layout %d%s, %d Hz, %s" % (o, l, "" if out == l else " -> %d" % out, fs, "identification" if kw is None else h)
        f = dict(stream_mhas=bs, log=R.i.text if R.i else "")
        if not c.judge(nm, R, **f):
            continue
        i = R.i
        if i.bad or i.cfg is None:
            c.violation("refused", "%s: %s" % (nm, [hex(x) for x in i.bad][:3]), **f)
            continue
        if i.nch != len(CICP[out]) or i.fs != fs:
            c.violation("format", "%s: %d channels at %d Hz" % (nm, i.nch, i.fs), **f)
            continue
        x = i.audio()
        m = min(len(x), len(co))
        if len(co) - m > 512 or m == 0:
            c.violation("short", "%s: %d of %d samples" % (nm, len(x), len(co)), **f)
            continue
        c.saw(bs, "to%d" % out, str(fs), *cls)
        c.sample(nm)
        c.stat("samples compared", m * i.nch)
        if kw is None:
            D = np.linalg.lstsq(co[:m], x[:m], rcond=1e-9)[0]
            e = np.abs(x[:m] - co[:m] @ D).max() / max(np.abs(x[:m]).max(), 1e-6)
            c.smax("residual of the identification", e)
            if not e < 2e-5:
                c.violation("identify", "%s: the output is not one matrix times the scene (residual %.3g)" % (nm, e), **f)
                continue
            judge_matrix(c, o, out, D, f, gold["%d_%d" % (o, out)])
            if not opt:
                mats[o, l] = D
            else:
                c.stat("scenes played on another layout")
            continue
        D = mats.get((o, out))
        if M is not None:
            D = M
            c.stat("transmitted rendering matrices")
            c.saw(bs, "transmitted-matrix")
        if D is None:
            continue
        y = co[:m] @ D
        e = np.abs(x[:m] - y)
        rel = e.max() / np.abs(y).max()
        c.smax("difference from the model" + (" (nfc)" if h.get("nfc") else ""), rel)
        c.stat("coded scenes compared with the model")
        if not rel < (2e-4 if h.get("nfc") else 3e-5):
            n = int(np.argmax(e.max(1)))
            c.violation("coding", "%s: frame %d: differs from the independent decoder by %.3g" % (nm, n // 1024, rel), **f)
    c.rule = "evaluation = one coded HOA scene, every output sample compared with the independently decoded coefficients times the layout's matrix"
    c.min_classes = 60

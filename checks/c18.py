"""C18: loudness normalisation and dynamic range gains."""
from suite import *
import drc
LEVEL = "randomised testing against an independent model"
TOOLS = ("win", "shape", "nf", "ms")
REQ = {0: (0, 6, 1, 2, 3, 4), 1: (1, 6, 2, 3, 4, 5), 2: (2, 6, 1, 3, 4, 5), 3: (3, 6, 1, 2, 4, 5), 4: (4, 6, 2, 1, 3, 5), 5: (5, 6, 1, 2, 3, 4),
       6: (6, 1, 2, 3, 4, 5), 7: (6, 1, 2, 3, 4, 5), 8: (6, 1, 2, 3, 4, 5)}
LEVELS = [drc.NIGHT, drc.NOISY, drc.LIMITED, drc.LOWLEVEL, drc.DIALOG, drc.GENERAL, drc.EXPAND, drc.ARTISTIC]


def loudness_of(infos, sid, req=0):
    """program loudness in dB that holds for a DRC set, None if unknown"""
    for d, s in ((req, sid), (0x7F, sid), (req, 0x3F), (req, 0), (0x7F, 0x3F), (0x7F, 0), (0, sid), (0, 0x3F), (0, 0)):
        for i in infos:
            if i.get("dmx", 0) == d and i.get("sid", 0) == s and not i.get("type"):
                for method in (1, 2):       # program loudness before anchor loudness, BS.1770-4 before other systems
                    ms = [m for m in i["meas"] if m[0] == method]
                    for m in sorted(ms, key=lambda m: m[2] != 2):
                        return m[1]
    return None


def peak_of(infos, ins, sid):
    """(peak in dB, is it stated)"""
    for s in (sid, 0x3F):
        for i in infos:
            if i.get("dmx", 0) == 0 and i.get("sid", 0) == s and not i.get("type"):
                for k in ("true", "sample"):
                    if i.get(k) is not None:
                        return i[k], True
    if ins and ins["peak"] is not None:
        return -ins["peak"] * .125, True
    return 0., False


def effects_of(ins, byid):
    e = ins["effect"] if ins else 0
    d = byid[ins["depends"]]["effect"] if ins and ins["depends"] is not None else 0
    return e, d


def select(instr, infos, tl, effect):
    """-> (instruction or None, loudness gain in dB, ambiguous) for a target loudness and an effect request"""
    byid = {i["sid"]: i for i in instr}
    C = []
    for ins in instr + [None]:
        if ins is not None:
            if ins["effect"] == 0 or ins["effect"] in (drc.FADE, drc.DUCK_OTHER, drc.DUCK_SELF):
                continue
            if ins["depends"] is None and ins["noindep"]:
                continue
        sid = ins["sid"] if ins else 0
        L = loudness_of(infos, sid)
        g = 0. if L is None else tl - L
        pk, known = peak_of(infos, ins, sid)
        out = pk + g
        match = False
        if ins and ins["tl"] is not None:
            hi = ins["tl"][0]
            lo = ins["tl"][1] if ins["tl"][1] is not None else -63
            if hi >= tl > lo:
                match = True
                if not known:
                    out = tl - hi
            if not match and not known:
                continue
        C.append(dict(ins=ins, g=g, pk=out, match=match, known=known, sid=sid))
    keep = [x for x in C if (x["match"] and not x["known"]) or x["pk"] <= 0]
    if not keep:
        keep = [x for x in C if x["match"] and x["known"]]
        if not keep:
            lo = min(x["pk"] for x in C)
            keep = [x for x in C if x["pk"] < lo + 1]
    C = keep
    near = any(abs(x["pk"]) < 1e-3 and x["pk"] != 0 for x in C)
    for e in REQ[effect if effect is not None else 0]:
        if e == 0:
            K = [x for x in C if not (x["ins"] and x["ins"]["effect"] & sum(LEVELS))]
        else:
            K = [x for x in C if sum(effects_of(x["ins"], byid)) and (effects_of(x["ins"], byid)[0] | effects_of(x["ins"], byid)[1]) & (1 << (e - 1))]
        if K:
            C = K
            break
    low = min(x["pk"] for x in C)
    if low > 0:
        C = [x for x in C if x["pk"] == low]
    else:
        C = [x for x in C if x["pk"] <= 0]
        C = [x for x in C if not x["ins"] or x["ins"]["dmx"] == 0] or C         # those made for the layout, before those for any

        def count(x):
            a, b = effects_of(x["ins"], byid)
            return sum(1 for v in LEVELS if v != drc.GENERAL and (a | b) & v)
        m = min(count(x) for x in C)
        C = [x for x in C if count(x) == m]
        n = [x for x in C if not x["match"]]
        if n:
            C = n
        else:
            h = min(x["ins"]["tl"][0] for x in C)
            C = [x for x in C if x["ins"]["tl"][0] == h]
        p = max(x["pk"] for x in C)
        C = [x for x in C if x["pk"] == p]
    C.sort(key=lambda x: x["sid"])
    return C[-1]["ins"], C[-1]["g"]


def law(ins, s, lng):
    m = ins["mods"].get(s, {})
    att, amp = m.get("att", 8) * .125, m.get("amp", 8) * .125
    off = 0. if "off" not in m else m["off"] * .25

    def f(db):
        v = 2 ** (db * (amp if db >= 0 else att) / 6) * 2 ** (off / 6)
        if ins["effect"] == drc.CLIPPING and ins["peak"] is not None:
            v = min(1., v * 2 ** (max(0., ins["peak"] * .125 - lng) / 6))
        return v
    return f


def gains(nch, gsets, instr, ins, seqs, fs, lng, n):
    """linear gain [n, nch] of the selected set and of the one it depends on"""
    G = np.full((n, nch), 10 ** (lng / 20))
    byid = {i["sid"]: i for i in instr}
    todo = [] if ins is None else [ins] + ([byid[ins["depends"]]] if ins["depends"] is not None else [])
    t = np.arange(n) - 1024
    for i in todo:
        for s in drc.groups_of(i):
            g = gsets[s]
            T, V = drc.curve(g, [q[s][0] for q in seqs], fs, law(i, s, lng))
            c = np.interp(t, T, V)
            for k in range(nch):
                if i["dmx"] == 0x7F or i["sets"][k] == s:
                    G[:, k] *= c
    return G


def rand_seqs(rng, g, fs, frames):
    """gain sequences of all frames of one gain set"""
    if g["profile"] == 3:           # constant: nothing is transmitted
        return [0.] * frames
    lo, hi = {0: (-24, 12), 1: (-30, 0), 2: (-24, 0)}[g["profile"]]
    q = lambda v: max(lo, min(hi, round(v * 8) / 8))
    deltas = [v for _, _, v in (drc.DELTA2 if g["profile"] == 2 else drc.DELTA01)]
    N = 1024 // drc.delta_tmin(fs)
    out, free = [], None            # free: first time of the previous frame that is still open
    for f in range(frames):
        first = q(rng.uniform(lo, hi)) if rng.random() < .8 else 0.
        if rng.random() < .3:
            out.append(first)
            free = None
            continue
        end = g["full"] or rng.random() < .5
        k = min(rng.choice([1, 2, 2, 3, 5, 8, 16, 28]), N)
        ts = sorted(rng.sample(range(1, N), min(k, N - 1))) if k else []
        if end:
            ts = ts[:k - 1] + [N]
        elif rng.random() < .2:
            ts[-1] = N
        if end and free is not None and free < N and rng.random() < .5:
            late = sorted(rng.sample(range(free + 1, N + 1), min(rng.choice([1, 2, 4]), N - free)))
            ts = [t - N for t in late] + ts
        v, nodes = first, []
        for j, t in enumerate(ts):
            if j:
                d = [x for x in deltas if lo <= v + x <= hi] or [0.]
                v = round((v + rng.choice(d)) * 8) / 8
            nodes.append((t, v))
        out.append((nodes, bool(end)))
        free = None if ts[-1] == N else ts[-1]
    return out


def draw(rng, nch, fs, frames, kind):
    ng = rng.randint(1, 4)
    gsets = [drc.gain_set(profile=rng.choice([0, 0, 0, 1, 1, 2, 2, 3]), full=rng.choice([1, 1, 0]), align=rng.randint(0, 1), char=rng.randint(0, 11)) for _ in range(ng)]
    instr, sids = [], rng.sample(range(1, 32), 6)
    ni = rng.choice([1, 1, 2, 3, 4, 5])

    def sets_():
        if rng.random() < .4:
            return [rng.randrange(ng)] * nch
        return [rng.randrange(-1, ng) for _ in range(nch)]
    for k in range(ni):
        e = 0
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            e |= rng.choice(LEVELS)
        s = sets_()
        if max(s) < 0:
            s[0] = 0
        dmx = 0
        if rng.random() < .25:
            dmx, s = 0x7F, [rng.randrange(ng)]
        dep = None
        noind = 0
        base = [i for i in instr if i["depends"] is None]
        if dmx and base and rng.random() < .5:
            dep = rng.choice(base)["sid"]
        elif ni > 1 and rng.random() < .15:
            noind = 1
        if rng.random() < .12:
            e = drc.CLIPPING
        mods = {}
        for x in set(v for v in s if v >= 0):
            m = {}
            if rng.random() < .3:
                m.update(att=rng.randint(0, 15), amp=rng.randint(0, 15))
            if rng.random() < .3:
                m["off"] = rng.choice([-1, 1]) * rng.randint(1, 24)
            mods[x] = m
        tl = None
        if rng.random() < .25:
            hi = rng.randint(-40, 0)
            tl = (hi, rng.choice([None, rng.randint(-63, hi - 1)]))
        instr.append(drc.instruction(sids[k], e, s, dmx=dmx, peak=rng.choice([None, None, rng.randint(0, 100)]), tl=tl, depends=dep, noindep=noind, mods=mods))
    rng.shuffle(instr)
    infos = []
    for sid in [0] + sids[:ni] + [0x3F]:
        if rng.random() < (.85 if sid == 0 else .4):
            ms = [(rng.choice([1, 1, 1, 2]), rng.randint(-160, -20) / 4, rng.choice([1, 2, 2, 4, 5]), rng.randint(0, 3))]
            if rng.random() < .3:
                ms.append((2 if ms[0][0] == 1 else 1, rng.randint(-160, -20) / 4, 1, 3))
            if rng.random() < .3:
                ms.append((ms[0][0], rng.randint(-160, -20) / 4, 1 if ms[0][2] == 2 else 2, 3))
            for x in rng.sample([3, 4, 5], rng.choice([0, 0, 1, 2])):
                ms.append((x, rng.randint(-80, -10) / 4, rng.choice([1, 2]), 3))
            rng.shuffle(ms)
            infos.append(dict(sid=sid, dmx=0x7F if rng.random() < .1 else 0, meas=ms, sample=rng.choice([None, None, -rng.randint(0, 600) / 32]), true=rng.choice([None, None, -rng.randint(0, 600) / 32])))
    for _ in range(rng.choice([0, 0, 0, 1, 3])):       # of groups and presets: not for the scene as a whole
        t = rng.choice([1, 2, 3])
        infos.append(dict(type=t, gid=rng.randrange(32), sid=rng.choice([0] + sids[:ni] + [0x3F]), true=-rng.randint(0, 600) / 32, sample=-3.,
                          meas=[(1, rng.randint(-160, -20) / 4, 2, 3)]))
    rng.shuffle(infos)
    return gsets, instr, infos


def job(a):
    key, fs, cicp, frames, kind = a
    rng = random.Random(str(key))
    sc = scene(key, fs, cicp, frames, target=.15, tools=TOOLS)
    nch = sc["nch"]
    gsets, instr, infos = draw(rng, nch, fs, frames, kind)
    cols = [rand_seqs(rng, g, fs, frames) for g in gsets]
    seqs = [[[q[k]] for q in cols] for k in range(frames)]
    pl = [drc.payload(gsets, s, fs) for s in seqs]
    el = sc["elements"] + [drc.ele(nch, gsets, instr, rng)]
    ext = []
    if infos:
        album = [dict(infos[0], type=0, meas=[(1, -9., 2, 3)])] * rng.randint(1, 4) if rng.random() < .2 else ()
        ext.append(drc.loudness_ext(infos, album))
    if rng.random() < .3:
        ext.insert(rng.randint(0, len(ext)), (0, b"\xa5" * rng.randint(1, 20)))
    sc = dict(sc, elements=el, data=[d + [p] for d, p in zip(sc["data"], pl)],
              cfg=config(fs=fs, level=0x0D, spk=spk_cicp(cicp), groups=[grp_ch(nch)], elements=el, cfgext=ext or None))
    opts = []
    for _ in range(4):
        o = {}
        if rng.random() < .9:
            o["tl"] = rng.randint(-45, -5)
        if rng.random() < .75:
            o["effect"] = rng.randint(0, 8)
        opts.append(o)
    opts.append({})
    want = []
    n = len(sc["ref"])
    for o in opts:
        if "tl" not in o:
            want.append((None, 0., np.ones((n, nch))))
            continue
        ins, lng = select(instr, infos, o["tl"], o.get("effect"))
        want.append((ins, lng, gains(nch, gsets, instr, ins, seqs, fs, lng, n)))
    top = max(float(np.abs(sc["ref"] * g).max()) for _, _, g in want)
    k = int(np.ceil(4 * np.log2(max(top, .001) / .6)))
    for d in sc["data"]:
        if k > 0:
            shift_gain(d[:-1], min(k, 120))
    if k > 0:
        sc["ref"] = model_ref(dict(sc, elements=el[:-1], data=[d[:-1] for d in sc["data"]]))
    sc["bytes"] = encode(sc)
    R = run("plain", [(sc["bytes"], dict(pcmsz=32, **o)) for o in opts])
    return dict(a=a, sc=sc, opts=opts, want=want, R=R, instr=instr, infos=infos, gsets=gsets)


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c18")
    W = []
    for k in range(1500 if th else 120):
        fs = r.choice(FS_ALL + [48000] * 4)
        W.append((("c18", SEED, k), fs, r.choice([1, 2, 2, 3, 4, 6, 7, 9, 12, 14, 19]), r.choice([3, 5, 8]), "fd"))
    for o in procmap(job, W):
        key, fs, cicp, frames, kind = o["a"]
        sc, R = o["sc"], o["R"]
        nm = "layout %d %d Hz" % (cicp, fs)
        f = dict(stream_mhas=sc["bytes"], log=R.i.text if R.i else "")
        if not c.judge(nm, R, **f):
            continue
        for i, op, (ins, lng, G) in zip(R.insts, o["opts"], o["want"]):
            m = "%s %s" % (nm, op)
            if i.bad or i.cfg is None:
                c.violation("refused", "%s: %s" % (m, [hex(x) for x in i.bad][:3]), **f)
                continue
            x = i.audio()
            y = sc["ref"] * G
            k = min(len(x), len(y))
            d = compare(x[:k], y[:k], rel=4e-5, floor=1e-6)
            sel = "nothing requested" if "tl" not in op else "set selected" if ins else "no set"
            c.saw(sc["bytes"] + repr(op).encode(), sel, "effect%s" % op.get("effect"), str(fs), "layout%d" % cicp)
            c.stat(sel)
            c.stat("samples compared", k * sc["nch"])
            c.smax("largest loudness gain dB", abs(lng))
            if d:
                what = "unrequested" if "tl" not in op else "gain"
                e = [round(float((x[a:min(a + 1024, k)] * y[a:min(a + 1024, k)]).sum() / max(1e-20, (y[a:min(a + 1024, k)] ** 2).sum())), 4) for a in range(0, k, 1024)]
                c.violation(what, "%s: loudness gain %.2f dB, set %s: %s (output/expected per frame %s)" % (m, lng, ins and ins["sid"], d, e), **f)
    c.rule = "evaluation = one stream decoded with one target loudness and effect request, every sample compared with the model"
    c.min_classes = 12

"""C14: channel routing, reported geometry, regrouping into elements."""
from suite import *
LEVEL = "randomised testing against an independent model and the standard's loudspeaker tables"


def elements_for(rng, cicp, mode):
    """mode 0: default pairs, 1: singles only, 2: random pairing of neighbouring channels"""
    el = layout_elements(cicp, force_sce=(mode == 1))
    if mode != 2:
        return el
    spk = CICP[cicp]
    out = []
    i = 0
    while i < len(spk):
        lfe = GEO[spk[i]][2]
        if lfe:
            out.append(dict(type=rng.choice(["LFE", "SCE"])))
        elif i + 1 < len(spk) and not GEO[spk[i + 1]][2] and rng.random() < .5:
            out.append(dict(type="CPE"))
            i += 1
        else:
            out.append(dict(type="SCE"))
        i += 1
    return out


def content(rng, fs, nch, lfe, frames, only=None):
    """per frame, per channel: plain long-window channel data; all channels but `only` silent"""
    out = []
    for f in range(frames):
        row = []
        for k in range(nch):
            if only is not None and k != only:
                row.append(silent_ch(gg=rng.randint(60, 120)))
            else:
                row.append(rand_ch(rng, fs, max_sfb=rng.randint(1, 3) if lfe[k] else rng.randint(2, 30), gg=rng.randint(136, 140), density=.4))
        out.append(row)
    return out


def pack(el, rows):
    data = []
    for row in rows:
        d, k = [], 0
        for e in el:
            if e["type"] == "CPE":
                d.append(dict(ch=[row[k], row[k + 1]], common=False)); k += 2
            else:
                d.append(row[k]); k += 1
        data.append(d)
    return data


def make(key, cicp, fs, mode, only, spkfn=None, nch=None, lfe=None, level=0x0D, frames=3):
    rng = random.Random("c14/%s" % (key,))
    spk = CICP[cicp] if cicp else None
    nch = nch or len(spk)
    lfe = lfe or [GEO[s][2] for s in spk]
    el = elements_for(rng, cicp, mode) if cicp else [dict(type="SCE") for _ in range(nch)]
    crng = random.Random("c14content/%s" % (key,))
    rows = content(crng, fs, nch, lfe, frames, only)
    cfg = config(fs=fs, level=level, spk=spkfn or spk_cicp(cicp), groups=[grp_ch(nch)], elements=el)
    sc = dict(cfg=cfg, data=pack(el, rows), indep=[1] + [crng.randint(0, 1) for _ in rows[1:]], elements=el, fs=fs, cicp=cicp, counts={}, elen=0, nch=nch)
    normalise(sc)
    sc["bytes"] = encode(sc)
    return sc


def job(a):
    kind, key, cicp, fs, mode, only = a
    if kind == "spklist":
        rng = random.Random("c14l/%s" % (key,))
        pool = [s for s in range(len(GEO)) if GEO[s] is not None and len(GEO[s]) >= 3]
        n = rng.randint(1, 12)
        spk = rng.sample(pool, n)
        only = rng.randrange(n)
        sc = make(key, 0, fs, 1, only, spkfn=spk_list(spk), nch=n, lfe=[0] * n)
        sc["spk"] = spk
    else:
        sc = make(key, cicp, fs, mode, only)
        sc["spk"] = CICP[cicp]
    out = [(None, run("plain", [(sc["bytes"], dict(pcmsz=32))]))]
    alt = None
    if kind == "regroup":
        alt = make(key, cicp, fs, 1, only)
        out.append((None, run("plain", [(alt["bytes"], dict(pcmsz=32))])))
    return a, sc, alt, out


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c14")
    W = []
    for rep in range(4 if th else 1):
        for cicp in CICPS:
            n = len(CICP[cicp])
            if n > 16:
                continue      # more core channels than the profile's levels allow
            ks = list(range(n))
            for k in ks:
                mode = r.choice([0, 1, 2])
                W.append(("route", (SEED, rep, cicp, k), cicp, r.choice([48000, 48000, 44100, 32000]), mode, k))
            W.append(("regroup", (SEED, rep, cicp, "r"), cicp, r.choice([48000, 44100]), 0, None))
            W.append(("regroup", (SEED, rep, cicp, "r2"), cicp, r.choice([48000, 44100]), 2, None))
        for k in range(12):
            W.append(("spklist", (SEED, rep, k, "l"), 0, r.choice([48000, 44100]), 1, None))
    for (kind, key, cicp, fs, mode, only), sc, alt, out in procmap(job, W):
        nm = "%s cicp %s %d Hz elements %s channel %s" % (kind, cicp, fs, "".join(e["type"][0] for e in sc["elements"]), only)
        R = out[0][1]
        if not c.judge(nm, R, stream_mhas=sc["bytes"]):
            continue
        i = R.i
        c.saw(sc["bytes"], kind, "cicp%s" % cicp, "mode%d" % mode)
        f = dict(stream_mhas=sc["bytes"], log=i.text)
        if i.bad or i.cfg is None:
            if kind == "spklist":
                c.stat("speaker lists refused")
                continue
            c.violation("layout-refused", "%s: %s" % (nm, [hex(x) for x in i.bad][:3]), **f)
            continue
        if i.nch != sc["nch"] or i.fs != fs or i.cfg["ch"] != sc["nch"]:
            c.violation("reported-format", "%s: reported %d channels %d Hz" % (nm, i.nch, i.fs), **f)
            continue
        geo = [(GEO[s][0], GEO[s][1], GEO[s][2]) for s in sc["spk"]]
        rep = i.cfg["spk"]
        if i.cfg["nspk"] != len(geo) or (cicp and i.cfg["cicp"] != cicp) or rep != geo:
            c.violation("reported-geometry", "%s: reported %d loudspeakers layout %d: %s instead of %s" % (nm, i.cfg["nspk"], i.cfg["cicp"], rep, geo), **f)
        c.stat("loudspeakers compared", len(geo))
        x = i.audio()
        d = compare(x, sc["ref"])
        if d:
            c.violation("routing", "%s: %s" % (nm, d), **f)
        if only is not None or kind == "spklist":
            k = int(np.abs(sc["ref"]).max(axis=0).argmax())
            o = np.abs(np.delete(x, k, axis=1))
            if o.size and o.max() > 1e-7:
                c.violation("leakage", "%s: signal of channel %d also appears in channel %d (%.3g)" % (nm, k, int(o.max(axis=0).argmax()), o.max()), **f)
            c.stat("single-channel scenes")
        if alt is not None:
            R2 = out[1][1]
            if c.judge(nm + " regrouped", R2, stream_mhas=alt["bytes"]) and not R2.i.bad:
                d = compare(R2.i.audio(), x)
                if d:
                    c.violation("regrouping", "%s: other element grouping changes the output: %s" % (nm, d), **f)
                c.stat("regroupings compared")
    c.rule = "evaluation = one scene (usually one audible channel) whose whole output and reported geometry are compared"
    c.min_classes = 15

"""Scenes with objects: element layout, metadata plan, core signals at measurable level."""
from suite import *
import oam


def wander(rng, O, spread, spk):
    """a random target state for every object"""
    def one():
        o = dict(oam.DEF)
        m = rng.random()
        if m < .3 and spk:
            g = GEO[rng.choice(spk)]
            o["az"], o["el"] = int(round(g[0] / 1.5)), int(round(g[1] / 3.0))
        elif m < .6:
            o["az"], o["el"] = rng.randint(-120, 120), 0
        else:
            o["az"], o["el"] = rng.randint(-128, 127), rng.randint(-32, 31)
        o["rad"] = rng.randint(0, 15)
        o["gain"] = rng.choice([32, 32, 31, 20, 12, -8, 40, 47, 63, rng.randint(-64, 63)])
        if spread and rng.random() < .6:
            o["sw"], o["sh"], o["sd"] = rng.randint(0, 127), rng.randint(0, 31), rng.randint(0, 15)
            if O.uniform:
                o["sh"] = o["sd"] = 0
        o["prio"] = rng.randint(0, 7)
        return o
    return [one() for _ in range(O.n)]


def plan(rng, O, frames, spread, spk):
    """per frame a list of sub-frame entries with legal, reachable states"""
    nsub = 1024 // O.flen
    out = []
    cur = None
    for f in range(frames):
        subs = []
        for s in range(nsub):
            if f == 0 and s == 0:
                m = "intra"
            else:
                m = rng.choice(["intra", "abs", "diff", "diff"] + (["none"] if nsub > 1 else []))
            if m == "none":
                subs.append(None)
                continue
            tgt = wander(rng, O, spread, spk)
            if cur is None:
                cur = tgt
            if m == "intra":
                # sometimes give all objects common values so that fixed/common coding is used
                for k in ("az", "el", "rad", "gain", "prio"):
                    if rng.random() < .25:
                        for o in tgt:
                            o[k] = tgt[0][k]
                if rng.random() < .4:
                    for o in tgt:
                        o["sw"], o["sh"], o["sd"] = tgt[0]["sw"], tgt[0]["sh"], tgt[0]["sd"]
                cur = tgt
            else:
                if m == "diff":
                    wide = rng.random() < .4        # steps of any size, up to the widest that can be written
                    for o, c in zip(tgt, cur):
                        for k in oam.KEYS:
                            if wide and rng.random() < .7:
                                continue
                            d = {"az": 30, "el": 8, "rad": 4, "gain": 15, "sw": 20, "sh": 8, "sd": 4, "prio": 3}[k]
                            v = c[k] + rng.choice([0, rng.randint(-d, d)])
                            lo, hi = (0, (1 << oam.BITS[k]) - 1) if k not in oam.SIGNED else (-(1 << (oam.BITS[k] - 1)), (1 << (oam.BITS[k] - 1)) - 1)
                            o[k] = min(hi, max(lo, v))
                for o, c in zip(tgt, cur):
                    if rng.random() < .3:
                        o.update(c)
                cur = tgt
            subs.append((m, [dict(o) for o in tgt]))
        out.append(subs)
    return out


def make(key, fs, cicp, n, flen, uniform, prio, frames, spread, bed, screen=0, subs=None, spk=None):
    rng = random.Random("c16/%s" % (key,))
    O = oam.Oam(n, flen, prio, uniform, [rng.randint(0, 1) for _ in range(n)] if screen else None, rng.randint(0, 1))
    bel = layout_elements(cicp) if bed else []
    nb = len(CICP[cicp]) if bed else 0
    groups = ([grp_ch(nb)] if bed else []) + [grp_obj(n)]
    el = bel + [dict(type="SCE") for _ in range(n)] + [oam.ele(O)]
    cfg = config(fs=fs, level=0x0D, spk=spk_cicp(cicp), groups=groups, elements=el, delaycomp=1 if bed else 0)
    plans = subs or plan(rng, O, frames, spread, spk or CICP[cicp])
    data, ind, states = [], [], []
    for f in range(len(plans)):
        row = []
        for e in bel:
            mk = lambda lfe: rand_ch(rng, fs, max_sfb=rng.randint(1, 3) if lfe else rng.randint(2, 12), gg=rng.randint(116, 124), density=.3)
            if e["type"] == "CPE":
                row.append(dict(ch=[mk(0), mk(0)], common=False))
            else:
                row.append(mk(e["type"] == "LFE"))
        row += [rand_ch(rng, fs, max_sfb=rng.randint(20, 34), gg=rng.randint(136, 140), density=.5, sfvar=2) for _ in range(n)]
        p, st = O.frame(plans[f], rng)
        # fixed parameters keep the intra value in dynamic frames: the writer's own state is the meaning
        data.append(row + [p])
        ind.append(1 if f == 0 or rng.random() < .4 else 0)
        states.append(st)
    sc = dict(cfg=cfg, data=data, indep=ind, elements=el, fs=fs, cicp=cicp, counts={}, elen=0, nch=nb + n, states=states, n=n, nb=nb, flen=flen,
              uniform=uniform)
    m = dict(sc, elements=el[:-1], data=[d[:-1] for d in data])
    top = .6 / (n * 6)
    for _ in range(2):
        ref = model_ref(m)
        k = int(np.ceil(4 * np.log2(max(1e-9, np.abs(ref).max()) / top)))
        if k <= 0:
            break
        for d in m["data"]:
            shift_gain(d, k)
    sc["ref"] = ref
    # the bed is removed only to within float rounding, so a much quieter object is known less precisely
    sc["slack"] = 3e-7 * np.abs(ref[:, :nb]).max() / max(1e-9, np.sqrt((ref[:, nb:] ** 2).mean(0)).min()) * 10 if nb else 0
    sc["bytes"] = encode(sc)
    return sc

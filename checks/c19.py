"""C19: peak limiter: bound, common gain, transparency, delay."""
from suite import *
from fdmodel import limiter
LEVEL = "randomised testing with an invariant oracle over the limiter's input (model) and output"
THR = 0.89125093          # -1 dBFS


def job(a):
    key, cicp, level, shape, n = a
    tools = ("win", "shape") if shape != "steady" else ()
    sc = scene(key, 48000, cicp, n, tools, density=.5 if shape != "tonal" else .02)
    rng = random.Random(str(key))
    if level:
        set_level(sc, level)
    if shape == "burst":
        # quiet scene with a few loud frames
        loud = set(rng.sample(range(n), max(1, n // 4)))
        for k, d in enumerate(sc["data"]):
            if k not in loud:
                shift_gain(d, min(24, 0 + min(min([ch["gg"]] + [min(r[:max(1, ch["max_sfb"])]) for r in ch["sf"]]) for x in d for ch in (x["ch"] if "ch" in x else [x]))))
        sc["ref"] = model_ref(sc)
        sc["bytes"] = encode(sc)
    return a, sc, run("plain", [(sc["bytes"], dict(pcmsz=32))])


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c19")
    W = []
    for k in range(300 if th else 56):
        cicp = r.choice([1, 1, 2, 2, 2, 3, 6, 6, 7, 12, 14, 19])
        lev = r.choice([.5, .85, .89, .9, .95, 1.2, 1.2, 2, 4, 10, 50])
        W.append(("c19/%s/%d" % (SEED, k), cicp, lev, r.choice(["steady", "win", "burst", "tonal", "burst"]), r.choice([4, 8, 12])))
    for k in range(6):
        W.append(("c19long/%s/%d" % (SEED, k), 2, r.choice([1.2, 3]), "burst", 40))
    # always overloaded: the look-ahead maximum expires and is searched again in every slot of its ring buffer
    for k in range(40 if th else 16):
        W.append(("c19loud/%s/%d" % (SEED, k), r.choice([1, 2]), r.choice([8, 20]), "steady", 40))
    for a, sc, R in procmap(job, W):
        key, cicp, level, shape, n = a
        ref = sc["ref"]
        pk = float(np.abs(ref).max())
        nm = "cicp %d peak %.3f %s" % (cicp, pk, shape)
        f = dict(stream_mhas=sc["bytes"])
        if not c.judge(nm, R, **f):
            continue
        if R.i.bad:
            c.violation("valid-stream-refused", "%s: %s" % (nm, [hex(x) for x in R.i.bad][:3]), **f)
            continue
        x = R.i.audio()
        m = min(len(x), len(ref))
        full, (y, gm) = ref, limiter(ref)
        x, ref = x[:m], ref[:m]
        cls = "transparent" if pk < THR * .999 else ("limiting" if pk > THR * 1.001 else "edge")
        c.saw(sc["bytes"], cls, shape, "ch%d" % sc["nch"])
        c.stat("samples", int(x.size))
        # bound
        top = float(np.abs(x).max())
        c.smax("largest output / threshold", top / THR)
        if top > THR * (1 + 1e-5):
            p = tuple(int(v) for v in np.unravel_index(np.abs(x).argmax(), x.shape))
            c.violation("threshold-exceeded", "%s: output %.6f at sample %s, threshold %.6f" % (nm, x[p], p, THR), **f)
        if cls == "transparent":
            d = compare(x, ref)
            if d:
                c.violation("not-transparent", "%s: below the threshold the output differs: %s" % (nm, d), **f)
            continue
        # the published attack / release law
        e = np.abs(x[:len(y)] - y[:m])
        c.smax("worst deviation from the gain law", float(e.max()))
        if e.max() > 5e-5 or len(x) != len(y):
            s, ch = [int(v) for v in np.unravel_index(e.argmax(), e.shape)]
            c.violation("gain-law", "%s: sample %d channel %d: %.6f instead of %.6f (%d samples, expected %d)" % (nm, s, ch, x[s, ch], y[s, ch], len(x), len(y)), **f)
        # common gain: x = g(t) * ref with 0 < g <= 1 for all channels
        tol = local_tol(ref, 1e-5, 2e-6)
        big = np.abs(ref) > np.abs(ref).max(axis=1, keepdims=True) * .3
        den = (np.where(big, ref, 0) ** 2).sum(axis=1)
        g = np.where(den > 1e-12, (np.where(big, ref * x, 0)).sum(axis=1) / np.maximum(den, 1e-12), 1)
        dev = np.abs(x - g[:, None] * ref)
        bad = dev > tol * 4
        if bad.any():
            s, ch = [int(v[0]) for v in np.nonzero(bad)]
            c.violation("unequal-gain", "%s: sample %d channel %d: %.6f of %.6f, others scaled by %.6f" % (nm, s, ch, x[s, ch], ref[s, ch], g[s]), **f)
        sig = np.abs(ref).max(axis=1) > 1e-3
        if (g[sig] > 1 + 1e-3).any() or (g[sig] < 0).any():
            s = int(np.nonzero(sig & ((g > 1 + 1e-3) | (g < 0)))[0][0])
            c.violation("gain-above-one", "%s: gain %.5f at sample %d" % (nm, g[s], s), **f)
        if cls == "limiting":
            c.smin("lowest gain", float(g[sig].min()))
            c.stat("limited samples", int((g[sig] < .999).sum()))
            # where nothing within a second lies above the threshold the signal passes unchanged;
            # before the first overload (minus the look-ahead) it is untouched
            over = np.nonzero(np.abs(full).max(axis=1) > THR)[0]
            first = int(over[0]) - 4 * ATTACK if len(over) else m
            if first > 0:
                d = compare(x[:first], ref[:first]) if first > 8 else None
                if d:
                    c.violation("limits-early", "%s: changed before any overload: %s" % (nm, d), **f)
            # no over-limiting: the gain is never lower than what the loudest sample within reach requires
            need = float(THR / pk)
            lo = float(g[sig].min())
            if lo < need * .98 - 1e-4:
                c.violation("over-limiting", "%s: gain falls to %.5f, %.5f would do" % (nm, lo, need), **f)
            # release: long after the last overload the gain is back at one
            last = int(over[-1]) if len(over) else 0
            gp = np.where(sig, g, np.nan)
            over = over[over < m]
            gaps = np.diff(np.concatenate([over, [m]]))
            for o, gap in zip(over, gaps):
                if gap > 14400 + 4 * ATTACK:
                    seg = gp[o + 14400:o + gap - 2 * ATTACK]      # the next attack starts early
                    if np.nanmin(np.append(seg, 1.0)) < .98:
                        c.violation("no-release", "%s: gain still %.3f %d samples after overload" % (nm, float(np.nanmin(seg)), gap), **f)
                    c.stat("releases observed")
    c.rule = "evaluation = one 48 kHz stream; every output sample is related to the modelled limiter input"
    c.min_classes = 6

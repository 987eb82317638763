"""C16: objects are rendered where and as loud as their metadata says.
Monitor: the decoded object signals are known (independent model of the core decoder), so the gain from every object
to every loudspeaker over every metadata sub-frame is recovered from the output by least squares; the residual shows
that nothing else was added and that gains move linearly from the previous to the new value.  Recovered gains are
judged against the metadata: power, loudspeaker hits, direction of the gain vector, independence of how the metadata
was coded (intra/absolute/differential/sub-frames/number of objects), mirror symmetry, screen of imaginary speakers."""
from suite import *
import oam
from objscene import make, wander, plan
LEVEL = "randomised testing with gains measured from the output, judged by geometry and by coding-independent references"
TOL = 2e-4


def uvec(az, el):
    a, e = np.radians(az), np.radians(el)
    return np.array([np.cos(e) * np.cos(a), np.cos(e) * np.sin(a), np.sin(e)])


def measure(x, sc, nspk):
    """-> gains[sub-frame][object][speaker] at the end of every sub-frame, worst residual (relative), usable mask"""
    n, nb, L = sc["n"], sc["nb"], sc["flen"]
    ref = sc["ref"]
    N = min(len(x), len(ref))
    G, bad = [], None
    g0, carry = None, 0
    ramp = (np.arange(L) + 1) / L
    for s in range(N // L):
        a, b = s * L, (s + 1) * L
        y = x[a:b].copy()
        if nb:
            y[:, :nb] -= ref[a:b, :nb]
        r = ref[a:b, nb:]
        if g0 is None:
            A, z = r, y
        else:
            A = r * ramp[:, None]
            z = y - (r * (1 - ramp)[:, None]) @ g0
        e = np.sqrt((r ** 2).mean(0))
        if e.min() < 1e-4 * np.abs(ref[:b]).max():
            return G, "quiet", s
        g, *_ = np.linalg.lstsq(A, z, rcond=None)
        res = np.abs(z - A @ g).max()
        sc_ = np.abs(r).max() * max(1e-3, np.abs(g).max(), np.abs(g0).max() if g0 is not None else 0) * n
        floor = 3e-9 * n + 2e-7 * np.abs(ref[:b]).max()  # float rounding of the decoder, also of what it carries over
        # the ramp accumulates float steps: each gain is only recovered to some L ulps, an error the next estimates inherit
        floor += carry * np.abs(r).max() * n
        carry = max(.6 * carry, 6e-8 * L * np.abs(g).max(), 6e-8 * L * np.abs(g0).max() if g0 is not None else 0)
        if res > TOL * sc_ + floor and bad is None:
            bad = (s, res, sc_)
        G.append(g)
        g0 = g
    return G, bad, None


def job(a):
    kind, key, fs, cicp, n, flen, uniform, prio, frames, spread, bed, screen, out = a
    sc = make(key, fs, cicp, n, flen, uniform, prio, frames, spread, bed, screen, spk=CICP[out or cicp])
    o = dict(pcmsz=32)
    if out:
        o["cicp"] = out
    R = run("plain", [(sc["bytes"], o)])
    # canonical reference: every distinct state, one object, intra-coded, one per frame, unit gain
    ks = sorted({(s["az"], s["el"], s["sw"], 0 if uniform else s["sh"], 0 if uniform else s["sd"]) for f in sc["states"] for sub in f for s in sub})
    subs = [[("intra", [dict(oam.DEF, az=k[0], el=k[1], sw=k[2], sh=k[3], sd=k[4])])] for k in ks for _ in (0, 1)]
    c = make((key, "canon"), fs, out or cicp, 1, 1024, uniform, 0, 0, 0, 0, 0, subs)
    R2 = run("plain", [(c["bytes"], dict(pcmsz=32))])
    return a, sc, ks, c, R, R2


PAN = {}


def panner(cicp):
    if cicp not in PAN:
        PAN[cicp] = oam.Panner(CICP[cicp])
    return PAN[cicp]


def judge_canon(c, nm, sc, ks, G, spk, f, pan):
    """geometry of the canonical gains"""
    lfe = [GEO[s][2] for s in spk]
    V = np.array([uvec(GEO[s][0], GEO[s][1]) for s in spk])
    T = {}
    for j, k in enumerate(ks):
        if 2 * j + 1 >= len(G):
            break
        g = G[2 * j + 1][0]
        T[k] = g
        az, el = oam.degrees(dict(az=k[0], el=k[1]))
        if any(abs(v) > 1e-5 for v, l in zip(g, lfe) if l):
            c.violation("lfe", "%s: object plays from an LFE loudspeaker: %s" % (nm, g), **f)
        if g.min() < -1e-4:
            c.violation("negative", "%s: negative gain at az %g el %g: %s" % (nm, az, el, g), **f)
        p = float((g ** 2).sum())
        if abs(p - 1) > 1e-3:
            c.violation("power", "%s: az %g el %g spread %s: power %.5f instead of 1" % (nm, az, el, k[2:], p), **f)
        c.smax("worst power error", abs(p - 1))
        if k[2] == 0 and k[3] == 0:
            hit = [i for i, s in enumerate(spk) if not lfe[i] and abs((GEO[s][0] - az + 180) % 360 - 180) < 1e-6 and GEO[s][1] == el] \
                if abs(el) < 90 else [i for i, s in enumerate(spk) if GEO[s][1] == el]
            if hit:
                if abs(g[hit[0]] - 1) > 1e-3:
                    c.violation("loudspeaker-hit", "%s: object at loudspeaker %d (az %g el %g) has gains %s" % (nm, hit[0], az, el, np.round(g, 4)), **f)
                c.stat("positions at a loudspeaker")
            d = pan.look(az, el)
            if d[0] == "exact":
                w = np.zeros(len(spk))
                w[pan.idx] = d[1]
                e = np.abs(g - w).max()
                if e > 2e-3:
                    c.violation("direction", "%s: object at az %g el %g is panned with %s instead of %s" % (nm, az, el, np.round(g, 4), np.round(w, 4)), **f)
                c.stat("positions compared with the panning model")
                c.smax("worst panning gain error", e)
            elif d[0] == "direction":
                v = g @ V
                ang = np.degrees(np.arccos(min(1, v @ d[2] / max(1e-12, np.linalg.norm(v)))))
                bad = [spk[i] for i in np.nonzero(g > 1e-3)[0] if i not in [pan.idx[q] for q in d[1]]]
                if ang > .5 or bad:
                    c.violation("direction", "%s: object at az %g el %g is panned %.2f degrees off (loudspeakers off the facet: %s)" % (nm, az, el, ang, bad), **f)
                c.stat("directions verified on facets with more than three corners")
                c.smax("worst direction error (degrees)", ang)
            else:
                c.stat("directions without a model (power only)")
            if len([1 for x in g if x > 1e-3]) <= 3:
                c.stat("at most three loudspeakers active")
    return T


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c16")
    W = []
    lay = [x for x in CICPS if x != 13]
    for rep in range(8 if th else 4):
        for cicp in lay:
            for v in range(2):
                n = r.choice([1, 2, 3, 4, 6])
                spread = v == 1
                flen = r.choice([1024, 1024, 512, 256])
                W.append(("objects", (SEED, rep, cicp, v), r.choice([44100, 44100, 48000, 32000, 24000]), cicp, n, flen, r.randint(0, 1), r.randint(0, 1),
                          5, spread, 0, r.randint(0, 1), r.choice([0, 0, 6, 12, 19]) if v == 0 else 0))
        for k in range(6):
            cicp = r.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 16])
            W.append(("bed", (SEED, rep, "bed", k), r.choice([44100, 48000]), cicp, r.choice([1, 2, 3]), r.choice([1024, 512, 256]), r.randint(0, 1), 0, 4, 0, 1, 0, 0))
    for a, sc, ks, cn, R, R2 in procmap(job, W):
        kind, key, fs, cicp, n, flen, uniform, prio, frames, spread, bed, screen, out = a
        nm = "%s layout %d -> %d, %d objects, sub-frame %d, %d Hz" % (kind, cicp, out or cicp, n, flen, fs)
        f = dict(stream_mhas=sc["bytes"], log=R.i.text if R.i else "")
        if not c.judge(nm, R, **f) or not c.judge(nm + " (canonical)", R2, stream_mhas=cn["bytes"]):
            continue
        spk = CICP[out or cicp]
        if R.i.bad or R2.i.bad:
            c.violation("refused", "%s: %s %s" % (nm, [hex(x) for x in R.i.bad][:3], [hex(x) for x in R2.i.bad][:3]), **f)
            continue
        if R.i.nch != len(spk):
            c.violation("channels", "%s: %d output channels" % (nm, R.i.nch), **f)
            continue
        cf = dict(stream_mhas=cn["bytes"], log=R2.i.text)
        Gc, bad, q = measure(R2.i.audio(), cn, len(spk))
        if bad and bad != "quiet":
            c.violation("canonical-residual", "%s: frame %d: output is not the object signal times a linearly moving gain (residual %.3g of %.3g)" % ((nm,) + bad), **cf)
            continue
        T = judge_canon(c, nm, cn, ks, Gc, spk, cf, panner(out or cicp))
        G, bad, q = measure(R.i.audio(), sc, len(spk))
        if bad and bad != "quiet":
            c.violation("residual", "%s: sub-frame %d: output is not the objects times linearly moving gains (residual %.3g of %.3g)" % ((nm,) + bad), **f)
            continue
        sts = [s for fr in sc["states"] for s in fr]
        c.saw(sc["bytes"], kind, "layout%d" % (out or cicp), "sub%d" % flen, "n%d" % n, "spread%d" % spread)
        for s, g in enumerate(G):
            for o in range(n):
                st = sts[s][o]
                k = (st["az"], st["el"], st["sw"], 0 if uniform else st["sh"], 0 if uniform else st["sd"])
                if k not in T:
                    continue
                w = oam.gain(st)
                e = np.abs(g[o] - T[k] * w).max()
                if e > 3e-3 * w + TOL * max(1., np.abs(g).max()) + sc["slack"]:
                    c.violation("metadata", "%s: sub-frame %d object %d (%s): gains %s instead of %s" % (
                        nm, s, o, {x: st[x] for x in oam.KEYS}, np.round(g[o], 4), np.round(T[k] * w, 4)), **f)
                    break
                c.stat("object positions verified")
                c.smax("worst relative gain error", e / max(w, .01))
            else:
                continue
            break
    c.rule = "evaluation = one scene of objects with every gain of every metadata sub-frame recovered from the output and judged"
    c.min_classes = 15

"""C25: damage stays local; decoding recovers at the next independent frame.
Monitor: the PCM of every decode call is attributed to the frame it consumed (by input offset) and compared, frame by
frame, with the PCM the same frame yields in the undisturbed stream: all frames before the damage, and all frames from
RECOVER frames behind the next independent frame on, must be equal byte for byte."""
from suite import *
import objscene, oam
LEVEL = "fault injection into the stream: frame-wise differential against undisturbed decoding"
TOOLS = ("win", "shape", "tns", "ms", "pred", "alias")   # noise filling keeps a running random seed on purpose
OPTS = [dict(), dict(), dict(), dict(cicp=2), dict(cicp=6), dict(cicp=7), dict(cicp=19), dict(pcmsz=24), dict(outfs=48000), dict(tl=-20)]


def scene25(key, fs, cicp, kind, n):
    r = random.Random("c25/%s" % (key,))
    if kind in ("obj", "bed"):
        m = r.choice([1, 2, 4])
        flen = r.choice([1024, 512])
        uni = r.randint(0, 1)
        O = oam.Oam(m, flen, 0, uni)
        P = objscene.plan(r, O, n, 1, CICP[cicp])
        last = [dict(oam.DEF) for _ in range(m)]
        for f in P:     # metadata that can be understood from any frame on
            f[0] = ("intra", [dict(o) for o in (f[0][1] if f[0] else last)])
            for s in f:
                if s:
                    last = s[1]
        return objscene.make(("c25", key), fs, cicp, m, flen, uni, 0, n, 1, 1 if kind == "bed" else 0, subs=P)
    return scene_any(("c25", key), fs, cicp, n, TOOLS + (("ltpf",) if kind == "ltpf" else ("fdp",) if kind == "fdp" else ()))


def by_frame(i, starts):
    """PCM of each frame: starts = input offsets of the packets carrying frames, in order, with the frame number"""
    out, off, pos = {}, 0, 0
    for c in i.calls:
        # the call decoded the last frame that begins inside what it consumed
        k = [f for (s, f) in starts if off <= s < off + c["used"]]
        if c["out"]:
            out.setdefault(k[-1] if k else -1, []).append(i.pcm[pos:pos + c["out"]])
        pos += c["out"]
        off += c["used"]
    return {k: b"".join(v) for k, v in out.items()}


def starts_of(pk):
    """pk: (type, label, header, payload, frame number or None)"""
    out, pos = [], 0
    for p in pk:
        if p[0] == PT_FRAME:
            out.append((pos, p[4]))
        pos += len(p[2]) + len(p[3])
    return out


def hit(r, x):
    """a damaged copy of a payload of the same length"""
    b = bytearray(x)
    m = r.random()
    if m < .45:
        for _ in range(r.randint(1, 5)):
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif m < .7:
        s = r.randrange(len(b))
        for j in range(s, min(len(b), s + r.randint(1, 40))):
            b[j] = r.getrandbits(8)
    elif m < .85:
        s = r.randrange(len(b))
        b[s:] = bytes(len(b) - s)
    else:
        s = r.randrange(len(b))
        b[s:] = b"\xff" * (len(b) - s)
    return bytes(b)


def damaged(r, how, P, ind, n):
    """-> (packets, first damaged frame, last damaged frame, first frame present)"""
    k = r.randint(0 if how == "lose" else 0, n - 3)
    j = min(n - 3, k + r.choice([0, 0, 0, 1, 2, 4]))
    out = []
    for p in P:
        f = p[4]
        if f is None or not k <= f <= j:
            out.append(p)
        elif how == "lose":
            pass
        elif how == "short":
            x = p[3][:r.randint(0, max(0, len(p[3]) - 1))]
            q = packet(PT_FRAME, x, p[1])
            out.append((p[0], p[1], q[:len(q) - len(x)], x, f))
        elif how == "grow":
            x = p[3][:r.randrange(len(p[3]) + 1)] + bytes(r.getrandbits(8) for _ in range(r.randint(1, 300)))
            q = packet(PT_FRAME, x, p[1])
            out.append((p[0], p[1], q[:len(q) - len(x)], x, f))
        elif how == "swap":     # another frame's payload in its place
            x = r.choice([q[3] for q in P if q[4] is not None])
            q = packet(PT_FRAME, x, p[1])
            out.append((p[0], p[1], q[:len(q) - len(x)], x, f))
        else:
            out.append((p[0], p[1], p[2], hit(r, p[3]), f))
    return out, k, j


def job(a):
    key, fs, cicp, kind, n, o, feed, hows = a
    sc = scene25(key, fs, cicp, kind, n)
    r = random.Random("c25d/%s" % (key,))
    P, f = [], 0
    for p in split_packets(sc["bytes"]):
        P.append(p + ((f,) if p[0] == PT_FRAME else (None,)))
        f += p[0] == PT_FRAME
    o = dict(o)
    base = run("plain", [(sc["bytes"], dict(o, feed=feed))])
    tests = []
    for how in hows:
        if how == "tune":
            m = r.choice([x for x in range(1, n) if sc["indep"][x]] or [0])
            Q = [p for p in P if p[4] is None or p[4] >= m]
            tests.append((how, Q, 0, m - 1))
        elif how == "late":
            # the frames of the stream come before its first configuration
            m = r.randint(1, n - 2)
            Q = [p for p in P if p[4] is not None and p[4] < m]
            Q = [p[:4] + (-1,) for p in Q] + P
            tests.append((how, Q, None, -1))
        elif how == "mid":
            # starts at a frame that is not independent
            m = r.randint(1, n - 2)
            Q = [p for p in P if p[4] is None or p[4] >= m]
            tests.append((how, Q, 0, m - 1))
        else:
            Q, k, j = damaged(r, how, P, sc["indep"], n)
            tests.append((how, Q, k, j))
    D = run("plain", [(b"".join(p[2] + p[3] for p in t[1]), dict(o, feed=feed)) for t in tests])
    return a, sc, P, base, tests, D


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c25")
    W = []
    hows = ["hit", "hit", "lose", "lose", "short", "grow", "swap", "tune", "tune", "late", "mid"]
    for k in range(900 if th else 130):
        kind = r.choice(["fd", "fd", "ltpf", "fdp", "obj", "bed"])
        fs = r.choice([48000, 48000, 44100, 44100, 32000, 24000, 16000]) if kind in ("fd", "fdp", "ltpf") else r.choice([48000, 44100, 32000])
        cicp = r.choice([x for x in CICPS if x != 13]) if kind in ("fd", "obj") else r.choice([1, 2, 3, 6, 7])
        o = r.choice(OPTS)
        W.append(((SEED, k), fs, cicp, kind, r.choice([8, 12, 16]), o, r.choice(["full", "pkt:1", "pkt:3"]), hows))
    for (key, fs, cicp, kind, n, o, feed, _), sc, P, base, tests, D in procmap(job, W):
        nm = "%s %d Hz cicp %d %s %s" % (kind, fs, cicp, o, feed)
        if not c.judge(nm, base, stream_mhas=sc["bytes"]) or base.i.bad or not base.i.pcm:
            if base.i and base.i.bad:
                c.stat("scenes refused")
            continue
        if not c.judge(nm, D, stream_mhas=sc["bytes"]):
            continue
        ref = by_frame(base.i, starts_of(P))
        nch = base.i.nch
        bits = o.get("pcmsz", 16)
        fc = "cicp" in o
        lim = fs == 48000
        res = o.get("outfs", fs) != fs
        for (how, Q, k, j), i in zip(tests, D.insts):
            b = b"".join(p[2] + p[3] for p in Q)
            f = dict(stream_mhas=b, undisturbed_mhas=sc["bytes"], log=i.text)
            got = by_frame(i, starts_of(Q))
            w = "%s: %s" % (nm, how)
            if k is None:
                m = None
                bad = [x for x in range(n) if got.get(x) != ref.get(x)]
                if bad:
                    c.violation("late-config", "%s: frame %d differs from the stream that starts at its configuration" % (w, bad[0]), **f)
                else:
                    c.saw(b, how, kind, "opt:" + ",".join(sorted(o)))
                continue
            pre = [x for x in range(k) if got.get(x) != ref.get(x)]
            if pre:
                c.violation("before-damage", "%s of frames %d..%d: frame %d before it differs" % (w, k, j, pre[0]), **f)
            nx = [x for x in range(j + 1, n) if sc["indep"][x]]
            if not nx:
                c.stat("no independent frame behind the damage")
                c.saw(b, how + "-prefix", kind)
                continue
            m = nx[0]
            # garbage that happened to be a speech-coded frame leaves a pitch memory behind that lets the decoder refuse
            # the transform-coded frames next to it: at most one per element, and reported
            if how in ("hit", "grow", "swap", "short", "lose", "mid"):
                z = m
                while z < n and z not in got and z < m + 4:
                    z += 1
                if z > m:
                    c.stat("intact frames refused next to garbage", z - m)
                    nx = [x for x in range(z, n) if sc["indep"][x]]
                    if not nx:
                        continue
                    m = nx[0]
            # one frame of overlap, one more for the format converter's or resampler's own overlap
            first = m + 1 + (1 if fc or res or lim else 0) + (1 if kind in ("obj", "bed") else 0) + (2 if kind == "ltpf" else 0)
            loud = lim and any(max(pk_of(got.get(x), bits, nch), pk_of(ref.get(x), bits, nch)) > .8 for x in range(max(0, k - 1), n))
            if loud:
                c.stat("damage loud enough to engage the limiter")
                c.saw(b, how + "-loud", kind)
                continue
            bad = [x for x in range(first, n) if got.get(x) != ref.get(x)]
            if bad and fc and how != "tune":
                # garbage may have been louder than the signal by any factor: the correction stays off for as long
                c.stat("garbage in a downmix: only the frames before it are judged")
                c.saw(b, how + "-downmix", kind)
                continue
            if bad and kind == "ltpf":
                # the long-term post-filter is recursive
                top = max(pk_of(got.get(x), bits, nch) for x in range(max(0, k - 1), n))
                if top > .9:
                    c.stat("garbage of unknown size in the recursive post-filter")
                    continue
                bad = [x for x in bad if not close(got.get(x, b""), ref.get(x, b""), bits, nch, .02, top)]
            if bad and fc:
                # the level correction of a downmix forgets the damage only exponentially: bounded by its clip range
                bad = [x for x in bad if not alike(got.get(x, b""), ref.get(x, b""), bits, nch)]
                c.stat("frames equal but for the downmix's smoothed level", n - first - len(bad))
            if bad:
                x = bad[0]
                g, h = got.get(x, b""), ref.get(x, b"")
                d = "%d bytes instead of %d" % (len(g), len(h))
                if len(g) == len(h):
                    d = "peak difference %.3g in %d frames" % (np.abs(pcm_float(g, bits, nch) - pcm_float(h, bits, nch)).max(), len(bad))
                c.violation("not-recovered", "%s of frames %d..%d, independent frame %d: frame %d still differs (%s)" % (w, k, j, m, x, d), **f)
            else:
                c.saw(b, how, kind, "ch%d" % nch, "opt:" + ",".join(sorted(o)))
                c.stat("frames equal again behind damage", max(0, n - first))
                c.stat("frames equal before damage", k)
    c.rule = "evaluation = one fault placed in one stream, every frame's PCM compared with undisturbed decoding"
    c.min_classes = 15


def close(g, h, bits, nch, rel, top):
    if len(g) != len(h):
        return False
    x, y = pcm_float(g, bits, nch), pcm_float(h, bits, nch)
    return bool(np.abs(x - y).max() <= rel * max(top, np.abs(y).max()) + 2e-6 + 2. ** (1 - bits))


def alike(g, h, bits, nch):
    """same signal up to a slowly varying gain between the level correction's limits (-10 .. +8 dB)"""
    if len(g) != len(h):
        return False
    x, y = pcm_float(g, bits, nch), pcm_float(h, bits, nch)
    for k in range(nch):
        a, b = x[:, k], y[:, k]
        ea, eb = float((a * a).sum()), float((b * b).sum())
        if max(ea, eb) < len(a) * 1e-7:
            continue
        if not 1 / 63. < (ea + 1e-9) / (eb + 1e-9) < 63 or float((a * b).sum()) < .3 * np.sqrt(ea * eb):
            return False
    return True


def pk_of(b, bits, nch):
    return float(np.abs(pcm_float(b, bits, nch)).max()) if b else 0.0

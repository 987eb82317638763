"""C24: a configuration change behaves like a fresh start.
Monitor: every segment of a multi-configuration stream must yield the PCM, statuses, rate, channel count and layout
that a newly created decoder yields for that segment alone; the calls are attributed to segments by input offset."""
from suite import *
import objscene
LEVEL = "differential testing of multi-configuration streams against fresh decoders"
RATES = [48000, 44100, 32000, 24000, 22050, 16000, 12000, 8000]
OPTS = [dict(), dict(), dict(outfs=48000), dict(outfs=44100), dict(cicp=2), dict(cicp=6), dict(cicp=7), dict(cicp=19), dict(pcmsz=24), dict(tl=-20), dict(effect=3)]


TOOLS = []


def segment(key, fs, cicp, kind, n):
    if kind == "tool":
        it = TOOLS[n]
        return dict(name="%s/%s" % (it["cls"], it["name"]), bytes=it["bytes"], cfg=it["cfg"])
    r = random.Random("c24/%s" % (key,))
    if kind == "obj":
        sc = objscene.make(("c24", key), fs, cicp, r.choice([1, 2, 4]), r.choice([1024, 512, 256]), r.randint(0, 1), 0, n, 1, 0)
    elif kind == "bed":
        sc = objscene.make(("c24", key), fs, cicp, r.choice([1, 2]), 1024, 1, 0, n, 0, 1)
    else:
        tools = {"fd": ALL_TOOLS, "plain": (), "ext": ALL_TOOLS + ("ltpf", "fdp")}[kind]
        sc = scene_any(("c24", key), fs, cicp, n, tools)
    return dict(name="%s/%d/cicp%d" % (kind, fs, cicp), bytes=sc["bytes"], cfg=sc["cfg"])


def per_segment(i, bounds):
    """-> per segment (pcm bytes, statuses, last reported (fs, ch))"""
    out = [[b"", [], None] for _ in bounds]
    off = pos = 0
    for c in i.calls:
        k = sum(1 for b in bounds if off >= b) - 1
        s = out[max(k, 0)]
        s[0] += i.pcm[pos:pos + c["out"]]
        if c["err"] not in (0, 0x1000, 0x1800):   # requests for more data depend on how the caller slices
            s[1].append(c["err"])
        if c["out"] > 0:
            s[2] = (c["fs"], c["ch"])
        pos += c["out"]
        off += c["used"]
    return out


def job(a):
    segs, o, feed = a
    S = [segment(*s) for s in segs]
    keep = [S[0]]
    for s in S[1:]:
        if s["cfg"] != keep[-1]["cfg"]:
            keep.append(s)
    S = keep
    o = dict(o)
    bounds = [sum(len(x["bytes"]) for x in S[:k]) for k in range(len(S))]
    whole = b"".join(x["bytes"] for x in S)
    R = run("plain", [(whole, dict(o, feed=feed))])
    F = [run("plain", [(x["bytes"], dict(o, feed=feed))]) for x in S]
    return a, S, bounds, whole, R, F


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c24")
    W = []
    for rep in range(10 if th else 1):
        # every ordered pair of rates, with layouts changing too
        for fa in RATES:
            for fb in RATES:
                ca, cb = r.choice([1, 2, 6]), r.choice([1, 2, 2, 7])
                W.append(([((SEED, rep, "a", fa, ca, fb), fa, ca, "plain", 3), ((SEED, rep, "b", fb, cb, fa), fb, cb, r.choice(["fd", "plain"]), 4)],
                          r.choice(OPTS) if fa <= 48000 else {}, r.choice(["full", "pkt:1"])))
        for k in range(110):
            segs = []
            for j in range(r.choice([2, 2, 3, 4])):
                kind = r.choice(["fd", "fd", "ext", "obj", "obj", "bed"])
                fs = r.choice([48000, 48000, 44100, 32000, 24000, 16000]) if kind == "fd" else r.choice([48000, 44100, 32000])
                cicp = r.choice([x for x in CICPS if x != 13]) if kind in ("fd", "obj") else r.choice([1, 2, 3, 6, 7])
                segs.append(((SEED, rep, k, j), fs, cicp, kind, r.choice([1, 2, 3, 6])))
            W.append((segs, r.choice(OPTS), r.choice(["full", "pkt:1", "pkt:2"])))
    # segments that use the other tools, before and after one another
    TOOLS.extend(it for it in tool_items("c24", 500 if th else 130) if "brir" not in it["opt"])
    for it in range(len(TOOLS)):
        for rep in range(4 if th else 1):
            segs, o = [((SEED, "t", it), 0, 0, "tool", it)], {k: v for k, v in TOOLS[it]["opt"].items() if k != "pcmsz"}
            if r.random() < .5 or TOOLS[it]["cls"] == TOOLS[it - 1]["cls"]:
                other = ((SEED, "t", 1), 0, 0, "tool", r.randrange(len(TOOLS)))
                oo = {k: v for k, v in TOOLS[other[4]]["opt"].items() if k != "pcmsz"}
            else:
                other, oo = ((SEED, "ta", it, rep), r.choice([48000, 48000, 44100, 32000]), r.choice([1, 2, 6]), r.choice(["fd", "plain", "obj"]), r.choice([1, 3, 4])), {}
            segs.insert(r.randint(0, 1), other)
            if r.random() < .5:
                segs.append(segs[0])     # and back again
            o = o or oo or r.choice(OPTS)
            W.append((segs, o, r.choice(["full", "pkt:1", "pkt:2"])))
    for (segs, o, feed), S, bounds, whole, R, F in procmap(job, W):
        nm = " > ".join(s["name"] for s in S) + " %s %s" % (o, feed)
        f = dict(stream_mhas=whole, log=R.i.text if R.i else "")
        if not c.judge(nm, R, **f):
            continue
        if any(not c.judge(nm + " (fresh %d)" % k, x, stream_mhas=S[k]["bytes"]) for k, x in enumerate(F)):
            continue
        P = per_segment(R.i, bounds)
        good = 0
        for k, x in enumerate(F):
            w = per_segment(x.i, [0])[0]
            g = P[k]
            what = None
            if w[1] and not w[0]:
                c.stat("segments refused by a fresh decoder")
                if g[0] or g[1][:1] != w[1][:1]:
                    what = "configuration refused with %s by a fresh decoder gives %s and %d bytes" % (hex(w[1][0]), [hex(e) for e in g[1]][:3], len(g[0]))
            elif g[1] != w[1]:
                what = "statuses %s instead of %s" % ([hex(e) for e in g[1]][:3], [hex(e) for e in w[1]][:3])
            elif g[2] != w[2]:
                what = "reports (rate, channels) %s instead of %s" % (g[2], w[2])
            elif g[0] != w[0]:
                n = min(len(g[0]), len(w[0]))
                p = next((q for q in range(n) if g[0][q] != w[0][q]), n)
                what = "PCM differs from a fresh decoder's at byte %d (%d bytes instead of %d)" % (p, len(g[0]), len(w[0]))
            if what:
                c.violation("segment", "%s: segment %d of %d: %s" % (nm, k + 1, len(S), what), fresh_mhas=S[k]["bytes"], **f)
                break
            if k and w[0]:
                c.stat("segments after a change equal to a fresh decoder")
                good += 1
            if w[1] and w[0]:
                c.stat("segments whose statuses report an error in both")
        if good:
            c.saw(whole + repr(o).encode(), *["%s>%s" % (S[k]["name"].split("/")[0], S[k + 1]["name"].split("/")[0]) for k in range(len(S) - 1)],
                  "opt:" + ",".join(sorted(o)), "rate-change" if len({s["name"].split("/")[1] for s in S}) > 1 else "same-rate")
    c.rule = "evaluation = one stream with configuration changes, every segment compared byte for byte with a fresh decoder"
    c.min_classes = 15

"""C08: slicing of the input into calls; prefixes of a stream give prefixes of its PCM."""
from suite import *
LEVEL = "metamorphic comparison over input slicings and truncations"


def one(a):
    it, o, kind, arg = a
    b = it["bytes"]
    if kind == "cut":
        b = b[:arg]
        arg = "full"
    return a, run("plain", [(b, dict(o, feed=arg))])


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c08")
    items = mix("c08", 100 if th else 26, 8) + mix("c08big", 6 if th else 2, 60) + tool_items("c08", 200 if th else 40)
    W = []
    for it in items:
        pk = split_packets(it["bytes"])
        ends = np.cumsum([len(p[2]) + len(p[3]) for p in pk]).tolist()
        o = opt_for(r, it)
        W.append((it, o, "feed", "full"))
        for f in ["pkt:1", "pkt:2", "pkt:3", "pkt:5"] + ["rnd:%d" % r.randint(1, 1 << 20) for _ in range(12 if th else 4)]:
            W.append((it, o, "feed", f))
        for e in r.sample(ends, min(len(ends), 12 if th else 4)):
            W.append((it, o, "cut", e))
        for _ in range(12 if th else 4):
            W.append((it, o, "cut", r.randint(1, len(it["bytes"]))))
    ref = {}
    res = pmap(one, W)
    for (it, o, kind, arg), R in res:
        if kind == "feed" and arg == "full":
            ref[it["name"]] = R
    for (it, o, kind, arg), R in res:
        nm = "%s %s %s=%s" % (it["name"], o, kind, arg)
        if not c.judge(nm, R, stream_mhas=it["bytes"]):
            continue
        q = ref[it["name"]]
        if q.i is None or R is q:
            continue
        c.saw((it["name"], o, kind, arg), kind + ":" + str(arg).split(":")[0] if kind == "feed" else "cut", *["opt-" + k for k in o])
        c.stat("calls", len(R.i.calls))
        if kind == "feed":
            if R.i.bad != q.i.bad:
                c.violation("statuses-differ", "%s: statuses %s instead of %s" % (nm, [hex(x) for x in R.i.bad][:5], [hex(x) for x in q.i.bad][:5]),
                            stream_mhas=it["bytes"], log=R.i.text)
            if R.i.pcm != q.i.pcm:
                c.violation("pcm-differs", "%s: %s" % (nm, same(q.i, R.i, ("pcm",))), stream_mhas=it["bytes"], log=R.i.text)
        else:
            # whole frames before the cut must be there and identical
            n = min(len(R.i.pcm), len(q.i.pcm))
            c.stat("truncations")
            if len(R.i.pcm) > len(q.i.pcm) or R.i.pcm != q.i.pcm[:n]:
                c.violation("not-a-prefix", "%s: PCM of the first %d bytes is not a prefix: %s" % (nm, arg, same(q.i, R.i, ("pcm",))),
                            stream_mhas=it["bytes"][:arg], log=R.i.text)
            nfull = 0
            pos = 0
            for p in split_packets(it["bytes"]):
                pos += len(p[2]) + len(p[3])
                if pos <= arg and p[0] == PT_FRAME:
                    nfull += 1
            want = sum(x["out"] for x in [y for y in q.i.execs if y["out"]][:nfull])
            if "frames" in it and len(R.i.pcm) < want and not q.i.bad:
                c.violation("frames-missing", "%s: %d bytes of PCM after %d whole frames, expected %d" % (nm, len(R.i.pcm), nfull, want),
                            stream_mhas=it["bytes"][:arg], log=R.i.text)
    c.rule = "evaluation = one (stream, slicing or truncation) compared with the same stream presented at once"
    c.min_classes = 6

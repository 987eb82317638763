"""C05: byte accounting of the output, per call and over the stream."""
from suite import *
LEVEL = "online accounting monitor on the API plus end-of-stream conservation check"


def one(a):
    it, opts, feed = a
    R = run("plain", [(it["bytes"], dict(opts, feed=feed))])
    return a, R


def trim_expected(i, it, opts):
    return None


def main(c, tier):
    vlib.build("plain")
    n = 26 if tier == "quick" else 200
    items = mix("c05", n, 6) + mix("c05L", 3 if tier == "quick" else 12, 40)
    work = []
    r = rng_for("c05w")
    for it in items:
        for o in [dict(pcmsz=16)] + r.sample([dict(pcmsz=24), dict(pcmsz=32), dict(cicp=1), dict(cicp=2), dict(cicp=6, pcmsz=24), dict(cicp=7),
                                              dict(cicp=12, pcmsz=32), dict(tl=-20), dict(outfs=48000), dict(outfs=44100)], 4):
            work.append((it, o, r.choice(["full", "full", "pkt:1", "pkt:2", "rnd:%d" % r.randint(1, 999)])))
    for it in tool_items("c05", 60 if tier == "quick" else 500):
        it = dict(it, frames=range(it["frames_"]), fs=it["fs_"])
        for o in [dict(pcmsz=r.choice([16, 24, 32]))] + r.sample([dict(pcmsz=24), dict(cicp=6, pcmsz=24), dict(tl=-20), dict(cicp=2, pcmsz=32)], 1):
            work.append((it, dict(opt_for(r, it, o)), r.choice(["full", "full", "pkt:1", "pkt:2", "rnd:%d" % r.randint(1, 999)])))
    trims = {}
    for (it, o, feed), R in pmap(one, work):
        name = "%s %s %s" % (it["name"], o, feed)
        if not c.judge(name, R, stream_mhas=it["bytes"]):
            continue
        i = R.i
        if i.cfg is None or i.bad:
            if "frames" in it and "outfs" not in o:
                c.violation("valid-stream-refused", "%s: %s" % (name, [hex(x) for x in i.bad][:4]), stream_mhas=it["bytes"], log=i.text)
            c.stat("refused")
            continue
        pcm, ch = o.get("pcmsz", 16), i.nch
        sb = ch * pcm // 8
        outs = [x["out"] for x in i.execs]
        c.saw((it["name"], o, feed), "ch%d" % ch, "pcm%d" % pcm, "feed-" + feed.split(":")[0], "fs%d" % i.fs, *["opt-" + k for k in o])
        c.stat("calls", len(outs)); c.stat("bytes", sum(outs))
        if i.cfg["pcm"] != pcm:
            c.violation("word-length", "%s: reported word length %d" % (name, i.cfg["pcm"]), stream_mhas=it["bytes"], log=i.text)
        bad = [x for x in outs if x % sb]
        if bad:
            c.violation("partial-frame", "%s: %d output bytes are not whole sample frames of %d bytes" % (name, bad[0], sb), stream_mhas=it["bytes"], log=i.text)
            continue
        nz = [x // sb for x in outs if x]
        if "frames" not in it or not nz or "brir" in o:
            continue
        N = len(it["frames"])
        total = sum(nz)
        res = "outfs" in o
        if res:
            ratio = i.fs / float(it["fs"])
            # per frame the exact rational multiple
            e = 1024 * ratio
            if any(abs(x - e) > 1e-9 for x in nz[1:]) and ratio == 1:
                c.violation("frame-length", "%s: calls return %s samples" % (name, sorted(set(nz))), stream_mhas=it["bytes"], log=i.text)
            if abs(total - N * e) > e:
                c.violation("total-resampled", "%s: %d samples for %d frames at ratio %.3f" % (name, total, N, ratio), stream_mhas=it["bytes"], log=i.text)
        else:
            if len(nz) != N:
                c.violation("frame-count", "%s: %d calls returned audio for %d frames" % (name, len(nz), N), stream_mhas=it["bytes"], log=i.text)
                continue
            if any(x != 1024 for x in nz[1:]):
                c.violation("frame-length", "%s: calls after the first return %s samples" % (name, sorted(set(nz[1:]))), stream_mhas=it["bytes"], log=i.text)
            D = N * 1024 - total
            if it.get("cls") == "drc-multiband" or (it.get("cls") and "cicp" in o):
                continue     # band splitting and rendered layouts have their own delays
            key = (it["fs"], "cicp" not in o)
            trims.setdefault(key, {}).setdefault(D, []).append((name, it, i))
            c.smax("trimmed samples", D)
    for key, d in trims.items():
        fs, same = key
        if len(d) > 1:
            few = min(d, key=lambda x: len(d[x]))
            nm, it, i = d[few][0]
            c.violation("trim-differs", "fs %d: start-up delay %d in %s, elsewhere %s" % (fs, few, nm, {k: len(v) for k, v in d.items()}), stream_mhas=it["bytes"], log=i.text)
        c.sample("fs %d %s: trim %s" % (fs, "same layout" if same else "converted", {k: len(v) for k, v in d.items()}))
        if same:
            want = ATTACK if fs == 48000 else 0
            for D in d:
                if D != want:
                    nm, it, i = d[D][0]
                    c.violation("trim-value", "%s: start-up delay %d instead of %d" % (nm, D, want), stream_mhas=it["bytes"], log=i.text)
    c.rule = "evaluation = one stream decoded with one option set and slicing; distinct by those three"
    c.min_classes = 12

"""C07: instances neither share state nor disturb each other: interleaved and threaded runs against solo runs, ThreadSanitizer."""
from suite import *
LEVEL = "solo-versus-concurrent comparison under many interleavings plus ThreadSanitizer"


def solo(a):
    it, o = a
    return run("plain", [(it["bytes"], o)])


def main(c, tier):
    vlib.build("plain"); vlib.build("tsan")
    th = tier == "thorough"
    r = rng_for("c07")
    items = mix("c07", 60 if th else 24, 8) + tool_items("c07", 120 if th else 26)
    pool = []
    for it in items:
        for o in [dict(pcmsz=r.choice([16, 24, 32]))] + r.sample(OPTMIX, 2):
            pool.append((it, dict(opt_for(r, it, o), feed=r.choice(["full", "pkt:1", "pkt:2"]))))
        if r.random() < .5:
            it2 = dict(it, name=it["name"] + "~", bytes=damage(r, it["bytes"]))
            pool.append((it2, dict(feed="pkt:1")))
    base = pmap(solo, pool)
    ok = [k for k, R in enumerate(base) if R.rc == 0]

    def group(kind):
        n = r.choice([2, 2, 3, 4, 6])
        ks = [r.choice(ok) for _ in range(n)]
        if r.random() < .3:
            ks[1] = ks[0]
        return kind, ks, r.getrandbits(30)

    def go(g):
        kind, ks, s = g
        ins = [(pool[k][0]["bytes"], pool[k][1]) for k in ks]
        if kind == "interleave":
            return g, run("plain", ins, ["ilseed=%d" % s])
        if kind == "threads":
            return g, run("plain", ins, ["threads=1"])
        return g, run("tsan", ins, ["threads=1"], timeout=120)

    ng = (400, 150, 150) if th else (90, 40, 40)
    W = [group("interleave") for _ in range(ng[0])] + [group("threads") for _ in range(ng[1])] + [group("tsan") for _ in range(ng[2])]
    # every stored stream and half the scenes meet ThreadSanitizer at least once
    for it_k in ok[::2]:
        W.append(("tsan", [it_k, r.choice(ok)], 0))
    # and pairs of instances that run the same code at the same time: every playback option twice at once, on a stream it applies to
    sel = {}
    for k in ok:
        it, o = pool[k]
        if pool[k][0].get("name", "").endswith("~"):
            continue
        key = tuple(sorted((a, b) for a, b in o.items() if a not in ("feed", "pcmsz")))
        sel.setdefault(key, []).append(k)
    extra = [dict(name="rs%d" % fs, bytes=scene("c07rs%s%d" % (SEED, fs), fs, 2, 4, ("win",))["bytes"]) for fs in (32000, 24000, 16000, 22050)]
    for e in extra:
        pool.append((e, dict(outfs=44100 if e["name"] == "rs22050" else 48000, feed="full")))
        base.append(solo(pool[-1])); sel[("rs", e["name"])] = [len(pool) - 1]
    for key, ks in sorted(sel.items(), key=str):
        for k in r.sample(ks, min(len(ks), 2)):
            W.append(("tsan", [k, k], 0)); W.append(("threads", [k, k, r.choice(ks)], 0))
    inter = pmap(go, [w for w in W if w[0] == "interleave"])
    para = pmap(go, [w for w in W if w[0] != "interleave"], 3)
    for (kind, ks, s), R in inter + para:
        nm = "%s of %s" % (kind, [pool[k][0]["name"] for k in ks])
        f = {"s%d_mhas" % j: pool[k][0]["bytes"] for j, k in enumerate(ks)}
        c.saw((kind, ks, s), kind, "n%d" % len(ks), "same-stream" if len(set(ks)) < len(ks) else "different-streams",
              *["opt-" + o for k in ks for o in pool[k][1]])
        c.stat(kind + " groups")
        if R.timed_out:
            c.inconclusive.append(nm + ": watchdog"); continue
        if R.rc in (66, 67, 68, 69):
            c.violation(vlib.sanitizer_key(R.err, R.rc), nm + ": " + R.err[:3000], **f); continue
        if R.rc not in (0, 3):
            c.violation("crash-when-concurrent", "%s: exit %s %s" % (nm, R.rc, R.err[-800:]), **f); continue
        for k, i in zip(ks, R.insts):
            d = same(base[k].i, i)
            c.stat("instance comparisons")
            if d:
                c.violation("instance-disturbed-" + kind, "%s: %s decodes differently than alone: %s" % (nm, pool[k][0]["name"], d), **f)
    c.rule = "evaluation = one group of 2-6 instances run interleaved, in threads, or in threads under ThreadSanitizer"
    c.min_classes = 6

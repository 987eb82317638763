"""C21: each allocation failing in turn, delete at every point, allocator balance, guard zones, LeakSanitizer."""
from suite import *
LEVEL = "exhaustive single-fault injection over the allocations; randomised delete points"
NOMEM = 0xFFFF8000


def one(a):
    it, o, kind, arg, var = a
    if kind == "fail":
        o = dict(o, failalloc=arg)
    elif kind == "calls":
        o = dict(o, mcalls=arg)
    env = {"ASAN_OPTIONS": vlib.SANENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")} if var == "asan" else None
    R = run(var, [(it["bytes"], o)], env=env)
    if env and "LeakSanitizer has encountered a fatal error" in R.err:
        R = run(var, [(it["bytes"], o)])     # leak scan not possible here; the allocator log still decides
    return a, R


def main(c, tier):
    vlib.build("plain"); vlib.build("asan")
    th = tier == "thorough"
    r = rng_for("c21")
    items = mix("c21", 40 if th else 10, 5) + tool_items("c21", 80 if th else 20)
    empty = dict(name="empty", bytes=b"\xff")
    W = []
    opts = OPTMIX + [dict(extren=1), dict(cicp=0, pcmsz=32, tl=-20, effect=1, preset=3)]
    base = run("plain", [(items[0]["bytes"], {})]).i
    nm_ = base.end and int(base.delete["mallocs"])
    for o in opts:
        for k in range(1, nm_ + 3):
            for var in ("plain", "asan"):
                it = r.choice(items)
                W.append((it, opt_for(r, it, o), "fail", k, var))
    for it in items + [empty]:
        for o in r.sample(opts, 4 if th else 1):
            n = len(split_packets(it["bytes"])) if it is not empty else 1
            for k in ([0, 1, 2] + [r.randint(1, n + 2) for _ in range(8 if th else 2)] + [2000]):
                W.append((it, opt_for(r, it, o), "calls", k, "asan" if r.random() < .5 else "plain"))
    # damaged streams must be deletable too
    for _ in range(300 if th else 40):
        it = r.choice(items)
        d = dict(it, name=it["name"] + "/damaged", bytes=damage(r, it["bytes"], True))
        W.append((d, opt_for(r, it, r.choice(opts)), "calls", 100, "asan"))
    for (it, o, kind, arg, var), R in pmap(one, W):
        nm = "%s %s %s=%s %s" % (it["name"], o, kind, arg, var)
        f = dict(stream_mhas=it["bytes"])
        if "LeakSanitizer" in R.err:
            c.violation("leak", nm + ": " + R.err[:1500], **f)
            continue
        if not c.judge(nm, R, **f):
            continue
        i = R.i
        d = i.delete or {}
        c.saw((it["name"], o, kind, arg, var), kind + "-%s" % (arg if kind == "fail" else min(arg, 3)), var, *["opt-" + k for k in o])
        c.stat("allocations", int(d.get("mallocs", 0)))
        c.stat("frees", int(d.get("frees", 0)))
        f["log"] = i.text
        if kind == "fail" and arg <= nm_:
            c.stat("failures injected")
            if not i.create or int(i.create["err"], 16) != NOMEM:
                c.violation("failure-not-reported:%d" % arg, "%s: create returned %s" % (nm, i.create and i.create["err"]), **f)
            if int(d.get("mallocs", 0)) != arg:
                c.violation("went-on-after-failure:%d" % arg, "%s: %s requests made" % (nm, d.get("mallocs")), **f)
        else:
            if not i.create or int(i.create["err"], 16) & 0x8000:
                c.violation("create-failed", "%s: create returned %s with memory available" % (nm, i.create and i.create["err"]), **f)
            if int(d.get("mallocs", 0)) != nm_:
                c.violation("later-allocation", "%s: %s requests instead of %d" % (nm, d.get("mallocs"), nm_), **f)
            if int(d.get("frees", 0)) != nm_:
                c.violation("frees", "%s: %s blocks returned of %d" % (nm, d.get("frees"), nm_), **f)
        if d.get("err") != "0":
            c.violation("delete-failed", "%s: delete returned %s" % (nm, d.get("err")), **f)
        if d.get("live_after") != "0":
            c.violation("leak", "%s: %s blocks left" % (nm, d.get("live_after")), **f)
    c.rule = "evaluation = one instance life cycle with an injected failure or an early delete; all allocator calls balanced, guards intact"
    c.min_classes = nm_ + 4

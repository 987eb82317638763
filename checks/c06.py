"""C06: determinism and independence of memory contents (fill comparison and MemorySanitizer)."""
from suite import *
import hostile, time
LEVEL = "self-composition over memory contents plus MemorySanitizer"
FILLS = [dict(heapfill=0, stackfill=0, intail=0), dict(heapfill=0xA5, stackfill=0x5A, intail=0xFF, scrfill=0x7F), dict(heapfill=0xFF, stackfill=0xFF, intail=0x80, scrfill=0x3F),
         dict(heapfill=0x41, stackfill=0x3F, intail=0x55, scrfill=0xC1)]


def fills(a):
    name, b, o, dmg = a
    return a, [run("plain", [(b, dict(o, **f))]) for f in FILLS]


def msan(a):
    name, b, o, dmg = a
    return a, run("msan", [(b, dict(o))], timeout=120)


def main(c, tier):
    vlib.build("plain"); vlib.build("msan")
    th = tier == "thorough"
    r = rng_for("c06")
    items = mix("c06", 120 if th else 24, 8) + tool_items("c06", 200 if th else 40)
    W, M = [], []
    for it in items:
        for o in [dict()] + r.sample(OPTMIX, 3 if th else 2):
            W.append((it["name"], it["bytes"], opt_for(r, it, o), False))
        for k in range(6 if th else 3):
            o = opt_for(r, it)
            W.append((it["name"], damage(r, it["bytes"], k == 1), o, True))
        M.append((it["name"], it["bytes"], opt_for(r, it), False))
        M.append((it["name"], damage(r, it["bytes"], r.random() < .3), opt_for(r, it), True))
    for (name, b, o, dmg), Rs in pmap(fills, W):
        nm = "%s %s%s" % (name, o, " damaged" if dmg else "")
        # crashes on damaged input are C01's business; here only differences count
        if any(R.timed_out or R.rc not in (0, 3) for R in Rs):
            if len(set(R.rc for R in Rs)) > 1:
                c.violation("fill-dependent-crash", "%s: exit codes %s" % (nm, [R.rc for R in Rs]), stream_mhas=b)
            else:
                c.inconclusive.append(nm + ": run did not finish (%s)" % Rs[0].rc)
            continue
        c.saw(b + repr(o).encode(), "fill", "damaged" if dmg else "valid", *["opt-" + k for k in o])
        c.stat("fill comparisons", len(Rs) - 1)
        for R, f in zip(Rs[1:], FILLS[1:]):
            d = same(Rs[0].i, R.i)
            if d:
                c.violation("fill-dependent-" + ("damaged" if dmg else "valid"), "%s: with fills %s: %s" % (nm, f, d), stream_mhas=b)
    for (name, b, o, dmg), R in pmap(msan, M):
        nm = "msan %s %s%s" % (name, o, " damaged" if dmg else "")
        c.saw(b + repr(("m", o)).encode(), "msan", "msan-damaged" if dmg else "msan-valid")
        c.stat("MemorySanitizer runs")
        if R.timed_out:
            c.inconclusive.append(nm + ": watchdog")
            continue
        if R.rc == 69:
            c.violation(vlib.sanitizer_key(R.err, R.rc), nm + ": " + R.err[:2500], stream_mhas=b)
    # recorded coverage-guided inputs and seeded mutations of them: every decision and output byte defined
    exe = vlib.build("msanreplay", "fuzz")
    n = hostile.unpack()[1]
    jobs = [("pack", a, min(n, a + 80)) for a in range(0, n, 80)]
    jobs += [("mut", a, a + (1000 if th else 120)) for a in range(0, 40000 if th else 1920, 1000 if th else 120)]
    end = time.time() + (420 if th else 300)

    def one(j):
        return j, hostile.chunk(exe, j[0], j[1], j[2], vlib.SEED + 6, end)
    for j, (st, crashes, hangs) in pmap(one, jobs):
        c.saw(repr(("h", j)).encode(), "msan-hostile-" + j[0])
        c.evals += max(0, st["cases"] - 1)
        for k in ("cases", "frames"):
            c.stat("hostile %s under MemorySanitizer" % k, st[k])
        for key, err, data in crashes:
            if key.startswith("alarm:") or "use-of-uninit" not in key:
                c.stat("judged by C01/C04")
                continue
            c.violation(key, "hostile input %s: %s" % (j, err[-2500:]), case_bin=data)
    c.rule = "evaluation = one (stream, options) pair decoded under four memory fills, or once under MemorySanitizer"
    c.min_classes = 8

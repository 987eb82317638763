"""C04: every call returns, consumes between 0 and the presented bytes, makes progress, and returns a published status."""
from suite import *
import re
MORE = {0x1000, 0x1001, 0x1002, 0x1003, 0x1005, 0x1800}      # the caller is asked for more data
LEVEL = "randomised testing with an online progress monitor"


def codes():
    s = open(os.path.join(vlib.REPO, "decoder", "impeghd_error_codes.h")).read() + open(os.path.join(vlib.REPO, "decoder", "ia_core_coder_api_defs.h")).read()
    out = {0}
    for m in re.finditer(r"#define\s+\w+\s+\(?(0x[0-9a-fA-F]+)", s):
        out.add(int(m.group(1), 16))
    return out


def junk(r):
    """streams that were never valid"""
    k = r.randint(0, 5)
    if k == 0:
        return bytes(r.getrandbits(8) for _ in range(r.randint(1, 3000)))
    if k == 1:
        return bytes([r.choice([0, 255, 0xA5, 0xC0, r.getrandbits(8)])]) * r.randint(1, 3000)
    if k == 2:   # random packets
        return b"".join(packet(r.randint(0, 30), bytes(r.getrandbits(8) for _ in range(r.randint(0, 60))), r.choice([0, 1, 5, 300])) for _ in range(r.randint(1, 40)))
    if k == 3:   # configuration of random bits
        return sync() + b"".join(packet(PT_CFG, bytes([0x0D, r.getrandbits(8)]) + bytes(r.getrandbits(8) for _ in range(r.randint(1, 60))), 1) +
                                 packet(PT_FRAME, bytes(r.getrandbits(8) for _ in range(100)), 1) for _ in range(r.randint(1, 5)))
    if k == 4:   # packet length beyond the end / enormous
        w = BW().esc(r.choice([0, 1, 2, 6]), 3, 8, 8).esc(1, 2, 8, 32).u(2047, 11).u((1 << 24) - 1, 24).u(r.getrandbits(24), 24)
        w.align()
        return w.bytes() + bytes(r.getrandbits(8) for _ in range(r.randint(0, 500)))
    n = r.choice([1, 2])
    c = config(fs=48000, level=0x0D, spk=spk_cicp(n), groups=[grp_ch(n)], elements=[dict(type="SCE", nf=r.randint(0, 1)) for _ in range(n)])
    return stream(c, [bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 3, 50, 400]))) for _ in range(8)])


def one(a):
    name, b, o = a
    return a, run("plain", [(b, o)], ["cpulimit=60"], timeout=400)


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c04")
    pub = codes()
    items = mix("c04", 60 if th else 16, 6) + tool_items("c04", 200 if th else 40)
    FEEDS = ["full", "pkt:1", "pkt:3", "win:1", "win:7", "win:64", "win:700"] + ["rnd:%d" % k for k in range(4)]
    W = []
    for it in items:
        W.append((it["name"], it["bytes"], dict(opt_for(r, it), feed=r.choice(FEEDS))))
        for _ in range(40 if th else 8):
            W.append((it["name"] + "/damaged", damage(r, it["bytes"], r.random() < .4), dict(opt_for(r, it), feed=r.choice(FEEDS))))
        for _ in range(10 if th else 2):
            b = it["bytes"]
            k = r.randint(0, 3)
            if k == 0:
                b = b[:r.randint(1, len(b))]
            elif k == 1:
                b = b[r.randint(1, len(b) - 1):]
            elif k == 2:
                s = r.randint(0, len(b) - 1); b = b[:s] + b[s + r.randint(1, 40):]
            else:
                s = r.randint(0, len(b) - 1); b = b[:s] + bytes(r.getrandbits(8) for _ in range(r.randint(1, 40))) + b[s:]
            W.append((it["name"] + "/cut", b, dict(opt_for(r, it), feed=r.choice(FEEDS))))
    for k in range(2500 if th else 350):
        W.append(("junk", junk(r), dict(r.choice(OPTMIX), feed=r.choice(FEEDS))))
    for k in range(60 if th else 12):     # data calls on an instance that was never initialised
        it = r.choice(items)
        W.append((it["name"] + "/noinit", it["bytes"], dict(opt_for(r, it), feed=r.choice(FEEDS), noinit=r.choice([1, 2, 40]))))
    for (name, b, o), R in pmap(one, W):
        nm = "%s %s" % (name, o)
        f = dict(stream_mhas=b)
        if R.rc in (-24, 152):
            c.violation("hang", nm + ": one call used more than 60 s of processor time", log=R.i.text if R.i else "", **f)
            continue
        if not c.judge(nm, R, **f):
            continue
        i = R.i
        f["log"] = i.text
        zero = 0
        for k, q in enumerate(i.calls):
            e = q["err"]
            if e not in pub:
                c.violation("unpublished-status", "%s: call %d returned 0x%x" % (nm, k, e), **f)
            if not 0 <= q["used"] <= q["in"]:
                c.violation("consumed", "%s: call %d consumed %d of %d" % (nm, k, q["used"], q["in"]), **f)
            if q["used"] == 0 and q["out"] <= 0:
                zero += 1
                if e not in MORE and q["in"] > 0:
                    # a caller that offers the same bytes again would get the same answer for ever
                    c.violation("stall-%x" % e, "%s: call %d (%s) returned 0x%x without consuming any of %d bytes" % (nm, k, q["kind"], e, q["in"]), **f)
            c.classes["status-%x" % e] = c.classes.get("status-%x" % e, 0) + 1
        c.saw(b, name.split("/")[-1] if "/" in name else ("junk" if name == "junk" else "valid"), "feed-" + o["feed"].split(":")[0])
        c.stat("calls", len(i.calls)); c.stat("calls without consumption or output", zero)
        # every call but the zero-consumption ones eats at least a byte; the driver offers more after each of those
        nout = sum(1 for q in i.calls if q["out"] > 0)
        if len(i.calls) > 2 * len(b) + 3 * nout + 200:
            c.violation("too-many-calls", "%s: %d calls for %d bytes" % (nm, len(i.calls), len(b)), **f)
        if i.end and i.end["pos"] < i.end["size"]:
            c.violation("not-finished", "%s: stopped at byte %d of %d" % (nm, i.end["pos"], i.end["size"]), **f)
    c.rule = "evaluation = one byte string with one slicing, every call monitored"
    c.min_classes = 12

"""C23: every limit of the configuration syntax, one and two fields at a time: refused with a fatal error and silent, or
accepted with the declared channel count and rate."""
from suite import *
LEVEL = "enumeration of configuration fields around every limit plus random combinations"
LVL = {0x0B: 5, 0x0C: 9, 0x0D: 16, 0x10: 5, 0x11: 9, 0x12: 16}
NSPK = [0, 1, 2, 3, 4, 5, 6, 8, 0, 3, 4, 7, 8, 24, 8, 12, 10, 12, 14, 12, 14]
EN = [k for k, g in GEO.items()] if isinstance(GEO, dict) else list(range(len(GEO)))


def conf(x):
    """x: description of a configuration -> (config bytes, element list)"""
    n = x["n"]
    spk = x.get("spk") or spk_list([i % 43 for i in range(n)])
    el = x.get("el") or [dict(type="SCE") for _ in range(n)]
    gr = x.get("groups") or [grp_ch(n)]
    return config(fs=x.get("fs", 48000), fsidx=x.get("fsidx"), ccfl=x.get("ccfl", 1), level=x.get("level", 0x0D), spk=spk, groups=gr, elements=el,
                  cfgext=x.get("cfgext"), delaycomp=x.get("delaycomp", 0), elen=x.get("elen", 0), reserved=x.get("reserved", 0)), el


def flex(items, prec=0):
    """items: (el_class, el_idx, az_idx, az_dir, lfe)"""
    def f(w):
        w.u(2, 2).esc(len(items) - 1, 5, 8, 16).u(prec, 1)
        for ec, ei, az, ad, lfe in items:
            w.u(0, 1).u(ec, 2)
            if ec == 3:
                w.u(ei, 7 if prec else 5)
                if ei:
                    w.u(0, 1)
            w.u(az, 8 if prec else 6)
            deg = az if prec else az * 5
            if deg not in (0, 180):
                w.u(ad, 1)
            w.u(lfe, 1)
            if deg not in (0, 180):
                w.u(0, 1)      # no symmetric pair
    return f


def compat(levels):
    w = BW().u(len(levels) - 1, 4).u(0, 4)
    for l in levels:
        w.u(l, 8)
    return (7, w)


def level_ok(level, n, ref, chan):
    if level not in LVL:
        return False
    if n > 24 or ref > 24:
        return False
    m = LVL[level]
    if m == 16 and not chan:
        m = 24
    return n <= m and ref <= m


def cases(r, th):
    out = []

    def add(name, ok, **x):
        out.append((name, ok, x))
    # sampling rates
    for k in range(32):
        if k < 31:
            add("fs-index-%d" % k, k in (3, 4, 5, 6, 7, 8), n=1, fsidx=k, fs=FS_TBL[k] if k < 9 else 48000)
    for f, ok in ((0, 0), (48001, 0), (64000, 0), (88200, 0), (96000, 0), (0xFFFFFF, 0), (48000, 1), (44100, 1), (32000, 1), (24000, 1), (22050, 1), (16000, 1)):
        add("fs-explicit-%d" % f, bool(ok), n=r.choice([1, 2]), fsidx=31, fs=f)
    for _ in range(20 if th else 6):
        add("fs-explicit-high", False, n=1, fsidx=31, fs=r.randint(48001, (1 << 24) - 1))
    # frame length
    for k in (5, 6, 7):
        add("frame-length-%d" % k, False, n=1, ccfl=k)
    add("frame-length-1", True, n=1, ccfl=1)
    # layouts
    for k in range(64):
        if k == 0 or k > 20:
            add("cicp-%d" % k, False, n=1, spk=spk_cicp(k), level=0x0D)
        elif NSPK[k]:
            nn = NSPK[k]
            add("cicp-%d" % k, nn <= 16, n=nn, spk=spk_cicp(k), level=0x0D)
    for n in list(range(1, 40)) + [256, 300]:
        # a loudspeaker list of n, the signals as many as allowed
        add("speaker-list-%d" % n, n <= 16, n=min(n, 16), spk=spk_list([i % 43 for i in range(n)]))
    for s in range(128):
        add("speaker-index-%d" % s, s <= 42, n=2, spk=spk_list([0, s]))
    for prec in (0, 1):
        for az in range(0, 64 if not prec else 256, 1 if th else 3):
            add("flex-azimuth-%d-%d" % (prec, az), az <= (180 if prec else 36), n=2, spk=flex([(0, 0, 4, 0, 0), (0, 0, az, 1, 0)], prec))
        for e in range(0, 32 if not prec else 128, 1 if th else 3):
            add("flex-elevation-%d-%d" % (prec, e), e <= (90 if prec else 18), n=2, spk=flex([(0, 0, 4, 0, 0), (3, e, 4, 1, 0)], prec))
    # number and kind of signal groups
    for g in range(1, 33):
        if g > 16:
            add("groups-%d" % g, False, n=g, groups=[grp_ch(1)] * g, spk=spk_cicp(2))
        if g in (2, 6):
            add("groups-%d" % g, True, n=g, groups=[grp_ch(1)] * g, spk=spk_cicp(g))
    for t in (4, 5, 6, 7):
        def gt(w, t=t):
            w.u(t, 3).esc(0, 5, 8, 16)
        gt.n = 1
        add("group-type-%d" % t, False, n=1, groups=[gt])
        add("group-type-%d-second" % t, False, n=2, groups=[grp_ch(1), gt], delaycomp=1)
    for d in (0, 1):
        for a, b in ((grp_ch, grp_obj), (grp_obj, grp_ch), (grp_ch, grp_hoa), (grp_hoa, grp_obj)):
            if d == 0:
                add("mixed-groups-no-delay-compensation", False, n=2, groups=[a(1), b(1)], delaycomp=0)
    # levels and channel counts
    for l in list(range(0, 0x20)) + [0x40, 0x80, 0xFF]:
        for n in (1, 5, 6, 9, 10, 16, 17, 24):
            add("level-%02x-ch-%d" % (l, n), level_ok(l, n, n, True), n=n, level=l)
    for l in LVL:
        for n in range(1, 26):
            if n <= 24:
                add("level-%02x-ch-%d" % (l, n), level_ok(l, n, n, True), n=n, level=l)
            add("level-%02x-ref-%d" % (l, n), level_ok(l, 1, n, True), n=1, level=l, spk=spk_list([i % 43 for i in range(n)]))
    for n in (25, 26, 32, 100):
        add("signals-%d" % n, False, n=n, spk=spk_cicp(2), el=[dict(type="SCE")] * min(n, 40))
        add("object-signals-%d" % n, False, n=n, spk=spk_cicp(2), groups=[grp_obj(n)], el=[dict(type="SCE")] * min(n, 40))
        add("hoa-signals-%d" % n, False, n=n, spk=spk_cicp(2), groups=[grp_hoa(n)], el=[dict(type="SCE")] * min(n, 40))
    # compatible profile sets override the level
    for n in (1, 5, 6, 9, 10, 16):
        for l in (0x0B, 0x0C, 0x0D, 0x0E, 0x10, 0x11, 0x12):
            for cl in (0x0B, 0x0C, 0x0D, 0x10, 0x11, 0x12):
                add("compatible-%02x" % cl, level_ok(cl, n, n, True), n=n, level=l, cfgext=[compat([cl])])
    for l in range(0x0B):
        add("compatible-cannot-rescue", False, n=1, level=l, cfgext=[compat([0x0B])])
    # more than 16 loudspeakers or signals: plain single channels only
    obj = [grp_obj(20)]
    base = [dict(type="SCE") for _ in range(20)]
    for nm, e in (("cpe", dict(type="CPE")), ("lfe", dict(type="LFE")), ("noise", dict(type="SCE", nf=1)), ("mct", dict(type="EXT", ext=EXT_MCT, config=b"\x00"))):
        add("over-16-" + nm, False, n=20, groups=obj, spk=spk_cicp(2), el=[e] + base[:19 if nm != "cpe" else 18], level=0x0D)
    # elements
    for n in range(46, 60):
        add("elements-%d" % n, n <= 50, n=2, el=[dict(type="SCE"), dict(type="SCE")] + [dict(type="EXT", ext=EXT_FILL)] * (n - 2), spk=spk_cicp(2))
    add("time-warp-sce", False, n=1, el=[dict(type="SCE", tw=1)])
    add("time-warp-cpe", False, n=2, el=[dict(type="CPE", tw=1)])
    for q in (1, 2, 3):
        add("quad-channel-%d" % q, False, n=2, el=[dict(type="CPE", qce=q)])
    S = dict(type="SCE")
    for pos in (0, 1):
        def put(e):
            return [e, S] if pos == 0 else [S, e]
        add("preroll-element-%d" % pos, pos == 0, n=1, el=put(dict(type="EXT", ext=EXT_PREROLL)))
        add("preroll-config", False, n=1, el=put(dict(type="EXT", ext=EXT_PREROLL, config=b"\x00")))
        add("preroll-default-length", False, n=1, el=put(dict(type="EXT", ext=EXT_PREROLL, deflen=4)))
        add("preroll-fragmented", False, n=1, el=put(dict(type="EXT", ext=EXT_PREROLL, frag=1)))
        add("fill-config", False, n=1, el=put(dict(type="EXT", ext=EXT_FILL, config=b"\x01\x02")))
        add("fill-fragmented", False, n=1, el=put(dict(type="EXT", ext=EXT_FILL, frag=1)))
        add("drc-fragmented", False, n=1, el=put(dict(type="EXT", ext=EXT_DRC, frag=1, config=bytes(8))))
        add("mct-fragmented", False, n=1, el=put(dict(type="EXT", ext=EXT_MCT, frag=1, config=bytes(8))))
        add("mct-empty", False, n=1, el=put(dict(type="EXT", ext=EXT_MCT)))
        add("reserved-extension", True, n=1, el=put(dict(type="EXT", ext=r.randint(40, 500), config=bytes(r.randint(0, 20)))))
        for n in (1536, 1537, 5000):
            add("extension-config-%d" % n, False, n=1, el=put(dict(type="EXT", ext=60, cfglen=n)))
    # configuration extensions
    for bad in (0, 0xA4, 0xFF):
        add("fill-byte-%02x" % bad, False, n=1, cfgext=[(0, bytes([0xA5, bad]))])
    add("fill-bytes", True, n=1, cfgext=[(0, b"\xA5" * r.randint(0, 40))])
    add("reserved-config-extension", True, n=1, cfgext=[(r.randint(20, 200), bytes(r.getrandbits(8) for _ in range(r.randint(0, 30))))])
    for n in range(1, 40):
        if n <= 5 or n > 16:
            add("config-extensions-%d" % n, n <= 5, n=1, cfgext=[(0, b"\xA5")] * n)
    add("config-extension-too-long", False, n=1, cfgext=[(1, bytes(700))] * 2)
    for k in (21, 30, 63):
        add("group-layout-%d" % k, False, n=2, spk=spk_cicp(2), groups=[grp_ch(2, spk_cicp(k))])
    add("group-layout-too-many-speakers", False, n=2, spk=spk_cicp(2), groups=[grp_ch(2, spk_list(list(range(25))))])
    add("group-layout-bad-speaker", False, n=2, spk=spk_cicp(2), groups=[grp_ch(2, spk_list([0, r.randint(43, 127)]))])
    add("group-layout-more-channels", False, n=2, spk=spk_cicp(2), groups=[grp_ch(2, spk_cicp(6))])
    # random combinations: a configuration is refused as soon as one field is out of its limits
    for _ in range(1500 if th else 150):
        n = r.choice([1, 2, 3, 5, 6, 8, 9, 10, 12, 16, 17, 20, 24])
        l = r.choice([0x0B, 0x0C, 0x0D, 0x10, 0x11, 0x12, r.randint(0, 255)])
        x, ok = dict(n=n, level=l), level_ok(l, n, n, True)
        if r.random() < .3:
            x["fsidx"] = r.randint(0, 30); ok &= x["fsidx"] in (3, 4, 5, 6, 7, 8)
            x["fs"] = FS_TBL[x["fsidx"]] if x["fsidx"] < 9 else 48000
        else:
            x["fs"] = r.choice(FS_ALL)
        if r.random() < .2:
            x["ccfl"] = r.choice([1, 1, 5, 6, 7]); ok &= x["ccfl"] == 1
        if r.random() < .3:
            sp = [r.randint(0, 42) for _ in range(n)]
            if r.random() < .3:
                sp[r.randrange(n)] = r.randint(43, 127); ok = False
            x["spk"] = spk_list(sp)
        if r.random() < .2:
            x["elen"] = 1
        if r.random() < .2:
            x["reserved"] = 1
        if r.random() < .2 and n >= 2:
            x["el"] = [dict(type="CPE")] + [dict(type="SCE") for _ in range(n - 2)]
            ok &= n <= 16
        add("combination", ok, **x)
    return out


W = []


def job(n):
    (name, ok, x), key = W[n]
    cfg, el = conf(x)
    rng = random.Random(key)
    frames = []
    fs = x.get("fs", 48000)
    if fs in FS_ALL and all(e["type"] in ("SCE", "CPE", "LFE", "EXT") for e in el) and len(el) < 60:
        f = FD(rng, fs, el, gg=(120, 130), tools=())
        e = Enc(fs, el, x.get("elen", 0))
        for k in range(3):
            frames.append(e.frame(1 if k == 0 else 0, f.frame(1 if k == 0 else 0)))
    else:
        frames = [bytes([0x80]) + bytes(rng.getrandbits(8) for _ in range(60)) for _ in range(3)]
    b = stream(cfg, frames)
    o = dict()
    return n, b, run("plain", [(b, o)])


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c23")
    W[:] = [(x, "c23/%d/%d" % (SEED, k)) for k, x in enumerate(cases(r, th))]
    for n, b, R in procmap(job, range(len(W)), chunk=8):
        name, ok, x = W[n][0]
        f = dict(stream_mhas=b)
        if not c.judge(name, R, **f):
            continue
        i = R.i
        f["log"] = i.text
        cls = re_num(name)
        c.saw(b, ("accept:" if ok else "refuse:") + cls)
        c.stat("accepted" if ok else "refused")
        if ok:
            if i.bad or not i.pcm:
                c.violation("valid-refused:" + cls, "%s is within the limits but: %s, %d bytes" % (name, [hex(v) for v in i.bad][:3], len(i.pcm)), **f)
                continue
            if i.fs != x.get("fs", 48000):
                c.violation("rate:" + cls, "%s: reports %d Hz" % (name, i.fs), **f)
            want = x["n"]
            if i.nch != want and "ref" not in name and "speaker" not in name and "groups" not in name:
                c.violation("channels:" + cls, "%s: reports %d channels instead of %d" % (name, i.nch, want), **f)
        else:
            if i.pcm:
                c.violation("audio-from-refused:" + cls, "%s is outside the limits but produced %d bytes of audio" % (name, len(i.pcm)), **f)
            elif not i.fatal():
                c.violation("no-fatal-error:" + cls, "%s is outside the limits but no fatal error was returned: %s" % (name, [hex(v) for v in i.bad][:3]), **f)
    c.rule = "evaluation = one configuration presented to a new decoder with three frames"
    c.min_classes = 40


def re_num(s):
    import re
    return re.sub(r"[-0-9a-f]*\d[-0-9a-f]*", "#", s)

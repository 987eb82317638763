"""Writers for audio scene information (ASI), element interaction, local set-up and scene displacement."""
from mpegh import BW


def pos(w, r, bits):
    for n in bits:
        w.u(r.randrange(1 << n), n)


def asi_info(r, members, presets=None, switches=0, main=1, hostile=False, gain_off=False):
    """a drawn scene: members = number of signals (member ids 0..members-1)"""
    ids = r.sample(range(0, 20 if not hostile else 127), 16)
    left = list(range(members))
    G = []
    while left and len(G) < 16:
        n = r.randint(1, min(len(left), 4)) if len(G) < 15 else len(left)
        m, left = left[:n], left[n:]
        if hostile and r.random() < .3:
            n = r.choice([1, 2, 9, 64, 128])
            m = None
        G.append(dict(id=ids[len(G)], allow_on=r.randint(0, 1), on=int(r.random() < .8), members=m, n=n,
                      pos=[r.randrange(128), r.randrange(128), r.randrange(32), r.randrange(32), r.randrange(16), r.randrange(16)] if r.random() < .6 else None,
                      gain=[r.randrange(64), r.randrange(32)] if r.random() < .7 and not gain_off else None,
                      conj=r.randint(0, 1), start=r.randrange(128) if hostile and r.random() < .5 else (m[0] if m else r.randrange(128))))
    if hostile and r.random() < .2:
        G = []
    gids = [g["id"] for g in G] or [0]
    S = []
    for k in range(switches):
        n = r.randint(1, min(4, len(gids)))
        mem = [r.choice(gids) for _ in range(r.choice([1, 31, 32]))] if hostile and r.random() < .4 else r.sample(gids, n)
        S.append(dict(id=k if not hostile else r.randrange(32), allow_on=r.randint(0, 1), on=r.randint(0, 1), mem=mem,
                      default=r.choice(mem) if not hostile or r.random() < .7 else r.randrange(128)))
    P = []
    allow = {g["id"]: (g["gain"] is not None, g["pos"] is not None) for g in G}
    for k in range(r.randint(0, 3) if presets is None else presets):
        n = r.randint(1, min(4, len(gids)))
        ref = [r.choice(gids + [99]) for _ in range(r.randint(1, 16))] if hostile and r.random() < .4 else r.sample(gids, n)
        P.append(dict(id=k if not hostile else r.randrange(32), kind=r.randrange(32), cond=[dict(
            ref=x, on=int(r.random() < .8), dis_gain=r.randint(0, 1), gain=r.randrange(256) if r.random() < .5 and (hostile or allow.get(x, (0, 0))[0]) else None,
            dis_pos=r.randint(0, 1), pos=(r.randrange(256), r.randrange(64), r.randrange(16)) if r.random() < .5 and (hostile or allow.get(x, (0, 0))[1]) else None)
            for x in ref]))
    return dict(main=main, asi_id=r.randrange(256) if r.random() < .3 else None, G=G, S=S, P=P, sets=[], maxid=r.randrange(128) if hostile else 20,
                offset=r.randrange(128))


def gcond(w, c):
    w.u(c["on"], 1)
    if c["on"]:
        w.u(c["dis_gain"], 1)
        w.u(int(c["gain"] is not None), 1)
        if c["gain"] is not None:
            w.u(c["gain"], 8)
        w.u(c["dis_pos"], 1)
        w.u(int(c["pos"] is not None), 1)
        if c["pos"] is not None:
            w.u(c["pos"][0], 8).u(c["pos"][1], 6).u(c["pos"][2], 4)


def asi(A):
    w = BW()
    w.u(A["main"], 1)
    w.u(int(A["asi_id"] is not None), 1)
    if A["asi_id"] is not None:
        w.u(A["asi_id"], 8)
    w.u(len(A["G"]), 7)
    for g in A["G"]:
        w.u(g["id"], 7).u(g["allow_on"], 1).u(g["on"], 1)
        w.u(int(g["pos"] is not None), 1)
        if g["pos"] is not None:
            for v, n in zip(g["pos"], (7, 7, 5, 5, 4, 4)):
                w.u(v, n)
        w.u(int(g["gain"] is not None), 1)
        if g["gain"] is not None:
            w.u(g["gain"][0], 6).u(g["gain"][1], 5)
        w.u(g["n"] - 1, 7)
        w.u(g["conj"], 1)
        if g["conj"]:
            w.u(g["start"], 7)
        else:
            for k in range(g["n"]):
                w.u(g["members"][k] if g["members"] else (g["start"] + 37 * k) % 128, 7)
    w.u(len(A["S"]), 5)
    for s in A["S"]:
        w.u(s["id"], 5).u(s["allow_on"], 1)
        if s["allow_on"]:
            w.u(s["on"], 1)
        w.u(len(s["mem"]) - 1, 5)
        for m in s["mem"]:
            w.u(m, 7)
        w.u(s["default"], 7)
    w.u(len(A["P"]), 5)
    for p in A["P"]:
        w.u(p["id"], 5).u(p["kind"], 5).u(len(p["cond"]) - 1, 4)
        for c in p["cond"]:
            w.u(c["ref"], 7)
            gcond(w, c)
    if A["main"]:
        w.u(len(A["sets"]), 4)
        for t, b in A["sets"]:
            n = (len(b.bits()) + 7) // 8
            w.u(t, 4).u(n, 16)
            w.w(b)
            if len(b.bits()) % 8:
                w.u(0, 8 - len(b.bits()) % 8)
    else:
        w.u(A["offset"], 7)
    w.u(A["maxid"], 7)
    return w


def preset_ext(A, r, hostile=False):
    """the content of the group preset extension data set"""
    w = BW()
    G = {g["id"]: g for g in A["G"]}
    for k, p in enumerate(A["P"]):
        sw = int(r.random() < .4)
        w.u(sw, 1)
        if sw:
            for c in A["P"][0]["cond"]:
                w.u(r.randint(0, 1) if hostile or A["S"] else 0, 1)
        dm = int(r.random() < .6)
        w.u(dm, 1)
        if dm:
            n = r.randint(1, 3) if not hostile else r.choice([1, 2, 8, 31, 32])
            w.u(n - 1, 5)
            for _ in range(n):
                w.u(r.randrange(128), 7)
                m = r.randint(0, 4) if not hostile else r.randint(0, 15)
                w.u(m, 4)
                for _ in range(m):
                    s = int(bool(A["S"]) and r.random() < .4)
                    w.u(s, 1)
                    g = None
                    if s:
                        w.u(r.randrange(32) if hostile else r.choice(A["S"])["id"], 5)
                    else:
                        g = r.choice(A["G"] or [dict(id=3, gain=None, pos=None)])
                        w.u(g["id"], 7)
                    gn = g is not None and g["gain"] is not None
                    ps = g is not None and g["pos"] is not None
                    gcond(w, dict(on=r.randint(0, 1), dis_gain=r.randint(0, 1) if gn else 1, gain=r.randrange(256) if gn and r.random() < .5 else None,
                                  dis_pos=r.randint(0, 1) if ps else 1, pos=(r.randrange(256), r.randrange(64), r.randrange(16)) if ps and r.random() < .5 else None))
    return w


def descr(r, A, idbits, long_=False):
    w = BW()
    n = r.randint(1, 4)
    w.u(n - 1, 7)
    for _ in range(n):
        w.u(r.randrange(1 << idbits), idbits)
        m = r.randint(1, 4)
        w.u(m - 1, 4)
        for _ in range(m):
            w.rnd(r, 24)
            k = r.choice([1, 5, 40, 128, 129, 256] if long_ else [1, 5, 40, 100])
            w.u(k - 1, 8)
            w.rnd(r, 8 * k)
    return w


def content(r, A):
    w = BW()
    n = r.randint(1, 6)
    w.u(n - 1, 7)
    for _ in range(n):
        w.u(r.randrange(128), 7).u(r.randrange(16), 4)
        k = r.randint(0, 1)
        w.u(k, 1)
        if k:
            w.rnd(r, 24)
    return w


def screen(r):
    w = BW()
    k = r.randint(0, 1)
    w.u(k, 1)
    if k:
        w.rnd(r, 27)
    return w


def screen_ext(r, A):
    w = BW()
    k = r.randint(0, 1)
    w.u(k, 1)
    if k:
        w.rnd(r, 20)
    n = r.randint(0, 4)
    w.u(n, 5)
    for _ in range(n):
        w.u(r.choice([p["id"] for p in A["P"]] or [r.randrange(32)]), 5)
        k = r.randint(0, 1)
        w.u(k, 1)
        if k:
            c = r.randint(0, 1)
            w.u(c, 1)
            w.rnd(r, 9 if c else 20)
            w.rnd(r, 18)
    return w


def gdata(r, A):
    """loudness compensation data"""
    w = BW()
    k = r.randint(0, 1)
    w.u(k, 1)
    if k:
        w.rnd(r, 8 * len(A["G"]))
    for _ in range(1 + len(A["P"])):
        k = r.randint(0, 1)
        w.u(k, 1)
        if k:
            w.rnd(r, len(A["G"]))
            k = r.randint(0, 1)
            w.u(k, 1)
            if k:
                w.rnd(r, 8)
    return w


def with_sets(A, r, hostile=False, types=None):
    """add data sets; each type at most once"""
    for t in types if types is not None else r.sample(range(0, 10 if not hostile else 16), r.choice([0, 0, 1, 2, 4])):
        if hostile and r.random() < .4:
            b = BW().rnd(r, 8 * r.randint(1, 200))
        else:
            b = {0: lambda: descr(r, A, 7, hostile), 1: lambda: descr(r, A, 5, hostile), 2: lambda: content(r, A), 4: lambda: screen(r), 5: lambda: descr(r, A, 5, hostile),
                 7: lambda: screen_ext(r, A), 8: lambda: preset_ext(A, r, hostile), 9: lambda: gdata(r, A)}.get(t, lambda: BW().rnd(r, 8 * r.randint(1, 60)))()
        A["sets"].append((t, b))
    return A


def ei(r, A, mode=None, preset=None, hostile=False, groups=None, zoom=False, sig=0):
    w = BW()
    w.u(sig, 8)
    if sig:
        w.u(r.randrange(256), 8)
        for _ in range(sig):
            w.u(r.randrange(256), 8)
    mode = int(bool(A["P"])) if mode is None else mode
    w.u(mode, 1)
    n = len(A["G"]) if not hostile or r.random() < .7 else r.randrange(128)
    w.u(n, 7)
    if mode:
        w.u(preset if preset is not None else r.choice([p["id"] for p in A["P"]] or [0]), 5)
    req = []
    for k in range(n):
        g = A["G"][k % len(A["G"])] if A["G"] else dict(id=0)
        q = groups[k] if groups else dict(
            id=g["id"] if not hostile or r.random() < .7 else r.randrange(128), on=int(r.random() < .8),
            wire=r.randrange(1 << 16) if r.random() < .1 else None,
            pos=(r.randrange(256), r.randrange(64), r.randrange(16)) if r.random() < .4 else None,
            gain=r.randrange(128) if r.random() < .5 else None)
        req.append(q)
        w.u(q["id"], 7).u(q["on"], 1)
        w.u(int(q["wire"] is not None), 1)
        if q["wire"] is not None:
            w.u(q["wire"], 16)
        if q["on"]:
            w.u(int(q["pos"] is not None), 1)
            if q["pos"] is not None:
                w.u(q["pos"][0], 8).u(q["pos"][1], 6).u(q["pos"][2], 4)
            w.u(int(q["gain"] is not None), 1)
            if q["gain"] is not None:
                w.u(q["gain"], 7)
    w.u(int(zoom), 1)
    if zoom:
        for b in (10, 10, 9, 10):
            w.u(r.randrange(1 << b), b)
    return w, req


def sdi(r):
    w = BW()
    pos(w, r, (9, 9, 9, 8, 6, 4))
    return w


def lsi(r, chans, hostile=False, brir=False):
    w = BW()
    if brir:
        w.u(1, 1)
        w.rnd(r, 8 * r.randint(1, 60))
    else:
        w.u(0, 1)
        n = r.choice([chans, chans, 2, 6, 24, r.randint(0, 30 if hostile else 24)])
        w.u(n, 16)
        t = r.randrange(4) if hostile else r.choice([0, 0, 1, 2])
        w.u(t, 2)
        if t == 0:
            w.u(r.randrange(64) if hostile else r.choice([1, 2, 3, 6, 12, 19]), 6)
        else:
            w.esc(max(n - 1, 0), 5, 8, 16)
            if t == 1:
                for _ in range(n):
                    w.u(r.randrange(43 if not hostile else 128), 7)
            else:
                w.rnd(r, 30 * max(n, 1))
        hd, hg, tr = [int(r.random() < .15) for _ in range(3)]
        w.u(hd, 1).u(hg, 1).u(tr, 1)
        for _ in range(n):
            k = int(r.random() < .5)
            w.u(k, 1)
            if k:
                w.u(r.randrange(512), 9).u(r.randrange(256), 8)
            if hd:
                w.u(1, 1)
            if hg:
                w.u(1, 1)
                w.u(r.randint(0, 1), 1)
    m = r.choice([0, 0, 0, 0, 1]) if not hostile else r.choice([0, 1, 30, 300])
    w.u(m, 16)
    for _ in range(m):
        w.u(r.randrange(1 << 16), 16)
    s = r.randint(0, 1)
    w.u(s, 1)
    if s:
        c = r.randint(0, 1)
        w.u(c, 1)
        w.u(r.randrange(512), 9) if c else w.u(r.randrange(1024), 10).u(r.randrange(1024), 10)
        e = r.randint(0, 1)
        w.u(e, 1)
        if e:
            w.u(r.randrange(512), 9).u(r.randrange(512), 9)
    return w


def mutate(b, r):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5])):
        m = r.randrange(4)
        if m == 0 and b:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif m == 1 and b:
            b[r.randrange(len(b))] = r.choice([0, 255, 128, r.randrange(256)])
        elif m == 2 and b:
            del b[r.randrange(len(b)):]
        else:
            b += bytes(r.randrange(256) for _ in range(r.randint(1, 40)))
    return bytes(b)

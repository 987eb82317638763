"""C22: presets and user requests change exactly the groups they name, by what they ask for and the scene permits."""
from suite import *
import side
LEVEL = "differential monitoring against the same stream without a scene description"
DB = lambda g: 10 ** (g / 20.0)


def draw(j):
    r = random.Random("c22/%s/%s" % j)
    fs = r.choice([48000, 48000, 44100, 32000, 24000, 16000])
    c = r.choice([1, 2, 2, 3, 4, 5, 6, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19])
    sc = scene("c22/%s/%d" % j, fs, c, r.choice([3, 4]), ("win", "nf"))
    n = len(CICP[c])
    A = side.asi_info(r, n, presets=r.choice([0, 1, 1, 2, 3]), switches=0)
    perm = list(range(n)); r.shuffle(perm)
    for g in A["G"]:                      # members need not be neighbours
        if r.random() < .5:
            g["conj"] = 0
    loose = [g for g in A["G"] if not g["conj"]]
    ids = [m for g in loose for m in g["members"]]; r.shuffle(ids)
    for g in loose:
        g["members"], ids = ids[:g["n"]], ids[g["n"]:]
    for g in A["G"]:
        if g["gain"]:
            g["gain"] = [r.choice([1, 20, 52, 60, 63]), r.choice([0, 3, 12, 31])]
    gid = {g["id"]: g for g in A["G"]}
    pids = r.sample(range(31), len(A["P"]))
    for p, i in zip(A["P"], pids):
        p["id"] = i
        for q in p["cond"]:
            if q["gain"] is not None:
                q["gain"] = r.choice([191, 185, 197, 171, 192, 190, 189])
            if not gid[q["ref"]]["gain"]:
                q["dis_gain"] = 1
            if not gid[q["ref"]]["pos"]:
                q["dis_pos"] = 1
    kind = r.choice(["default", "preset", "request", "request", "request"]) if A["P"] else "default"
    p = r.choice(A["P"]) if A["P"] else None
    o, e, req = {}, None, None
    if kind == "preset":
        o["preset"] = p["id"]
    if kind == "request":
        req = []
        far = r.random() < .12
        for g in A["G"]:
            on = int(r.random() < .7)
            gain = None
            if g["gain"] or r.random() < .5:
                lo, hi = (g["gain"][0] - 64, g["gain"][1]) if g["gain"] else (-40, 20)
                q = [x for x in p["cond"] if x["ref"] == g["id"]][:1]
                off = (q[0]["gain"] - 255) * .5 + 32 if q and q[0]["on"] and q[0]["gain"] is not None else 0
                lo2, hi2 = max(lo - off, -63), min(hi - off, 31)
                if hi2 < lo2:
                    lo2 = hi2 = 0
                gain = 64 + int(r.choice([-1, 0, 1, lo2, hi2, r.randint(int(lo2), int(hi2))])) if not far else r.randrange(128)
                gain = min(max(gain, 0), 127)
            req.append(dict(id=g["id"], on=on, wire=None, pos=(r.randrange(256), r.randrange(64), r.randrange(16)) if g["pos"] or r.random() < .3 else None, gain=gain))
        r.shuffle(req)
        e, _ = side.ei(r, A, mode=1, preset=p["id"], groups=req, zoom=r.random() < .2)
        o["ei"] = e.bytes()
        if r.random() < .3:
            o["preset"] = r.choice(A["P"])["id"]
    w = side.asi(A)
    b, out = sc["bytes"], []
    for t, l, hd, pay in split_packets(b):
        out.append(hd + pay)
        if t == 1:
            out.append(packet(3, w.bytes(), 1))
    return sc, b"".join(out), A, kind, p, req, o, n


def expected(A, kind, p, req):
    """{channel: (gain dB or None when silent)}, whether a limit is exceeded"""
    out, over = {}, False
    R = {q["id"]: q for q in req or []}
    for g in A["G"]:
        c = [x for x in p["cond"] if x["ref"] == g["id"]][:1] if p and kind != "default" else []
        c = c[0] if c else None
        db = 0.0
        if c:
            on = c["on"]
        elif kind == "request" and g["allow_on"]:
            on = R[g["id"]]["on"]
        else:
            on = g["on"]
        if on and kind == "request" and g["gain"]:
            if c and c["gain"] is not None:
                db += (c["gain"] - 255) * .5 + 32
            if not (c and c["dis_gain"]):
                q = R[g["id"]]
                db += min(max((q["gain"] - 64) if q["on"] and q["gain"] is not None else 0, -63), 31)
            lo, hi = max(g["gain"][0] - 64, -63), g["gain"][1]
            if db < lo or db > hi:
                over = True
            db = min(max(db, lo), hi)
        for k in range(g["n"]):
            out[g["start"] + k if g["conj"] else g["members"][k]] = db if on else None
    return out, over


def work(j):
    sc, b, A, kind, p, req, o, n = draw(j)
    B = run("plain", [(sc["bytes"], dict(pcmsz=24))])
    R = run("plain", [(b, dict(o, pcmsz=24))])
    return j, B, R, (dict(bytes=sc["bytes"]), b, A, kind, p, req, o, n)


def main(c, tier):
    vlib.build("plain")
    c.rule = "evaluation = one channel scene with a scene description, compared with the same stream without one, every channel judged"
    N = 400 if tier == "quick" else 6000
    for j, B, R, D in procmap(work, [(SEED, k) for k in range(N)]):
        sc, b, A, kind, p, req, o, n = D
        files = dict(stream_mhas=b, plain_mhas=sc["bytes"], **{k + "_bin": v for k, v in o.items() if isinstance(v, bytes)})
        if not c.judge("scene %s" % (j,), R, **files) or not c.judge("plain %s" % (j,), B, **files):
            continue
        exp, over = expected(A, kind, p, req)
        i, i0 = R.i, B.i
        x0 = vlib.pcm_float(i0.pcm, 24, n)
        if over:
            c.saw((j,), "outside-limits")
            if i.bad and not len(i.pcm):
                c.saw((j,), "refused")
                continue
        elif i.bad or not len(i.pcm):
            c.violation("refused", "%s: a legal %s is refused: %s" % (j, kind, [hex(v) for v in i.bad][:3]), **files)
            continue
        x = vlib.pcm_float(i.pcm, 24, n)
        if x.shape != x0.shape:
            c.violation("length", "%s: %s samples, %s without the description" % (j, x.shape, x0.shape), **files)
            continue
        L = 1024
        e = np.zeros_like(x0)
        loud = False
        for ch, g in exp.items():
            if g is None:
                continue
            v = np.full(len(x0), DB(g))
            m = min(L, len(v))
            v[:m] = (1 + (DB(g) - 1) * np.arange(L) / (L - 1))[:m]
            e[:, ch] = x0[:, ch] * v
        # a frame near the limiter's threshold or full scale cannot be judged
        if np.abs(e).max() > .85 or np.abs(x0).max() > .85:
            c.saw((j,), "too-loud")
            continue
        m = len(x) - 300                     # what follows the end may already act on the limiter
        err = np.abs(e - x)[:m].max(axis=0)
        tol = 3e-7 * np.array([4 + 2 * DB(exp[k] or 0) for k in range(n)]) + 4e-4 * np.abs(e).max(axis=0)
        bad = np.nonzero(err > tol)[0]
        if len(bad):
            k = int(bad[0])
            what = "silence" if exp[k] is None else "gain"
            c.violation(what, "%s (%s): channel %d should be %s, but differs by %.3g (peak %.3g)" % (
                j, kind, k, "silent" if exp[k] is None else "%.1f dB" % exp[k], err[k], np.abs(x0[:, k]).max()), **files)
            continue
        c.stat("channels judged", n)
        c.smax("largest relative error", float((err / tol).max()))
        G = {m: g for g in A["G"] for m in ([g["start"] + q for q in range(g["n"])] if g["conj"] else g["members"])}
        for k in range(n):
            gn = exp[k]
            c.saw((j, k), "kind:" + kind, "silent" if gn is None else "kept" if gn == 0 else "raised" if gn > 0 else "lowered",
                  "permitted" if G[k]["gain"] else "not-permitted", *(["condition"] if p and any(q["ref"] == G[k]["id"] for q in p["cond"]) else []))
            if gn == -1:
                c.saw((j, k), "minus-one-dB")
            if kind == "request" and [q["id"] for q in req] != [g["id"] for g in A["G"]]:
                c.saw((j, k), "reordered-request")
    c.min_classes = 12

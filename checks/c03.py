"""C03: hostile element-interaction, local set-up, scene-displacement, binaural and scene-description input under the sanitizers."""
from suite import *
import side, brir, objscene, hoa, c17, c26
LEVEL = "sanitizer-monitored fuzzing by syntax"


def scn(j):
    """one scene: (name, [(cfg, frames)], asi, fs, cicp, channels)"""
    tag, k, hostile = j
    r = random.Random("c03s/%s/%s" % (tag, k))
    kind = r.choice(["ch", "ch", "obj", "obj", "obj", "hoa"])
    fs = r.choice([48000, 48000, 48000, 44100, 32000])
    if kind == "ch":
        c = r.choice([1, 2, 2, 6, 12, 7, 19])
        sc = scene("c03/%s/%d" % (tag, k), fs, c, 3, ("win", "nf"))
        n, nobj = len(CICP[c]), 0
    elif kind == "obj":
        c = r.choice([2, 6, 12, 1, 19])
        nobj = r.randint(1, 6)
        bed = r.random() < .5
        sc = objscene.make("c03/%s/%d" % (tag, k), fs, c, nobj, r.choice([1024, 512, 256]), int(r.random() < .3), r.randint(0, 1), 3, .4, bed,
                           screen=int(r.random() < .5), spk=CICP[c])
        n = nobj + (len(CICP[c]) if bed else 0)
    else:
        c = r.choice(c17.LAYOUTS)
        H = c17.rand_hoa(r, r.choice([1, 2, 3]))
        inds, chs, preds = c17.hoa_frames(r, H, 3)
        sc = c17.build("c03/%s/%d" % (tag, k), H, inds, chs, preds, c, fs)
        n, nobj = H.ntc, 0
    A = side.asi_info(r, n, hostile=hostile, switches=r.choice([0, 0, 1, 2]))
    side.with_sets(A, r, hostile)
    w = side.asi(A)
    if hostile and r.random() < .3:
        w = BW().s(from_bytes(side.mutate(w.bytes(), r)))
    cfg0, fr = split_cfg(sc)
    P = split_packets(sc["bytes"])
    return kind, sc, A, w, fs, c, n, P


def split_cfg(sc):
    return sc["cfg"], None


def asi_packet(w):
    return packet(ASI_PT, w.bytes(), 1)


ASI_PT = 3


def case(j):
    """(name, bytes, opts)"""
    tag, k, m = j
    r = random.Random("c03/%s/%d/%d" % (tag, k, m))
    hostile = k % 3 == 2
    kind, sc, A, w, fs, c, n, P = scn((tag, k, hostile))
    b = sc["bytes"]
    if m:                      # most cases carry a scene description
        out = []
        for t, l, hd, pay in P:
            out.append(hd + pay)
            if t == 1 and r.random() < .95:
                out.append(asi_packet(w))
        b = b"".join(out)
        if r.random() < .3:     # a description that changes, or a second configuration
            A2 = side.asi_info(r, n, hostile=r.random() < .5)
            b += asi_packet(side.asi(A2)) if r.random() < .5 else b"" 
            b += b"".join(out)
    o = {}
    q = r.random()
    mut = lambda x: x if r.random() < (.35 if hostile else .8) else side.mutate(x, r)
    if q < .75:
        e, _ = side.ei(r, A, hostile=hostile and r.random() < .5, zoom=r.random() < .3, sig=r.choice([0, 0, 0, 1, 255]))
        o["ei"] = mut(e.bytes())
    if r.random() < .35:
        o["lsi"] = mut(side.lsi(r, n, hostile and r.random() < .6, brir=False).bytes())
    elif r.random() < .3:
        o["brir"] = mut(br(r, fs, c))
    elif r.random() < .1:
        x = BW(); x.u(1, 1); x.s(from_bytes(br(r, fs, c)))
        o["lsi"] = mut(x.bytes())
    if r.random() < .35:
        o["sdi"] = mut(side.sdi(r).bytes())
    if not m or r.random() < .08:
        for s in ("maeg", "maes", "maep", "maei"):
            if r.random() < .7:
                x = BW(); x.rnd(r, 8 * r.choice([1, 3, 20, 80, 300])); o[s] = x.bytes()
    for s in list(o):
        if r.random() < .06:
            x = BW(); x.rnd(r, 8 * r.choice([0, 1, 2, 7, 60, 600]))
            o[s] = x.bytes()
    if r.random() < .5:
        o["preset"] = r.choice([p["id"] for p in A["P"]] + [r.randrange(32)])
    if r.random() < .3:
        o["cicp"] = r.choice([1, 2, 6, 12, 19])
    if r.random() < .1:
        o["extren"] = 1
    return "%s %d/%d %s" % (kind, k, m, "+".join(sorted(o))), b, o, ("kind:" + kind, "presets" if A["P"] else "no-presets", "switch" if A["S"] else "no-switch") + tuple(
        x if isinstance(o[x], bytes) else "opt:" + x for x in o)


def br(r, fs, c):
    d = c26.draw("c03/%d" % r.randrange(9), fs, c)
    if r.random() < .5:
        d["n"] = min(d["n"], 64)
        t = [[list(map(float, d["direct"][p][e][:d["n"]])) for e in (0, 1)] for p in range(len(CICP[c]))]
        return brir.fir(fs, c, t, cut=1, cuts=[[1.0, 1.0]] * len(CICP[c]))
    return brir.td(fs, c, d["delay"], d["direct"], d["dfc"], d["diffuse"], d["ffc"], d["weight"])


def work(j):
    name, b, o, cl = case(j)
    R = run("asan", [(b, dict(o, pcmsz=16))], timeout=90)
    return j, name, b, o, cl, R


def main(c, tier):
    vlib.build("asan")
    c.rule = "evaluation = one stream with drawn scene description and side-information buffers run to the end under AddressSanitizer and UBSan"
    S, M = (60, 9) if tier == "quick" else (400, 24)
    J = [(SEED, k, m) for k in range(S) for m in range(M)]
    for j, name, b, o, cl, R in procmap(work, J):
        c.saw((b, sorted((k, v if isinstance(v, bytes) else str(v)) for k, v in o.items()).__repr__()), *cl)
        files = dict(stream_mhas=b, **{k + "_bin": v for k, v in o.items() if isinstance(v, bytes)})
        key = vlib.sanitizer_key(R.err, R.rc)
        if R.timed_out:
            c.violation("no-progress", "%s: no result in 90 s" % name, **files)
            continue
        if key:
            c.violation(key, "%s: %s" % (name, R.err[-2500:]), **files)
            continue
        i = R.i
        c.stat("frames played", 0 if i is None else len(i.pcm) // max(1, 2048 * (i.nch or 1)))
        c.saw((j,), "audio" if i and len(i.pcm) else "no-audio", "errors" if i and i.bad else "clean")
    c.min_classes = 12

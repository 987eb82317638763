"""Record corpus/c13.xz and golden/C13.npz: streams of every coding and rendering tool and the fingerprints of what the current
tree plays (python3-vt tools/mkgold_c13.py [list]).  A case is kept only if it plays without error on the sanitizer builds; the
tolerance is ten times the difference between -O0, -O2, -O3 and -ffast-math builds, at least 3e-4."""
import os, sys, json, lzma, base64, random
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path[:0] = [R + "/lib", R + "/checks"]
from suite import *
import drc, oam, objscene, brir, hoa, c17, c18, c26, c27
TOOLS = json.loads(lzma.open(R + "/corpus/tools.xz").read())
PLAY = [dict(), dict(), dict(cicp=1), dict(cicp=2), dict(cicp=6), dict(cicp=12), dict(cicp=19), dict(outfs=48000), dict(tl=-24), dict(cicp=7, outfs=48000)]


def tool(name):
    d = TOOLS[name]
    if len(d["frames"]) < 4:
        return None
    b = stream(base64.b64decode(d["cfg"]), [base64.b64decode(x) for x in d["frames"]])
    return b, dict(d["opt"]), (name.split("-")[0],)


def tool_play(a):
    name, k = a
    x = tool(name)
    if not x:
        return None
    r = random.Random("tp/%s/%s" % a)
    o = r.choice(PLAY[2:])
    if "outfs" in o and TOOLS[name]["fs"] not in (32000, 24000, 16000):
        o = dict(cicp=r.choice([1, 2, 6]))
    if o.get("cicp") == TOOLS[name]["cicp"]:
        o = dict(cicp=6)
    return x[0], o, x[2] + ("played",)


def gen(k):
    r = random.Random("gen/%d" % k)
    fs = r.choice([48000, 48000, 44100, 32000, 24000, 22050, 16000])
    c = r.choice([x for x in CICPS if x != 13] + [1, 2, 2, 6])
    t = r.choice([ALL_TOOLS, ALL_TOOLS + ("ltpf",), ALL_TOOLS + ("ltpf", "fdp"), ALL_TOOLS + ("fdp",), ("win", "ltpf"), ("fdp", "ms")])
    sc = scene_any("c13/%d" % k, fs, c, 8, t)
    return sc["bytes"], {}, ("fd",) + tuple(x for x in t if x in ("ltpf", "fdp"))


def fdx(k):
    """stereo complex prediction and frequency-domain prediction"""
    r = random.Random("fdx/%d" % k)
    t = [ALL_TOOLS + ("cplx",), ("ms", "pred", "cplx"), ("ms", "pred", "cplx", "win"), ("fdp",), ("fdp", "win", "ms")][k % 5]
    sc = scene_any("c13x/%d" % k, r.choice([48000, 44100, 32000]), 2 if k % 5 < 3 else r.choice([1, 2]), 8, t)
    return sc["bytes"], {}, ("fd",) + tuple(x for x in t if x in ("cplx", "fdp"))


def play(k):
    r = random.Random("play/%d" % k)
    fs = r.choice([48000, 48000, 32000, 24000, 16000])
    cy = [x for x in CICPS if x != 13]
    c = cy[k % len(cy)]
    o = dict(cicp=r.choice([1, 2, 2, 6, 6, 7, 12, 19] + cy))
    if r.random() < .2:
        fs, o = r.choice([(32000, dict(outfs=48000)), (24000, dict(outfs=48000)), (16000, dict(outfs=48000)), (22050, dict(outfs=44100))])
    sc = scene("c13p/%d" % k, fs, c, 8)
    return sc["bytes"], o, ("resampling",) if "outfs" in o else ("format-conversion",)


def mct(k):
    r = random.Random("mct/%d" % k)
    while True:
        sc, cnt, nb = c27.build1("c13m/%d/%d" % (k, r.randrange(99)), r.choice([48000, 48000, 44100, 32000]), r.choice([2, 3, 6, 6, 4, 7, 12, 5, 16]), 8,
                                 r.choice([("win", "nf"), (), ALL_TOOLS]), r.random() < .4, r.randint(0, 1), True)
        if sc:
            return sc["bytes"], {}, ("mct",)


def enh(k):
    """objects with enhanced metadata"""
    r = random.Random("enh/%d" % k)
    n = r.randint(1, 4)
    out = r.choice([2, 6, 12, 19])
    bed = r.random() < .5
    sc = objscene.make("c13e/%d" % k, r.choice([48000, 32000]), out, n, r.choice([1024, 512, 256]), int(r.random() < .3), 0, 8, .4, bed, spk=CICP[out])
    if k % 2 == 0:
        return sc["bytes"], dict(cicp=r.choice([out, 2, 6])) if r.random() < .5 else {}, ("objects",)
    b = BW()
    b.u(r.randint(0, 1), 1)
    b.rnd(r, 60); b.align()
    x = dict(type="EXT", ext=13, config=b.bytes())
    el = sc["elements"] + [x]
    bel = [e for e in el if e["type"] != "EXT"]
    nb = sc["nb"]
    cfg = config(fs=sc["fs"], level=0x0D, spk=spk_cicp(out), groups=([grp_ch(nb)] if bed else []) + [grp_obj(n)], elements=el, delaycomp=1 if bed else 0)
    data = []
    for d in sc["data"]:
        b = BW(); b.rnd(r, 8 * 60)
        data.append(d + [b.bytes()])
    return encode(dict(sc, cfg=cfg, elements=el, data=data)), {}, ("enhanced-objects",)


def hoas(k):
    r = random.Random("hoa/%d" % k)
    o, l, fs = r.choice([1, 2, 3, 4, 2, 3]), r.choice(c17.LAYOUTS), r.choice([48000, 48000, 44100, 32000])
    H = c17.rand_hoa(r, o)
    inds, chs, preds = c17.hoa_frames(r, H, 8)
    sc = c17.build("c13h/%d" % k, H, inds, chs, preds, l, fs)
    return sc["bytes"], dict(cicp=r.choice([2, 6])) if k % 5 == 4 else {}, ("hoa",)


def drcs(k):
    r = random.Random("drc/%d" % k)
    fs, c = r.choice([48000, 44100, 32000]), r.choice([1, 2, 2, 6])
    el = layout_elements(c, nf=1)
    nch = len(CICP[c])
    gs = []
    for g in range(r.randint(1, 3)):
        nb = r.choice([1, 2, 2, 3, 4])
        bt = r.choice([1, 1, 0])
        cr = sorted(r.sample(range(1, 16), nb - 1)) if bt else sorted(r.sample(range(3, 150), nb - 1))
        gs.append(drc.gain_set(profile=r.choice([0, 0, 1, 2]), full=r.randint(0, 1), align=r.randint(0, 1), bands=nb, btype=bt, char=r.randint(1, 11), cross=cr))
    ins = [drc.instruction(1, r.choice([drc.NIGHT, drc.GENERAL, drc.LIMITED]), [r.randrange(len(gs)) for _ in range(nch)] if r.random() < .7 else [0] * nch)]
    e = [drc.ele(nch, gs, ins, r)]
    sc = scene("c13d/%d" % k, fs, c, 8, ("win", "nf", "ms"), elements=el)
    cols = [[c18.rand_seqs(r, g, fs, 8) for b in range(g["bands"])] for g in gs]
    rows = [d + [drc.payload(gs, [[q[f] for q in c] for c in cols], fs)] for f, d in enumerate(sc["data"])]
    elx = el + e
    cfg = config(fs=fs, level=0x0D, spk=spk_cicp(c), groups=[grp_ch(nch)], elements=elx)
    return encode(dict(sc, cfg=cfg, data=rows, elements=elx)), dict(effect=r.choice([1, 3, 6]), tl=-20), ("drc-multiband",)


def bins(k):
    r = random.Random("bin/%d" % k)
    c, fs = r.choice([1, 2, 6, 12, 19]), r.choice([48000, 44100, 32000])
    sc = scene("c13b/%d" % k, fs, c, 8)
    d = c26.draw("c13b/%d" % k, fs, c)
    if k % 2:
        d["n"] = min(d["n"], 512)
        t = [[list(map(float, d["direct"][p][e][:d["n"]])) for e in (0, 1)] for p in range(len(CICP[c]))]
        return sc["bytes"], dict(brir=brir.fir(fs, c, t, cut=r.choice([0, 1]), cuts=[[1.0, 1.0]] * len(CICP[c]))), ("binaural-fir",)
    return sc["bytes"], dict(brir=brir.td(fs, c, d["delay"], d["direct"], d["dfc"], d["diffuse"], d["ffc"], d["weight"])), ("binaural",)


KINDS = dict(gen=(gen, 60), fdx=(fdx, 50), play=(play, 40), mct=(mct, 60), enh=(enh, 30), hoa=(hoas, 20), drc=(drcs, 40), bin=(bins, 10))


def make(j):
    kind, k = j
    try:
        x = tool(k) if kind == "tool" else tool_play(k) if kind == "toolp" else KINDS[kind][0](k)
    except Exception as e:
        return j, None, "%s: %r" % (kind, e)
    if not x:
        return j, None, "empty"
    b, o, cls = x
    o = dict(o, pcmsz=32)
    F = {}
    for v in ("plain", "asan", "o0", "o3", "fast"):
        R_ = run(v, [(b, o)], timeout=200)
        key = vlib.sanitizer_key(R_.err, R_.rc)
        if key or R_.timed_out or not R_.i:
            return j, None, "SANITIZER %s %s" % (v, key)
        i = R_.i
        ok = [e for e in i.bad]
        if i.cfg is None or ok:
            return j, None, "refused %s" % [hex(e) for e in ok][:2]
        a = i.audio()
        F[v] = (fingerprint(a), i.nch, i.fs)
    g = F["plain"][0]
    if not g.size or float(np.abs(g).max()) < 1e-5:
        return j, None, "silent"
    for tol in (3e-5, 1e-4, 3e-4, 1e-3, 2e-3):
        m = [x for x in (fp_diff(F[v][0], g, rel=tol) for v in ("o0", "o3", "fast")) if x]
        if not m:
            break
    else:
        return j, None, "unstable %s" % m[0]
    return j, dict(stream=base64.b64encode(b).decode(), opt={q: v if not isinstance(v, bytes) else "b64:" + base64.b64encode(v).decode() for q, v in o.items()},
                   tol=max(3e-4, 10 * tol), cls=cls, nch=F["plain"][1], fs=F["plain"][2]), F["plain"][0]


if __name__ == "__main__":
    vlib.VARIANTS.update(o0=("-O0 -g0", ""), o3=("-O3 -g0 -march=native", ""), fast=("-O2 -g0 -ffast-math", ""))
    for v in ("plain", "asan", "o0", "o3", "fast"):
        vlib.build(v)
    only = sys.argv[1:]
    J = []
    for n in sorted(TOOLS):
        J.append(("tool", n))
        J.append(("toolp", (n, 0)))
    for kd, (f, n) in KINDS.items():
        J += [(kd, k) for k in range(n)]
    if only:
        J = [j for j in J if j[0] in only]
    cases, G, why = {}, Golden("C13"), {}
    for j, d, x in procmap(make, J):
        nm = "%s/%s" % (j[0], j[1] if not isinstance(j[1], tuple) else j[1][0])
        if d is None:
            why.setdefault(j[0], []).append((nm, x))
            print("dropped", nm, x)
            continue
        cases[nm] = d
        G.put(nm, shash(base64.b64decode(d["stream"]), sorted(d["opt"].items())), x)
    import collections
    print(collections.Counter(k.split("/")[0] for k in cases), {k: len(v) for k, v in why.items()})
    if not only:
        lzma.open(R + "/corpus/c13.xz", "wb", preset=9).write(json.dumps(cases).encode())
        G.save()
        print("frames", sum(len(v) for k, v in G.new.items() if not k.endswith("#h")), os.path.getsize(R + "/corpus/c13.xz"), os.path.getsize(G.path))

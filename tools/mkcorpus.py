"""Makes corpus/tools.xz: streams of the coding tools the generators have no encoder for (run by hand; no check runs it)."""
import os, sys, json, lzma, base64
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from toolgen import *
vlib.build("plain")
K = {"lpd": lambda r, i: "lpd", "fd": lambda r, i: "fd", "mix": lambda r, i: r.choice(["lpd", "fd", "lpd", "mix"]), "fdl": lambda r, i: r.choice(["fd", "fd", "fd", "lpd"])}
N = int(os.environ.get("NFRAMES", "10"))
J = []


def add(name, fs, els, cicp, kind, opt=None, cfgext=None, groups=None, n=N, extf=None, **kw):
    J.append(dict(name=name, fs=fs, els=els, cicp=cicp, kind=kind, opt=opt or {}, cfgext=cfgext, groups=groups, n=n, extf=extf, kw=kw))


FS = (48000, 44100, 32000, 24000, 22050, 16000, 14700, 29400)
for fs in FS:
    for fb in (0, 1):
        if fs >= 44100 and not fb:
            continue
        for kk in ("lpd", "mix"):
            add("lpd-mono-%d-%d-%s" % (fs, fb, kk), fs, [dict(type="SCE", fblpd=fb, nf=1)], 1, kk)
            add("lpd-stereo-%d-%d-%s" % (fs, fb, kk), fs, [dict(type="CPE", fblpd=fb, nf=1, lpdstereo=1)], 2, kk)
        add("lpd-dual-%d-%d" % (fs, fb), fs, [dict(type="CPE", fblpd=fb, nf=1, lpdstereo=0)], 2, "mix")
r0 = random.Random(5)
for fs in FS[:6]:
    for v in range(5):
        ig = dict(enf=v & 1, highres=v >> 1 & 1, whitening=r0.randint(0, 1), after_tns=r0.randint(0, 1), start=r0.choice([3, 6, 8, 12, 20]), stop=r0.choice([8, 10, 12, 15]),
                  indep_tiling=r0.randint(0, 1))
        add("igf-mono-%d-%d" % (fs, v), fs, [dict(type="SCE", fblpd=1, nf=1, igf=ig)], 1, "fd")
        add("igf-stereo-%d-%d" % (fs, v), fs, [dict(type="CPE", fblpd=1, nf=r0.randint(0, 1), igf=ig)], 2, r0.choice(["fd", "fd", "fdl"]))
for fs in FS[:6]:
    add("fd-mono-%d" % fs, fs, [dict(type="SCE", nf=1)], 1, "fd")
    add("fd-stereo-%d" % fs, fs, [dict(type="CPE", nf=1)], 2, "fd")
    add("fd-tw-%d" % fs, fs, [dict(type="CPE", nf=1, igf=dict(enf=1, whitening=1, start=5, stop=15))], 2, "fd", pindep=.05)


def mct(rng, i, e, indep):
    return rb(rng, rng.choice([40, 90, 160]))


for k in range(14):
    c = r0.choice([6, 6, 4, 7, 12])
    el = layout_elements(c, nf=1)
    n = sum({"SCE": 1, "LFE": 1, "CPE": 2}[e["type"]] for e in el)
    m = [1] * n
    p = 0
    for e in el:
        if e["type"] == "LFE":
            m[p] = 0
        p += 2 if e["type"] == "CPE" else 1
    if r0.random() < .4:
        m[r0.choice([x for x in range(n) if m[x]])] = 0
    w = BW()
    for b in m:
        w.u(b, 1)
    w.align()
    x = dict(type="EXT", ext=9, config=w.bytes())
    add("mct-%d-%d" % (c, k), r0.choice([48000, 48000, 44100, 32000]), [x] + el, c, "fd", extf=mct, n=6, pindep=.4, batch=24, budget=420)
for k in range(8):
    c, fs = r0.choice([(2, 24000), (2, 16000), (6, 32000), (6, 48000), (3, 48000)])
    el = [dict(e, fblpd=1) for e in layout_elements(c, nf=1)]
    add("multi-%d-%d" % (c, k), fs, el, c, "mix", opt=r0.choice([dict(cicp=2), dict(cicp=6), dict(cicp=1), dict(outfs=48000), {}]), n=6, batch=24, budget=420)


def make(j):
    el = [dict(e) for e in j["els"]]
    nch = sum({"SCE": 1, "LFE": 1, "CPE": 2}.get(e["type"], 0) for e in el)
    cfg = config(j["fs"], level=0x0D, spk=spk_cicp(j["cicp"]), groups=[grp_ch(nch)], elements=el, elen=1, cfgext=j["cfgext"])
    f, i = grow(j["name"], cfg, el, j["n"], K[j["kind"]], opt=j["opt"], extf=j["extf"], **j["kw"])
    return dict(name=j["name"], fs=j["fs"], cicp=j["cicp"], nch=nch, opt=j["opt"], cfg=base64.b64encode(cfg).decode(), frames=[base64.b64encode(x).decode() for x in f], indep=i)


if __name__ == "__main__":
    out = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else ""
    J = [j for j in J if j["name"].startswith(only)]
    print(len(J), "jobs")
    D = {}
    for d in procmap(make, J):
        D[d["name"]] = d
        print(d["name"], len(d["frames"]), flush=True)
        with lzma.open(out, "wt") as f:
            json.dump(D, f)

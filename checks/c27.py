"""C27: the multichannel coding tool against an independent model of its side information and joint-channel processing."""
from suite import *
import mct
LEVEL = "randomised differential testing against an independent model"
TOOLSETS = [("win",), ALL_TOOLS, ("win", "nf", "tns", "shape"), (), ("win", "ms", "pred", "nf")]


def build(key, *a):
    for t in range(8):
        o = build1("%s/%d" % (key, t), *a)
        if o[0]:
            break
        a = a[:-1] + (a[-1] and t < 6,)
    return o


def build1(key, fs, cicp, frames, tools, sce, where, filling):
    rng = random.Random("mct%s" % (key,))
    el = layout_elements(cicp, nf=int("nf" in tools), force_sce=sce)
    mask = mct.mask_of(el)
    if sum(mask) > 3 and rng.random() < .4:
        # a part of the channels only
        k = [i for i, b in enumerate(mask) if b]
        for i in rng.sample(k, rng.randint(1, len(k) - 3)):
            mask[i] = 0
    sc = fd_scene(rng, fs, cicp, frames, tools, elements=el)
    T = mct.Tool(rng, fs, mask, filling)
    pay, boxes = [], []
    for i, d in zip(sc["indep"], sc["data"]):
        ch = []
        for e, x in zip(el, d):
            ch += x["ch"] if e["type"] == "CPE" else [x]
        p, b = T.draw(i, ch)
        pay.append(p); boxes.append(b)

    def ref():
        m, j = Model(fs, el), mct.Joint(fs)
        o = np.concatenate([m.frame(i, d, lambda *a, i=i, b=b: j.frame(i, b, mask, *a)) for i, d, b in zip(sc["indep"], sc["data"], boxes)]) / 32768.0
        return o, j.fragile
    r, bad = ref()
    pk = np.abs(r).max()
    k = int(np.ceil(4 * np.log2(max(pk, 1e-9) / .7)))
    if k > 0:
        for d in sc["data"]:
            shift_gain(d, k)
        r, bad = ref()
    if bad:
        return None, {}, 0
    x = mct.element(mask)
    pos = 0 if where == 0 else rng.randrange(len(el))
    els = el[:pos] + [x] + el[pos:]
    data = [d[:pos] + [p] + d[pos:] for d, p in zip(sc["data"], pay)]
    cfg = config(fs=fs, level=0x0D, spk=spk_cicp(cicp), groups=[grp_ch(sc["nch"])], elements=els)
    s2 = dict(sc, cfg=cfg, elements=els, data=data, ref=r)
    s2["bytes"] = encode(s2)
    return s2, T.cnt, sum(map(len, boxes))


def work(a):
    sc, cnt, nbox = build(*a)
    R = run("plain", [(sc["bytes"], dict(pcmsz=32))])
    d, err = None, 0.
    i = R.i
    if R.rc == 0 and i and not i.bad:
        d = compare(i.audio(), sc["ref"])
        if d is None and len(i.pcm) // (4 * sc["nch"]) < len(sc["ref"]) - ATTACK:
            d = "output ends early"
        elif d is None:
            x = i.audio(); n = min(len(x), len(sc["ref"]))
            err = float((np.abs(x[:n] - sc["ref"][:n]) / local_tol(sc["ref"][:n], 1e-5, 1e-6)).max())
    elif R.rc == 0 and i:
        d = "valid frame refused: %s" % [hex(x) for x in i.bad][:4]
    return a, R, d, cnt, nbox, sc["bytes"], len(sc["data"]), float(np.abs(sc["ref"]).max()), err


def main(c, tier):
    vlib.build("plain")
    c.rule = "evaluation = one random stream with multichannel coding decoded and every output sample compared with the model; distinct by stream bytes"
    r = rng_for("c27")
    J = []
    for k in range(6000 if tier == "thorough" else 700):
        J.append((("c27", SEED, k), r.choice([48000, 48000] + FS_ALL), r.choice([2, 3, 4, 5, 6, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 19]),
                  r.choice([6, 9]), r.choice(TOOLSETS), r.random() < .4, r.randint(0, 1), r.random() < .5))
    for a, R, d, cnt, nbox, b, n, pk, err in procmap(work, J):
        key, fs, cicp, _, tools, sce, where, fl = a
        nm = "cicp %d, %d Hz, tools %s%s" % (cicp, fs, "+".join(tools), ", single channels" if sce else "")
        c.saw(b, "fs%d" % fs, "cicp%d" % cicp, *cnt)
        c.stat("frames", n); c.stat("boxes", nbox)
        for k, v in cnt.items():
            c.stat("box:" + k, v)
        if not c.judge(nm, R, stream_mhas=b):
            continue
        if d:
            c.violation("model-mismatch", "%s: %s" % (nm, d), stream_mhas=b, log=R.i.text)
        c.smax("worst error / tolerance", err)
        c.sample("%s: %d frames, %d boxes, peak %.2f" % (nm, n, nbox, pk))
    c.min_classes = 25

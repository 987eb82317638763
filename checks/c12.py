"""C12: decoded frequency-domain frames against an independent float64 model of the decoding process."""
from suite import *
import c13
LEVEL = "randomised differential testing against an independent model"
SUBSETS = [ALL_TOOLS, ("win", "shape"), ("nf", "win"), ("tns", "win"), ("ms", "pred"), ("alias", "shape"), ()]


def job(a):
    key, fs, cicp, tools, n, kw = a
    sc = scene(key, fs, cicp, n, tools, **kw)
    return sc


def jobs(tier, seed):
    out = []
    rng = random.Random("c12/%s" % seed)
    cic = CICPS if tier == "thorough" else CICPS
    rep = 30 if tier == "thorough" else 4
    for r in range(rep):
        for c in cic:
            if c == 13:
                continue
            out.append(("%s/%d/a%d" % (seed, c, r), 48000, c, ALL_TOOLS, 8, {}))
        for fs in FS_ALL:
            for c in (1, 2, 2, 2, 3, 6):
                for t in (SUBSETS if c <= 2 else [ALL_TOOLS]):
                    out.append(("%s/%d/%d/%s/%d/%d" % (seed, c, fs, t, r, len(out)), fs, c, t, 10, {}))
        for k in range(6):
            # wide and narrow dynamics, dense and sparse spectra
            out.append(("%s/dyn%d/%d" % (seed, k, r), rng.choice(FS_ALL), rng.choice([1, 2]), ALL_TOOLS, 8,
                        dict(peak=rng.choice([1, 20, 200]), density=rng.choice([.02, .3, .95]))))
    return out


def observe(sc):
    R = run("plain", [(sc["bytes"], dict(pcmsz=32))])
    return R


def work(a):
    sc = job(a)
    R = observe(sc)
    d = None
    i = R.i
    if R.rc == 0 and not i.bad:
        d = compare(i.audio(), sc["ref"])
        if d is None and len(i.pcm) // (4 * sc["nch"]) < len(sc["ref"]) - ATTACK:
            d = "output ends early: %d of %d samples" % (len(i.pcm) // (4 * sc["nch"]), len(sc["ref"]))
    elif R.rc == 0:
        d = "valid frame refused: %s" % [hex(x) for x in i.bad][:4]
    err = 0.0
    if d is None:
        x = i.audio(); n = min(len(x), len(sc["ref"]))
        err = float((np.abs(x[:n] - sc["ref"][:n]) / local_tol(sc["ref"][:n], 1e-5, 1e-6)).max())
    return a, R, d, sc["counts"], len(sc["data"]), float(np.abs(sc["ref"]).max()), err, sc["bytes"]


def main(c, tier):
    vlib.build("plain")
    c.rule = "evaluation = one random stream decoded and every output sample compared with the model; distinct by stream bytes"
    for a, R, d, cnt, n, pk, err, b in procmap(work, jobs(tier, SEED)):
        key, fs, cicp, tools, nf, kw = a
        name = "cicp %d, %d Hz, tools %s" % (cicp, fs, "+".join(tools))
        c.saw(b, "fs%d" % fs, "cicp%d" % cicp, *cnt)
        c.stat("frames", n)
        for k, v in cnt.items():
            c.stat("tool:" + k, v)
        if not c.judge(name, R, stream_mhas=b):
            continue
        if d:
            c.violation("model-mismatch", "%s: %s" % (name, d), stream_mhas=b, log=R.i.text)
        c.smax("worst error / tolerance", err)
        c.sample("%s: %d frames, peak %.2f" % (name, n, pk))
    # tools the model leaves out (complex prediction, frequency-domain prediction, long-term postfilter): recorded references
    G = Golden("C13")
    for a, R, why, fp, h, cls, b, tol in procmap(c13.work, [(n, "alone", None) for n in sorted(c13.CASES) if n.split("/")[0] in ("gen", "fdx")]):
        c.saw((a[0], "recorded"), *("recorded-" + x for x in cls))
        if not c.judge("recorded stream " + a[0], R, stream_mhas=b):
            continue
        why = why or G.check(a[0], h, fp, rel=tol)
        c.stat("recorded blocks", 0 if fp is None else len(fp))
        if why:
            c.violation("recorded-mismatch", "%s: %s" % (a[0], why), stream_mhas=b)
    c.min_classes = 20

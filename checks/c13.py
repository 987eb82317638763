"""C13: the reference corpus plays as recorded, whatever was decoded before it in the same process."""
from suite import *
import json, lzma, base64
LEVEL = "reference-trace monitoring"
CASES = json.loads(lzma.open(os.path.join(vlib.ROOT, "corpus", "c13.xz")).read())


def load(n):
    d = CASES[n]
    o = {k: base64.b64decode(v[4:]) if isinstance(v, str) and v.startswith("b64:") else v for k, v in d["opt"].items()}
    return base64.b64decode(d["stream"]), o, d


def work(a):
    n, kind, extra = a
    b, o, d = load(n)
    if kind == "alone":
        R = run("plain", [(b, o)], timeout=120)
        k = 0
    elif kind == "feed":
        R = run("plain", [(b, dict(o, feed=extra))], timeout=120)
        k = 0
    elif kind == "after":
        x, xo, _ = load(extra)
        R = run("plain", [(x, xo), (b, o)], timeout=240)
        k = 1
    else:
        R = run("asan", [(b, o)], timeout=300)
        k = 0
    i = R.insts[k] if len(R.insts) > k else None
    why = fp = None
    if R.rc == 0 and i:
        if i.bad:
            why = "refused: %s" % [hex(x) for x in i.bad][:3]
        elif (i.nch, i.fs) != (d["nch"], d["fs"]):
            why = "%s channels at %s Hz instead of %d at %d" % (i.nch, i.fs, d["nch"], d["fs"])
        else:
            fp = fingerprint(i.audio())
    h = shash(b, sorted(d["opt"].items()))
    return a, R, why, fp, h, d["cls"], b, d["tol"]


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    if th:
        vlib.build("asan")
    G = Golden("C13")
    c.rule = "evaluation = one stream of the corpus decoded in one history and its fingerprint of every 1024-sample block and channel compared with the recorded one"
    r = rng_for("c13")
    names = sorted(CASES)
    J = [(n, "alone", None) for n in names]
    for n in (names * 2 if th else r.sample(names, min(150, len(names)))):
        J.append((n, "after", r.choice(names)))
    if th:
        for n in names:
            J.append((n, "feed", "rnd:%d" % r.randint(1, 4000)))
            J.append((n, "asan", None))
    for a, R, why, fp, h, cls, b, tol in procmap(work, J):
        n, kind, extra = a
        nm = n + {"alone": "", "after": " after %s" % extra, "feed": " fed by %s" % extra, "asan": " (sanitizer build)"}[kind]
        c.saw((n, kind, extra), kind, *cls)
        if not c.judge(nm, R, stream_mhas=b):
            continue
        if why is None:
            why = G.check(n, h, fp, rel=tol)
        c.stat("blocks", 0 if fp is None else len(fp))
        if why:
            c.violation("golden", "%s: %s" % (nm, why), stream_mhas=b)
        else:
            c.sample("%s: %d blocks as recorded" % (nm, len(fp)))
    c.min_classes = 8

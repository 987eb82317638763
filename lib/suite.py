"""Shared building blocks of the checks: scenes with model references, golden fingerprints, comparisons."""
import os, sys, random, hashlib, zlib
import numpy as np
import vlib
from mpegh import *
from scenes import *
from fdmodel import Model
from vlib import run, procmap, pmap, HarnessError, SEED, pcm_float

ALL_TOOLS = ("win", "shape", "nf", "tns", "ms", "pred", "alias")
FS_ALL = [48000, 44100, 32000, 24000, 22050, 16000]
ATTACK = 240     # samples of limiter look-ahead trimmed at 48 kHz


def model_ref(sc):
    m = Model(sc["fs"], sc["elements"])
    return np.concatenate([m.frame(i, d) for i, d in zip(sc["indep"], sc["data"])]) / 32768.0


def normalise(sc, target=.8, force=False):
    """model the scene and lower its gain until it peaks below target; sets sc['ref']"""
    ref = model_ref(sc)
    pk = np.abs(ref).max()
    if pk > target or force:
        k = int(np.ceil(4 * np.log2(max(pk, 1e-9) / target)))
        if k > 0 or force:
            for d in sc["data"]:
                shift_gain(d, k)
            ref = model_ref(sc)
    sc["ref"] = ref
    return sc


def scene(seed, fs=48000, cicp=2, nframes=6, tools=ALL_TOOLS, target=.8, **kw):
    rng = random.Random("scene%s" % (seed,))
    sc = fd_scene(rng, fs, cicp, nframes, tools, **kw)
    normalise(sc, target)
    sc["bytes"] = encode(sc)
    return sc


def expect(ref, fs):
    """the samples a stream is expected to produce: the first ATTACK are trimmed at 48 kHz"""
    return ref[: len(ref) - ATTACK] if False else ref


def local_tol(ref, rel, floor, blk=1024):
    """per sample tolerance: relative to the largest magnitude in the surrounding frames"""
    n, c = ref.shape
    nb = (n + blk - 1) // blk
    pk = np.array([np.abs(ref[b * blk:(b + 1) * blk]).max() if n else 0 for b in range(nb)])
    p2 = pk.copy()
    p2[1:] = np.maximum(p2[1:], pk[:-1])
    p2[:-1] = np.maximum(p2[:-1], pk[1:])
    return np.repeat(p2, blk)[:n, None] * rel + floor


def compare(a, ref, rel=1e-5, floor=1e-6):
    """-> None or a description of the first mismatch"""
    if a.shape[1] != ref.shape[1]:
        return "channel count %d instead of %d" % (a.shape[1], ref.shape[1])
    n = min(len(a), len(ref))
    if n == 0:
        return "no output"
    e = np.abs(a[:n] - ref[:n])
    t = local_tol(ref[:n], rel, floor)
    bad = e > t
    if bad.any():
        s, c = [int(x[0]) for x in np.nonzero(bad)]
        return "frame %d sample %d channel %d: %.7g instead of %.7g (%d samples off, worst %.3g)" % (
            s // 1024, s % 1024, c, a[s, c], ref[s, c], int(bad.sum()), float((e / t).max()))
    return None


# ------------------------------------------------------------------ golden fingerprints
_R = np.sign(np.random.RandomState(7).standard_normal((4, 1024)))


def fingerprint(a, blk=1024):
    """[blocks, channels, 4] float32: rms and three signed projections per block"""
    n = len(a) // blk
    if n == 0:
        return np.zeros((0, a.shape[1], 4), dtype=np.float32)
    x = a[:n * blk].reshape(n, blk, a.shape[1])
    f = [np.sqrt((x ** 2).mean(axis=1))]
    for k in range(3):
        f.append(np.einsum("nbc,b->nc", x, _R[k][:blk]) / blk ** .5)
    return np.stack(f, axis=2).astype(np.float32)


def fp_diff(f, g, rel=3e-4, floor=1e-6):
    """f observed, g recorded"""
    if f.shape != g.shape:
        return "shape (blocks, channels) %s instead of %s" % (f.shape[:2], g.shape[:2])
    if not f.size:
        return None
    lv = g[:, :, 0].max(axis=1)
    l2 = lv.copy()
    l2[1:] = np.maximum(l2[1:], lv[:-1]); l2[:-1] = np.maximum(l2[:-1], lv[1:])
    t = l2[:, None, None] * rel + floor
    bad = np.abs(f.astype(np.float64) - g) > t
    if bad.any():
        b, c, k = [int(x[0]) for x in np.nonzero(bad)]
        return "block %d channel %d: %s %.6g instead of %.6g" % (b, c, "rms" if k == 0 else "projection", f[b, c, k], g[b, c, k])
    return None


class Golden:
    """recorded fingerprints of one property, keyed by case name"""

    def __init__(self, pid):
        self.path = os.path.join(vlib.ROOT, "golden", pid + ".npz")
        self.d = dict(np.load(self.path)) if os.path.exists(self.path) else {}
        self.new = {}

    def put(self, name, stream_hash, f):
        self.new[name] = f
        self.new[name + "#h"] = np.frombuffer(stream_hash, dtype=np.uint8)

    def save(self):
        np.savez_compressed(self.path, **self.new)

    def check(self, name, stream_hash, f, **kw):
        if name not in self.d:
            raise HarnessError("no recorded reference for " + name)
        if bytes(self.d[name + "#h"]) != stream_hash:
            raise HarnessError("generator no longer produces the recorded stream " + name)
        return fp_diff(f, self.d[name], **kw)


def shash(*parts):
    h = hashlib.md5()
    for p in parts:
        h.update(p if isinstance(p, (bytes, bytearray)) else repr(p).encode())
    return h.digest()


def rng_for(pid, k=0):
    return random.Random("%s/%s/%s" % (pid, SEED, k))


# ------------------------------------------------------------------ mixed workloads
OPTMIX = [dict(), dict(cicp=1), dict(cicp=2), dict(cicp=6), dict(cicp=7), dict(cicp=12), dict(cicp=19), dict(outfs=48000),
          dict(tl=-24), dict(tl=-16, effect=3), dict(pcmsz=24), dict(pcmsz=32, cicp=6), dict(effect=2)]


def mix_job(a):
    name, key, fs, cicp, n, tools, kw = a
    sc = scene(key, fs, cicp, n, tools, **kw)
    return name, sc


def mix_specs(tag, n, frames=8):
    """n scene descriptions covering layouts, rates and tools"""
    r = random.Random("mix/%s/%s" % (tag, SEED))
    out = []
    cy = [c for c in CICPS if c != 13]
    r.shuffle(cy)
    for k in range(n):
        fs = 48000 if r.random() < .6 else r.choice(FS_ALL)
        c = cy[k % len(cy)] if k % 2 == 0 else r.choice([1, 2, 2, 6, 7, 12])
        t = r.choice([ALL_TOOLS, ALL_TOOLS + ("ltpf",), ALL_TOOLS + ("ltpf", "fdp"), ("win", "ms", "pred")])
        out.append(("cicp%d-%d-%d" % (c, fs, k), "%s/%s/%d" % (tag, SEED, k), fs, c, frames, t, {}))
    return out


def scene_any(key, fs, cicp, n, tools, **kw):
    """like scene() but also for tools the model does not cover (no reference then)"""
    if set(tools) <= set(ALL_TOOLS):
        return scene(key, fs, cicp, n, tools, **kw)
    rng = random.Random("scene%s" % (key,))
    sc = fd_scene(rng, fs, cicp, n, tools, gg=(128, 138), **kw)
    sc["bytes"] = encode(sc)
    return sc


def mix(tag, n, frames=8):
    def f(a):
        name, key, fs, c, fr, t, kw = a
        sc = scene_any(key, fs, c, fr, t, **kw)
        return dict(name=name, bytes=sc["bytes"], cfg=sc["cfg"], frames=sc["frames"], fs=fs, cicp=c, nch=sc["nch"], indep=sc["indep"])
    global _mixf
    _mixf = f
    return procmap(_mixcall, mix_specs(tag, n, frames))


_mixf = None


def _mixcall(a):
    return _mixf(a)


class Blob(bytes):
    """file contents among the options: kept out of names and logs"""

    def __repr__(self):
        return "<%d bytes>" % len(self)
    __str__ = __repr__


_PACK = {}


def tool_items(tag, n):
    """n streams of the stored tool corpus (every tool the scene generator does not write itself), a share of every class;
    it["opt"] holds the options that make the tool act"""
    import json, lzma, base64
    if not _PACK:
        _PACK.update(json.loads(lzma.open(os.path.join(vlib.ROOT, "corpus", "c13.xz")).read()))
    r = random.Random("tools/%s/%s" % (tag, SEED))
    by = {}
    for k in sorted(_PACK):
        cl = _PACK[k]["cls"]
        by.setdefault(next((x for x in cl if x not in ("fd", "played")), cl[0]), []).append(k)
    for v in by.values():
        r.shuffle(v)
    ks, names = [], sorted(by)
    r.shuffle(names)
    while len(ks) < min(n, len(_PACK)):
        for x in names:
            if by[x] and len(ks) < n:
                ks.append((x, by[x].pop()))
    out = []
    for cl, k in ks:
        d = _PACK[k]
        o = {a: Blob(base64.b64decode(v[4:])) if isinstance(v, str) and v.startswith("b64:") else v for a, v in d["opt"].items()}
        b = base64.b64decode(d["stream"])
        if k.startswith(("tool/", "toolp/")):
            # grown payloads may ask for bits beyond their packet: give each the bits it asks for
            b = _padded(b, b"")
        out.append(dict(name="%s/%s" % (cl, k), bytes=b, opt=o, cls=cl, cfg=next(p[3] for p in split_packets(b) if p[0] == PT_CFG), frames_=sum(p[0] == PT_FRAME for p in split_packets(b))))
        out[-1]["fs_"] = config_fs(out[-1]["cfg"])
    # a payload that still wants more than that is no frame: what follows the padding must not matter
    J = [(it, e) for it in out for e in ((b"", b"\xA5" * 40, b"\x5A" * 40, b"\0" * 900) if it["name"].split("/")[1] in ("tool", "toolp") else (b"",))]
    R = pmap(lambda a: run("plain", [(_padded(a[0]["bytes"], a[1], 0) if a[1] else a[0]["bytes"], a[0]["opt"])]), J)
    seen = {}
    for (it, e), q in zip(J, R):
        seen.setdefault(it["name"], set()).add(None if q.rc or not q.i or q.i.bad else hash(q.i.pcm))
    return [it for it in out if None not in seen[it["name"]] and len(seen[it["name"]]) == 1]


def _padded(b, end, n=500):
    return b"".join(packet(t, x + bytes(n) + end, l) if t == PT_FRAME else h + x for t, l, h, x in split_packets(b))


def config_fs(cfg):
    """sampling rate in a configuration payload"""
    k = cfg[1] >> 3
    if k != 31:
        return FS_TBL[k]
    return int.from_bytes(cfg[1:5], "big") >> 3 & 0xFFFFFF


def opt_for(r, it, choice=None):
    """an option set for an item; the options its tool needs stay in force"""
    o = dict(choice if choice is not None else r.choice(OPTMIX))
    need = it.get("opt")
    if need is not None:
        if "brir" in need or r.random() < .6:
            o = {k: v for k, v in o.items() if k == "pcmsz"} if "brir" in need else o
            o.update({k: v for k, v in need.items() if k != "pcmsz"})
    return o


def split_packets(b):
    """-> list of (type, label, header bytes, payload bytes) of a well-formed stream"""
    out = []
    pos = 0
    while pos < len(b):
        bit = [pos * 8]

        def g(k):
            v = 0
            for _ in range(k):
                v = v << 1 | (b[bit[0] >> 3] >> (7 - (bit[0] & 7)) & 1); bit[0] += 1
            return v

        def e(x, y, z):
            v = g(x)
            if v == (1 << x) - 1:
                w = g(y); v += w
                if w == (1 << y) - 1:
                    v += g(z)
            return v
        t, l, n = e(3, 8, 8), e(2, 8, 32), e(11, 24, 24)
        h = (bit[0] + 7) // 8
        out.append((t, l, b[pos:h], b[h:h + n]))
        pos = h + n
    return out


def damage(rng, b, cfgs_too=False):
    """flip/replace/cut bytes inside packet payloads (frames only unless cfgs_too)"""
    pk = split_packets(b)
    idx = [k for k, p in enumerate(pk) if (p[0] == PT_FRAME or (cfgs_too and p[0] == PT_CFG)) and len(p[3])]
    out = [list(p) for p in pk]
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(idx)
        x = bytearray(out[k][3])
        m = rng.random()
        if m < .5:
            for _ in range(rng.randint(1, 4)):
                x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        elif m < .7:
            s = rng.randrange(len(x))
            for j in range(s, min(len(x), s + rng.randint(1, 30))):
                x[j] = rng.getrandbits(8)
        elif m < .85:
            s = rng.randrange(len(x))
            x[s:] = bytes(len(x) - s)
        else:
            s = rng.randrange(len(x))
            x[s:] = bytes([255]) * (len(x) - s)
        out[k][3] = bytes(x)
    return b"".join(p[2] + p[3] for p in out)


def same(a, b, what=("pcm", "calls")):
    """compare two instances' observable behaviour -> None or description"""
    if "calls" in what:
        x, y = [(c["kind"], c["err"], c["used"], c["out"], c["ch"] if c["kind"] == "exec" else 0) for c in a.calls], \
               [(c["kind"], c["err"], c["used"], c["out"], c["ch"] if c["kind"] == "exec" else 0) for c in b.calls]
        if x != y:
            for k, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return "call %d: %s instead of %s" % (k, q, p)
            return "%d calls instead of %d" % (len(y), len(x))
    if a.pcm != b.pcm:
        n = min(len(a.pcm), len(b.pcm))
        p, q = np.frombuffer(a.pcm[:n], dtype=np.uint8), np.frombuffer(b.pcm[:n], dtype=np.uint8)
        w = np.nonzero(p != q)[0]
        return "PCM differs from byte %d (%d vs %d bytes)" % (int(w[0]) if len(w) else n, len(a.pcm), len(b.pcm))
    return None


def all_ch(sc):
    for d in sc["data"]:
        for x in d:
            if x is None:
                continue
            for ch in (x["ch"] if "ch" in x else [x]):
                yield ch


def set_level(sc, level):
    """raise or lower all gains so that the modelled peak comes close to level"""
    pk = np.abs(sc["ref"]).max()
    k = int(round(4 * np.log2(level / max(pk, 1e-9))))
    top = max(max([ch["gg"]] + [max(row[:max(1, ch["max_sfb"])]) for row in ch["sf"]]) for ch in all_ch(sc))
    low = min(ch["gg"] for ch in all_ch(sc))
    k = min(k, 255 - top)
    k = max(k, 25 - low)
    for d in sc["data"]:
        shift_gain(d, -k)
    sc["ref"] = model_ref(sc)
    sc["bytes"] = encode(sc)
    return sc

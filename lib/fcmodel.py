"""Format conversion between loudspeaker layouts: which loudspeakers an input channel is played on, with which gain and
equaliser, and the energy preserving downmix in the short-time spectrum.  Written from ISO/IEC 23008-3, 10.3; the
conversion rules (table of 10.3.4.3) are kept as data in fcrules.json."""
import os, json
import numpy as np
from mpegh import CICP, GEO

RULES = json.load(open(os.path.join(os.path.dirname(__file__), "fcrules.json")))["rules"]
PANNING, ALLU, ALLM, AUTOPAN = 100, 101, 102, 103
ERB = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
       32, 33, 36, 39, 43, 47, 51, 55, 60, 65, 70, 77, 84, 91, 98, 106, 115, 125, 136, 148, 160, 174, 189, 205, 222, 241, 257]
LO = [0] + ERB[:-1]
# centre of each band on the perceptual scale, relative to half the sampling rate
NRM = json.load(open(os.path.join(os.path.dirname(__file__), "fcrules.json")))["nrm"]
PEAKS = {1: [(12000, .3, -2, 1)], 2: [(12000, .3, -3.5, 1)],
         3: [(200, .3, -6.5, .7), (1300, .5, 1.8, 0), (600, 1, 2, 0)],
         4: [(5000, 1, 4.5, -3.1), (1100, .8, 1.8, 0)],
         5: [(35, .25, -1.3, 1)]}
ALPHA, EQMIN, EQMAX = .0435, 10 ** -.5, 10 ** .4


def peak(f, fc, q, p, g):
    v = 10 ** (abs(p) / 20)
    num = den = f ** 4 + fc ** 4
    wide, narrow = (v * v / q ** 2 - 2) * fc * fc * f * f, (1 / q ** 2 - 2) * fc * fc * f * f
    r = (num + wide) / (den + narrow) if p >= 0 else (num + narrow) / (den + wide)
    return np.sqrt(r) * 10 ** (g / 20)


def equaliser(k, fs):
    f = np.array(NRM) * fs / 2
    e = np.ones(58)
    for p in PEAKS.get(k, []):
        e = e * peak(f, *p)
    return e


def is_m(s):
    return not GEO[s][2] and GEO[s][1] == 0


def is_u(s):
    return not GEO[s][2] and 0 < GEO[s][1] < 90


def rule(s, out):
    """[(loudspeaker index, gain, equaliser)] for loudspeaker s that is not in the layout; None: no rule fits"""
    for r in RULES:
        if r[0] != s:
            continue
        if r[4] in (ALLU, ALLM):
            d = [i for i, o in enumerate(out) if (is_u(o) if r[4] == ALLU else is_m(o))]
            if d:
                return [(i, r[3] / 100 / len(d) ** .5, r[7]) for i in d]
            continue
        if r[1] not in out or (r[2] >= 0 and r[2] not in out):
            continue
        a = out.index(r[1])
        if r[2] < 0:
            return [(a, r[3] / 100, r[7])]
        b = out.index(r[2])
        if r[4] == PANNING:
            a0, a1 = r[5], r[6]
        else:
            za, zb, zt = (GEO[x][0] for x in (r[1], r[2], s))
            if abs(zt) == 180:           # straight behind a symmetric pair
                a0, a1 = 30, 0
            else:
                a0 = abs(za - zb) / 2
                a1 = (za + zb) / 2 - zt
                if za > zb:
                    a1 = -a1
        t0, t1 = np.tan(np.radians(a0)), np.tan(np.radians(a1))
        g = np.array([t0 + t1 + 1e-10, t0 - t1 + 1e-10])
        g = g / np.hypot(*g)
        return [(a, r[3] / 100 * g[0], r[7]), (b, r[3] / 100 * g[1], r[7])]
    return None


def matrix(cin, cout, fs):
    """[257, in, out] gains, or None where the conversion is by panning"""
    src, out = CICP[cin], CICP[cout]
    m = np.zeros((257, len(src), len(out)))
    for i, s in enumerate(src):
        if s in out:
            m[:, i, out.index(s)] = 1
            continue
        d = rule(s, out)
        if d is None:
            return None
        for o, g, q in d:
            e = equaliser(q, fs) if q else np.ones(58)
            for b in range(58):
                m[LO[b]:ERB[b], i, o] = g * e[b]
    return m


def convert(x, m):
    """x [n, in] (n a multiple of 256), m [257, in, out] -> [n, out], aligned (the last 256 samples incomplete)"""
    n = len(x) // 256 * 256
    x = np.concatenate([np.zeros((256, x.shape[1])), x[:n]])
    w = np.sin((np.arange(512) + .5) * np.pi / 512)[:, None]
    K = n // 256
    X = np.fft.rfft(np.stack([x[k * 256:k * 256 + 512] * w for k in range(K)], axis=1), axis=0)     # [257, K, in]
    Y = np.matmul(X, m)
    T = np.add.reduceat(np.matmul(np.abs(X) ** 2, m ** 2), LO, axis=0)
    R = np.add.reduceat(np.abs(Y) ** 2, LO, axis=0)
    t = np.zeros_like(T[:, 0]); r = np.zeros_like(t)
    out = np.zeros((n + 256, m.shape[2]))
    rep = np.diff(LO + [257])
    for k in range(K):
        t = T[:, k] * ALPHA + (1 - ALPHA) * t
        r = R[:, k] * ALPHA + (1 - ALPHA) * r
        eq = np.clip(np.sqrt(t / (1e-35 + r)), EQMIN, EQMAX)
        out[k * 256:k * 256 + 512] += np.fft.irfft(Y[:, k] * np.repeat(eq, rep, axis=0), 512, axis=0) * w
    return out[256:]


# ------------------------------------------------------------------ transmitted downmix matrices
from mpegh import BW
TEMPLATES = {tuple(int(x) for x in k.split(",")): v
             for k, v in json.load(open(os.path.join(os.path.dirname(__file__), "fcrules.json")))["templates"].items()}
CENTRE, PAIR, SINGLE = 0, 1, 2


def compact(layout):
    """[(kind, index, index of the partner)]: left-right pairs are one entry, represented by the left loudspeaker"""
    pos = [tuple(GEO[s][:3]) for s in layout]
    used, out = set(), []
    for i, (az, el, lfe) in enumerate(pos):
        if i in used:
            continue
        used.add(i)
        if az in (0, 180, -180):
            out.append((CENTRE, i, None))
            continue
        for j in range(i + 1, len(pos)):
            if j not in used and pos[j] == (-az, el, lfe):
                used.add(j)
                out.append((PAIR, i, j) if az > 0 else (PAIR, j, i))
                break
        else:
            out.append((SINGLE, i, None))
    return out


def put_range(w, v, n):
    b = n.bit_length() - 1
    unused = (1 << (b + 1)) - n
    if v < unused:
        w.u(v, b)
    else:
        w.u((v + unused) >> 1, b).u((v + unused) & 1, 1)


def gain_table(lo, hi, prec):
    t = list(range(0, lo - 1, -3)) + list(range(3, hi + 1, 3))
    t += [i for i in range(0, lo - 1, -1) if i % 3] + [i for i in range(1, hi + 1) if i % 3]
    for p in range(1, prec + 1):
        q = 1 << p
        t += [-k / q for k in range(0, -lo * q + 1) if k % 2] + [k / q for k in range(1, hi * q + 1) if k % 2]
    return t + [None]


EQPREC, EQMINR = [1, .5, .25, .1], [[-8, -8, -8, -6.4], [-16, -16, -16, -12.8]]


def put_eq(w, rng, nin, fs):
    """-> [58, nin] gains"""
    neq = rng.choice([1, 1, 2, 3, 6, 7, 12])
    w.esc(neq - 1, 3, 5, 0)
    pl = rng.randint(0, 3)
    sl = min(pl + 1, 3)
    ext = rng.randint(0, 1)
    w.u(pl, 2).u(ext, 1)
    f = np.array(NRM) * fs / 2
    eqs = []
    for e in range(neq):
        n = rng.choice([1, 1, 2, 3, 4, 5])
        w.esc(n - 1, 2, 4, 0)
        p10, ld2, mx = 0, 10, 99
        r = np.ones(58)
        for k in range(n):
            q10 = rng.randint(p10, 3) if rng.random() < .6 else p10
            put_range(w, q10 - p10, 4 - p10)
            if q10 > p10:
                ld2 = 10
            if q10 == 3:
                mx = 24
            v = rng.randint(ld2, mx)
            put_range(w, v - ld2, 1 + mx - ld2)
            p10, ld2 = q10, v
            qi = rng.randint(3, 31)
            w.u(qi, 5)
            if qi <= 19:
                q = .05 * (qi + 1)
            else:
                x = rng.randint(0, 7)
                w.u(x, 3)
                q = 1 + .1 * ((qi - 20) * 8 + x + 1)
            gi = rng.randrange(1 << (4 + ext + pl))
            w.u(gi, 4 + ext + pl)
            r = r * peak(f, v * 10 ** q10, q, EQMINR[ext][pl] + EQPREC[pl] * gi, 0)
        si = rng.randrange(1 << (4 + ext + sl))
        w.u(si, 4 + ext + sl)
        eqs.append(r * 10 ** ((EQMINR[ext][sl] + EQPREC[sl] * si) / 20))
    out = np.ones((58, nin))
    for c in range(nin):
        if rng.random() < .6:
            k = rng.randrange(neq)
            w.u(1, 1)
            put_range(w, k, neq)
            out[:, c] = eqs[k]
        else:
            w.u(0, 1)
    return out


def random_matrix(rng, cin, cout, fs, template=None):
    """a random transmitted matrix -> (bits, [257, in, out] gains)"""
    src, dst = CICP[cin], CICP[cout]
    ci, co = compact(src), compact(dst)
    w = BW()
    eq = None
    if rng.random() < .5:
        w.u(1, 1)
        eq = put_eq(w, rng, len(src), fs)
    else:
        w.u(0, 1)
    prec = rng.randint(0, 2)
    hi = rng.choice([0, 0, 3, 6, 7, 10, 22])
    lo = -rng.choice([1, 6, 15, 16, 24, 40, 47])
    w.u(prec, 2).esc(hi, 3, 4, 0).esc(-lo - 1, 4, 5, 0)
    sep = [0] * len(co)
    if rng.random() < .3:
        w.u(1, 1)
        sep = [int(c[0] == PAIR) for c in co]
    else:
        w.u(0, 1)
        for k, c in enumerate(co):
            if c[0] == PAIR:
                sep[k] = rng.randint(0, 1)
                w.u(sep[k], 1)
    if rng.random() < .3:
        w.u(1, 1)
        sym = [1] * len(co)
    else:
        w.u(0, 1)
        sym = [rng.randint(0, 1) for _ in co]
        for s in sym:
            w.u(s, 1)
    lfe = lambda lay, c: GEO[lay[c[1]]][2]
    l2l = rng.randint(0, 1)
    w.u(l2l, 1)
    dens = rng.choice([.15, .4, .7])
    comp = [[int(rng.random() < dens) for _ in co] for _ in ci]
    for i, a in enumerate(ci):
        for j, b in enumerate(co):
            if l2l and lfe(src, a) != lfe(dst, b):
                comp[i][j] = 0
    if template is None:
        template = (cin, cout) in TEMPLATES and rng.random() < .6
    if not template and rng.random() < .4:
        w.u(1, 1)
        for i, a in enumerate(ci):
            for j, b in enumerate(co):
                if not l2l or lfe(src, a) == lfe(dst, b):
                    w.u(comp[i][j], 1)
    else:
        w.u(0, 1).u(1 if template else 0, 1)
        T = TEMPLATES[(cin, cout)] if template else [0] * (len(ci) * len(co))
        flat, direct = [], []
        for i, a in enumerate(ci):
            for j, b in enumerate(co):
                x, y = lfe(src, a), lfe(dst, b)
                if l2l and x and y:
                    direct.append(comp[i][j])
                elif not (l2l and x != y):
                    flat.append(comp[i][j] ^ T[i * len(co) + j])
        n = len(flat)
        nb = 4 if n >= 256 else 3
        p = rng.randint(0, 3)
        w.u(p, nb)
        mh = n >> p
        runs, k = [], 0
        while True:
            try:
                e = flat.index(1, k)
            except ValueError:
                e = n
            runs.append(e - k)
            k = e + 1
            if k >= n:
                break
        if n == 0:
            runs = [0]
        for r in runs:
            h = r >> p
            w.s("1" * h + ("0" if h < mh else "")).u(r & ((1 << p) - 1), p)
        for b in direct:
            w.u(b, 1)
    asym = rng.randint(0, 1)
    raw = rng.randint(0, 1)
    w.u(asym, 1).u(raw, 1)
    tab = gain_table(lo, hi, prec)
    usable = [k for k, g in enumerate(tab) if g is None or g >= -30]
    if not raw:
        lg = rng.randint(0, 7)
        w.u(lg, 3)

    def gain():
        k = rng.choice(usable) if rng.random() < .9 else len(tab) - 1
        g = tab[k]
        if raw:
            n = ((hi - lo) << prec) + 2
            put_range(w, n - 1 if g is None else int((hi - g) * (1 << prec)), n)
        else:
            mh = (len(tab) - 1) >> lg
            h = k >> lg
            w.s("0" * h + ("1" if h < mh else "")).u(k & ((1 << lg) - 1), lg)
        return 0. if g is None else 10 ** (g / 20)
    m = np.zeros((len(src), len(dst)))
    for i, (ka, a, a2) in enumerate(ci):
        for j, (kb, b, b2) in enumerate(co):
            if not comp[i][j]:
                continue
            m[a, b] = gain()
            if ka != PAIR and kb != PAIR:
                continue
            if ka != PAIR:
                m[a, b2] = m[a, b] if sym[j] and not (ka == SINGLE and asym) else gain()
            elif kb != PAIR:
                m[a2, b] = m[a, b] if sym[j] else gain()
            else:
                if not sep[j]:
                    m[a, b2] = gain()
                    m[a2, b] = m[a, b2] if sym[j] else gain()
                m[a2, b2] = m[a, b] if sym[j] else gain()
    full = np.zeros((257,) + m.shape)
    for b in range(58):
        full[LO[b]:ERB[b]] = m * (eq[b][:, None] if eq is not None else 1)
    return w, full


def downmix_ext(rng, entries):
    """entries: [(output layout, matrix bits or None)] -> configuration extension payload"""
    w = BW()
    t = rng.choice([1, 2])
    w.u(t, 2)
    if t == 2:
        p = rng.randint(0, 1)
        w.u(p, 1)
        if not p:
            w.u(0, 3)
        w.u(rng.randint(0, 1), 1)
    w.u(len(entries), 5)
    for k, (lay, mtx) in enumerate(entries):
        w.u(k + 1, 7).u(0 if mtx is None else 1, 2).u(lay, 6)
        if mtx is not None:
            w.esc(0, 1, 3, 0)
            ng = rng.randint(1, 3)
            w.esc(ng - 1, 1, 4, 4)
            for _ in range(ng):
                w.u(rng.randint(0, 31), 5)
            w.esc(mtx.n, 8, 8, 12).w(mtx)
    return w

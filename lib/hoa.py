"""HOA configurations and frames, and the coefficient signals they stand for (order N ACN / N3D, float64)."""
import os, struct
import numpy as np
from math import factorial, sqrt
from mpegh import *

_T = np.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), "hoatab.npz"))
TAB = {k: _T[k] for k in _T.files}
L = 1024
TIMES = [0, 64, 128, 256, 384, 512, 768, 1024]
DIR, VEC, AMB, OFF = 0, 1, 2, 3


def clog2(n):
    k = 0
    while (1 << k) < n:
        k += 1
    return k


def legendre(n, m, c, s):
    """associated Legendre functions without the sign of odd orders"""
    pmm = np.ones_like(c)
    for k in range(1, m + 1):
        pmm = pmm * (2 * k - 1) * s
    if n == m:
        return pmm
    p1 = c * (2 * m + 1) * pmm
    a, b = pmm, p1
    for k in range(m + 2, n + 1):
        a, b = b, ((2 * k - 1) * c * b - (k + m - 1) * a) / (k - m)
    return b


def sh(order, az, ci, si):
    """[directions, (order+1)^2] real spherical harmonics, N3D"""
    az, ci, si = [np.atleast_1d(np.asarray(x, dtype=np.float64)) for x in (az, ci, si)]
    out = []
    for n in range(order + 1):
        for m in range(-n, n + 1):
            a = abs(m)
            k = sqrt((2 * n + 1) * (2 if m else 1) * factorial(n - a) / factorial(n + a))
            out.append(k * legendre(n, a, ci, si) * (np.sin(a * az) if m < 0 else np.cos(a * az)))
    return np.stack(out, 1)


def grid(order):
    return sh(order, TAB["grid_az"], TAB["grid_ci"], TAB["grid_si"])


def coarse(order, shorder):
    """harmonics of order shorder of the (order+1)^2 point grid, [points, coefficients]"""
    if order == 0:
        return np.ones((1, 1)) if shorder == 0 else None
    return sh(shorder, TAB["az%d" % order], TAB["ci%d" % order], TAB["si%d" % order])


def codebook(cb, order):
    """-> (vectors [n, K], index bits, normalised when combined)"""
    K = (order + 1) ** 2
    if cb == 0:
        return grid(order), 10, True
    if cb in (1, 2):
        return sh(order, np.deg2rad(TAB["spk_az"].astype(np.float64)), TAB["spk_ci"], TAB["spk_si"]), 6, cb == 1
    if cb == 3:
        az = (np.arange(64) + .745) * 2 * np.pi / 64
        return sh(order, az, 0 * az, 1 + 0 * az), 6, True
    if cb == 7:
        v = TAB["cv%d" % order].astype(np.float64)
        return v.reshape(-1, K), clog2(K), True
    raise ValueError(cb)


class Hoa:
    def __init__(self, order=1, ntc=4, minamb=0, single=1, interp=0, method=0, vlen=0, maxgain=3, maxorder=None, vqbits=1,
                 preddir=1, sfbits=6, nfc=None, screen=0):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.K = (order + 1) ** 2
        self.nmin = (minamb + 1) ** 2
        self.nadd = max(0, ntc - self.nmin)
        self.maxorder = order if maxorder is None else maxorder
        self.nactive = (self.maxorder + 1) ** 2 - self.nmin
        self.idxbits = clog2(self.nactive)
        self.pebits = clog2(clog2(int(1.5 * self.K)) + maxgain + 1)
        self.pe0 = clog2(int(1.5 * self.K))
        self.voff = self.nmin if vlen else 0          # first coded vector element
        self.pidbits = clog2(self.K)
        i = 1
        while i * self.pidbits + clog2(i) < self.K:
            i += 1
        self.numidbits = clog2(max(1, i - 1))
        self.reset()

    def reset(self):
        self.pg = np.ones(self.ntc)
        self.prev = None
        self.gain = None
        self.prevvec = {}
        self.prevdir = {}
        self.prevpred = None

    def config(self):
        w = BW()
        w.esc(self.order, 3, 5, 0) if self.order >= 7 else w.u(self.order, 3)
        w.u(self.screen, 1)
        if self.nfc is None:
            w.u(0, 1)
        else:
            w.u(1, 1)
            for b in struct.pack("<f", self.nfc):
                w.u(b, 8)
        w.u(self.minamb + 1, 3)
        w.u(self.single, 1).u(self.interp, 3).u(self.method, 1).u(self.vlen, 2).u(self.maxgain, 3).u(0, 2)
        if self.minamb < self.order:
            w.u(self.maxorder - self.minamb, clog2(self.order - self.minamb + 1))
        w.u(self.vqbits, clog2(clog2(self.K + 1)))
        if self.minamb == 1:
            w.u(0, 1)
        w.u(self.preddir - 1, 2).u(self.sfbits - 1, 4).u(0, 2).u(0, 2)
        w.align()
        return w.bytes()

    def ele(self):
        return dict(type="EXT", ext=7, config=self.config())

    # ---------------------------------------------------------------- frames
    def frame(self, indep, ch, pred=None, plain=True):
        """ch: per transport channel dict(t=DIR, id=1..900) | dict(t=VEC, ...) | dict(t=AMB, c=coefficient, st=0/1/2) | dict(t=OFF);
        every one may carry g=exponent (0, -1, 1..), ex=exception flag, pe=previous exponent (independent frames).
        VEC: n=5: q=[8-bit words]; n>=6: v=[signed ints], cb=0/1 (+ p=1 in dependent frames); n=4: book, idx=[..], sgn=[..], w=weight index.
        pred: {grid point: [(transport channel, gain word), ...], "list": True to code a list of points}; only the last point may use fewer
        than preddir terms (the number of gain words read is ambiguous otherwise)"""
        w = BW()
        w.u(1 if indep else 0, 1)
        for k in range(self.nadd):
            c = ch[k]
            w.u(c["t"], 2)
            if c["t"] == AMB:
                if indep:
                    w.u(c["st"], 2).u(c["c"] - 1 - self.nmin, self.idxbits)
                else:
                    w.u(1 if c["st"] else 0, 1)
                    if c["st"] == 1:
                        w.u(c["c"] - 1 - self.nmin, self.idxbits)
            elif c["t"] == VEC:
                if indep:
                    if self.vlen == 1:
                        w.u(c.get("new", 0), 1)
                    w.u(c["n"], 4)
                else:
                    if c.get("same"):
                        w.u(0, 2)
                    else:
                        w.u(c["n"], 4)
                if not (not indep and c.get("same")):
                    if c["n"] == 4:
                        w.u(c["book"], 3).u(len(c["idx"]) - 1, self.vqbits)
                    elif c["n"] >= 6:
                        if not indep:
                            w.u(c.get("p", 0), 1)
                        w.u(c.get("cb", 0), 1)
            elif c["t"] == DIR:
                w.u(c["id"], 10)
            self._gain(w, c, indep)
        for k in range(self.nadd, self.ntc):
            self._gain(w, ch[k], indep)
        skip = self.skipped(ch)
        for k in range(self.nadd):
            c = ch[k]
            if c["t"] == VEC:
                self._vec(w, c, indep, skip, k)
        nd = [k for k in range(self.nadd) if ch[k]["t"] == DIR]
        if self.single and nd:
            pts = sorted(g for g in pred or {} if g != "list")
            w.u(1 if pts else 0, 1)
            if pts:
                bits = clog2(len(nd) + 1)
                if pred.get("list") and len(pts) <= 1 << self.numidbits:
                    w.u(1, 1).u(len(pts) - 1, self.numidbits)
                    for g in reversed(pts):
                        w.u(g, self.pidbits)
                else:
                    w.u(0, 1)
                    for g in range(self.K):
                        w.u(1 if g in pred else 0, 1)
                for g in pts:
                    for j in range(self.preddir):
                        w.u(nd.index(pred[g][j][0]) + 1 if j < len(pred[g]) else 0, bits)
                for g in pts:
                    for j in range(len(pred[g])):
                        w.u(pred[g][j][1], self.sfbits)
        return w.bytes()

    def _gain(self, w, c, indep):
        if indep:
            w.u(c.get("pe", 0) + self.pe0, self.pebits)
        g = c.get("g", 0)
        k = 1 if g == 0 else 2 if g == -1 else g + 2
        w.s("0" * (k - 1) + "1").u(c.get("ex", 0), 1)

    def skipped(self, ch):
        """coefficients (0-based) whose vector elements are not coded"""
        if self.vlen != 1:
            return set(), set()
        return ({c["c"] - 1 for c in ch[:self.nadd] if c["t"] == AMB and c["st"] == 0},
                {c["c"] - 1 for c in ch[:self.nadd] if c["t"] == AMB and c["st"] == 1})

    def _els(self, c, skip, k):
        non, fade = skip
        new = c.get("new", 0)
        return [e for e in range(self.voff, self.K) if not (e in non or (new and e in fade))]

    def _vec(self, w, c, indep, skip, k):
        els = self._els(c, skip, k)
        if c["n"] == 4:
            bits = codebook(c["book"], self.order)[1] if c["book"] in (0, 1, 2, 3, 7) else clog2(self.K)
            if len(c["idx"]) > 1:
                w.u(c["w"], 8)
            for i, s in zip(c["idx"], c["sgn"]):
                w.u(i, bits).u(s, 1)
        elif c["n"] == 5:
            for e in els:
                w.u(c["q"][e - self.voff], 8)
        else:
            for e in els:
                v = c["v"][e - self.voff]
                cid = abs(v).bit_length()
                i = e + 1
                hi = 5
                if c.get("cb", 0):
                    hi = 3 if 10 <= i <= 49 else 2 if 5 <= i <= 9 else 0 if i >= 50 else 1
                elif c.get("p", 0):
                    hi = 4
                row = TAB["huff"][c["n"] - 6][hi - 1]
                for cw, ln, sym in row[:c["n"]]:
                    if sym == cid:
                        w.u(int(cw), int(ln))
                        break
                else:
                    raise ValueError("no code word for %d" % v)
                if cid:
                    w.u(1 if v > 0 else 0, 1)
                    if cid > 1:
                        w.u(abs(v) - (1 << (cid - 1)), cid - 1)

    # ---------------------------------------------------------------- meaning
    def vector(self, c, k, ch):
        """full-length vector of a VEC channel"""
        els = self._els(c, self.skipped(ch), k)
        v = np.zeros(self.K)
        nom = np.zeros(self.K)
        if c["n"] == 4:
            B, _, norm = codebook(c["book"], self.order)
            if len(c["idx"]) == 1:
                x = B[c["idx"][0]] * (1 if c["sgn"][0] else -1)
            else:
                W = TAB["weights"].astype(np.float64).reshape(256, 8)[c["w"]]
                x = sum(B[i] * (1 if s else -1) * W[j if j < 8 else 6 + j % 2] for j, (i, s) in enumerate(zip(c["idx"], c["sgn"])))
                if norm:
                    x = x * (self.order + 1) / max(np.sqrt((x ** 2).sum()), 1e-30)
            v[els] = x[els]
            nom = np.floor(v / (self.order + 1) * 2 ** 14 + .5) * 2
        elif c["n"] == 5:
            for e in els:
                v[e] = (c["q"][e - self.voff] / 128. - 1) * (self.order + 1)
            nom = v / (self.order + 1) * 32768
        else:
            for e in els:
                nom[e] = c["v"][e - self.voff] * 2. ** (16 - c["n"])
                if c.get("p", 0) and k in self.nom:
                    nom[e] += self.nom[k][e]
            v = nom / 32768 * (self.order + 1)
        return v, nom

    nom = {}

    def coefs(self, indep, ch, x, pred=None):
        """x [1024, ntc] transport signals of this frame -> coefficient signals [1024, K]"""
        t = np.arange(L)
        gw = .75 + .25 * np.cos(np.pi * t / (L - 1))
        y = np.zeros((L, self.ntc))
        for k in range(self.ntc):
            c = ch[k]
            if indep:
                self.pg[k] = 2. ** c.get("pe", 0)
            g = c.get("g", 0)
            if g == 0:
                y[:, k] = x[:, k] / self.pg[k]
            elif c.get("ex", 0):
                y[:, k] = x[:, k] * 2. ** g / self.pg[k]
                self.pg[k] *= 2. ** -g
            else:
                y[:, k] = x[:, k] * gw ** -g / self.pg[k]
                self.pg[k] *= 2. ** -g
        out = np.zeros((L, self.K))
        # fixed ambience
        M = coarse(self.minamb, self.minamb) if self.nmin else None
        if self.nmin:
            out[:, :self.nmin] += y[:, self.nadd:self.nadd + self.nmin] @ M
        fo = .5 + .5 * np.cos(np.pi * t / L)
        en, dis = set(), set()
        for k in range(self.nadd):
            c = ch[k]
            if c["t"] == AMB:
                out[:, c["c"] - 1] += y[:, k]
                if c["st"] == 1:
                    en.add(c["c"] - 1)
                elif c["st"] == 2:
                    dis.add(c["c"] - 1)
        # vectors and directions use the channels that carry one in this frame
        for k in range(self.nadd):
            if ch[k]["t"] not in (DIR, VEC):
                y[:, k] = 0
        S = TIMES[self.interp]
        if self.method == 0:
            fi = np.minimum(t / max(1, S - 1), 1.) if S else np.ones(L)
        else:
            fi = np.where(t < S, .5 - .5 * np.cos(np.pi * t / max(S, 1)), 1.) if S else np.ones(L)
        cur, noms = {}, {}
        V = np.zeros((L, self.K))
        for k in range(self.nadd):
            if ch[k]["t"] == VEC:
                cur[k], noms[k] = self.vector(ch[k], k, ch)
        dirs = {k: ch[k]["id"] for k in range(self.nadd) if ch[k]["t"] == DIR}
        for k, v in self.prevvec.items():
            if k in cur and S:
                V[:S] += (y[:S, k] * (1 - fi)[:S])[:, None] * v
            elif k in dirs:
                V += (y[:, k] * fo)[:, None] * v
        for k, v in cur.items():
            V += (y[:, k] * (fi if k in self.prevvec or k in self.prevdir else 1))[:, None] * v
        keep = dict(cur)
        if self.vlen == 1:
            for e in en:
                V[:, e] *= fo
            for e in dis:
                V[:, e] *= 1 - fo
            keep = {}
            for k, v in cur.items():
                v = v.copy()
                v[list(en)] = 0
                keep[k] = v
        out += V
        oldvec = self.prevvec
        self.prevvec = keep
        self.nom = noms
        # directions
        G = grid(self.order)
        for k, d in self.prevdir.items():
            if d:
                w = fo if dirs.get(k) else 1 - fi if k in cur else 1
                out += (y[:, k] * w)[:, None] * G[d - 1]
        for k, d in dirs.items():
            if d:
                out += (y[:, k] * ((1 - fo) if self.prevdir.get(k) or k in oldvec else 1))[:, None] * G[d - 1]
        self.prevdir = dirs
        if pred or self.prevpred:
            C = coarse(self.order, self.order)
            act = {c["c"] - 1 for c in ch[:self.nadd] if c["t"] == AMB and c["st"] == 0}
            P = np.zeros((L, self.K))
            for p, win in ((self.prevpred, fo), (pred, 1 - fo)):
                for g, terms in (p or {}).items():
                    if g == "list":
                        continue
                    s = sum(y[:, k] * (2. ** (1 - self.sfbits) * (q + .5)) for k, q in terms) * win
                    P += s[:, None] * C[g]
            P[:, list(act)] = 0
            if pred:
                for e in en:
                    P[:, e] *= fo
            if self.prevpred:
                for e in dis:
                    P[:, e] *= 1 - fo
            out += P
        self.prevpred = pred
        return out


def nfc(co, order, fs, ref, dist):
    """near-field compensation: content stated for loudspeakers at ref metres played on ones at dist metres"""
    from scipy.signal import bilinear, lfilter
    out = np.array(co)
    c = 343.
    k = 0
    for n in range(order + 1):
        # reverse Bessel polynomials in c/(r s)
        p = [factorial(n + i) / (factorial(n - i) * factorial(i) * 2. ** i) for i in range(n + 1)]
        num = [p[i] * (c / ref) ** i for i in range(n + 1)]
        den = [p[i] * (c / dist) ** i for i in range(n + 1)]
        b, a = bilinear(num, den, fs)
        for m in range(2 * n + 1):
            if n:
                out[:, k] = lfilter(b, a, co[:, k])
            k += 1
    return out


def ranged(w, v, size):
    """a number below size, truncated binary"""
    nb = size.bit_length() - 1
    unused = (1 << (nb + 1)) - size
    if v < unused:
        w.u(v, nb)
    else:
        v += unused
        w.u(v >> 1, nb).u(v & 1, 1)


def matrix_ext(rng, order, cicp, skipped=()):
    """transmitted rendering matrices -> (configuration extension payload, matrix [K, loudspeakers] for layout cicp)"""
    K = (order + 1) ** 2
    G = [GEO[s] for s in T["cicp"][str(cicp)]]
    n = len(G)
    out = BW()
    todo = [(c, 0) for c in skipped] + [(cicp, 1)]
    rng.shuffle(todo)
    out.u(len(todo), 5)
    M = np.zeros((K, n))
    for lay, real in todo:
        w = BW()
        if not real:
            for _ in range(rng.randint(10, 200)):
                w.u(rng.getrandbits(1), 1)
        else:
            prec, norm, per = rng.randint(0, 3), rng.randint(0, 1), rng.randint(0, 1)
            w.u(prec, 2).u(norm, 1).u(per, 1)
            gmax, gmin = [], []
            for i in range(order + 1 if per else 1):
                a, b = rng.choice([0, 0, 3, 6, 9]), rng.choice([1, 5, 14, 20, 45])
                w.esc(a, 3, 5, 6)
                w.esc(b, 4, 5, 6)
                gmax.append(-a)
                gmin.append(-(b + 1 + a))
            if not per:
                gmax *= order + 1
                gmin *= order + 1
            full = rng.randint(0, 1)
            w.u(full, 1)
            sparse = K
            if not full:
                fo = rng.randint(0, order)
                w.u(fo, clog2(order + 1))
                sparse = fo * fo
            lfes = any(g[2] for g in G)
            lfe = rng.randint(0, 1) if lfes else 0
            if lfes:
                w.u(lfe, 1)
            # pairs in order of their first loudspeaker
            used, pairs = set(), []
            for i in range(n):
                if i in used or G[i][0] in (0, 180, -180):
                    continue
                for j in range(i + 1, n):
                    if j not in used and G[j][0] == -G[i][0] and G[j][1] == G[i][1] and bool(G[j][2]) == bool(G[i][2]):
                        used |= {i, j}
                        if lfe or not G[i][2]:
                            pairs.append((i, j))
                        break
                used.add(i)
            zpos = rng.randint(0, 1)
            w.u(zpos, 1)
            vs, ss = [0] * len(pairs), [0] * len(pairs)
            kind = rng.choice(["allv", "anyv", "anyv", "alls", "anys", "none"])
            w.u(1 if kind == "allv" else 0, 1)
            if kind == "allv":
                vs = [1] * len(pairs)
            else:
                w.u(1 if kind == "anyv" else 0, 1)
                if kind == "anyv":
                    vs = [rng.randint(0, 1) for _ in pairs]
                    for v in vs:
                        w.u(v, 1)
                    anys = rng.randint(0, 1)
                    w.u(anys, 1)
                    if anys:
                        for p in range(len(pairs)):
                            if not vs[p]:
                                ss[p] = rng.randint(0, 1)
                                w.u(ss[p], 1)
                else:
                    w.u(1 if kind == "alls" else 0, 1)
                    if kind == "alls":
                        ss = [1] * len(pairs)
                    else:
                        w.u(1 if kind == "anys" else 0, 1)
                        if kind == "anys":
                            ss = [rng.randint(0, 1) for _ in pairs]
                            for v in ss:
                                w.u(v, 1)
            vert = rng.choice([1, 1, 0])
            w.u(vert, 1)
            par = {i: (j, vs[p], ss[p]) for p, (i, j) in enumerate(pairs)}
            S = np.ones((K, n))
            k = 0
            for o in range(order + 1):
                size = ((gmax[o] - gmin[o]) << prec) + 2
                for m in range(-o, o + 1):
                    sym = 1 if m >= 0 else -1
                    for j in range(n - 1, -1, -1):
                        if abs(m) != o and not vert:
                            continue
                        if j in par and par[j][1]:
                            M[k, j] = M[k, par[j][0]]
                            S[k, j] = sym * S[k, par[j][0]]
                            continue
                        if G[j][2] and not lfe:
                            continue
                        if k >= sparse:
                            has = rng.randint(0, 1)
                            w.u(has, 1)
                            if not has:
                                continue
                        v = rng.randrange(size)
                        ranged(w, v, size)
                        g = gmax[o] - v / 2. ** prec
                        M[k, j] = 10 ** (g / 20) if g >= gmin[o] else 0
                        if j in par and par[j][2]:
                            S[k, j] = sym * S[k, par[j][0]]
                        elif M[k, j] and (o or not zpos):
                            s = rng.randint(0, 1)
                            w.u(s, 1)
                            S[k, j] = s * 2 - 1
                    k += 1
            M *= S
            for k in range(K):
                M[k] /= sqrt(2 * int(sqrt(k)) + 1)
            if norm:
                sel = [j for j in range(n) if not G[j][2]]
                M[:, sel] /= np.sqrt((M[:, sel] ** 2).sum())
        out.u(rng.randrange(128), 7).u(lay, 6).esc(len(w.bits()), 8, 8, 12)
        out.w(w)
    return out, M

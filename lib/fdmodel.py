"""Independent float64 model of frequency-domain decoding (inverse quantisation, scale factors, noise filling,
M/S, real-valued stereo prediction, temporal noise shaping, inverse transform, windowing, overlap-add).
Works from the values the generator coded, not from the bitstream."""
import numpy as np
from scipy.signal import lfilter
from mpegh import SFB_LONG, SFB_SHORT, EIGHT_SHORT, LONG_START, LONG_STOP, STOP_START, group_lens

TNS_MAX = {96000: (31, 9), 88200: (31, 9), 64000: (34, 10), 48000: (40, 14), 44100: (42, 14), 32000: (51, 14),
           24000: (47, 15), 22050: (47, 15), 16000: (43, 15), 12000: (43, 15), 11025: (43, 15), 8000: (40, 15)}
NOISE = [0.0] + [2.0 ** ((l - 14) / 3.0) for l in range(1, 8)]


def kbd(n, alpha):
    w = np.kaiser(n + 1, np.pi * alpha)
    c = np.cumsum(w)
    return np.sqrt(c[:n] / c[n])


def sine(n):
    return np.sin(np.pi / (2 * n) * (np.arange(n) + 0.5))


WIN = {(0, 1024): sine(1024), (0, 128): sine(128), (1, 1024): kbd(1024, 4.0), (1, 128): kbd(128, 6.0)}
_M = {}


def imdct(x, kind=0):
    """2N outputs of the inverse lapped transform of N coefficients, scaled by 1/N. kind = 2*prev+curr symmetry:
    0 MDCT-IV, 1 MDST-II, 2 MDCT-II, 3 MDST-IV kernels."""
    n = len(x)
    if (n, kind) not in _M:
        n0 = (n + 1) / 2.0
        k = np.arange(n) + (0.5, 1.0, 0.0, 0.5)[kind]
        t = np.arange(2 * n) + n0
        f = np.cos if kind in (0, 2) else np.sin
        m = f(np.outer(t, k) * (np.pi / n)) * (1.0 / n)
        _M[(n, kind)] = m
    return _M[(n, kind)] @ x


def left_slope(seq, shape):
    """rising half (1024 samples) of a frame whose previous shape is given"""
    if seq in (0, LONG_START):
        return WIN[(shape, 1024)]
    w = np.zeros(1024)
    w[448:576] = WIN[(shape, 128)]
    w[576:] = 1
    return w


def right_slope(seq, shape):
    if seq in (0, LONG_STOP):
        return WIN[(shape, 1024)][::-1]
    w = np.ones(1024)
    w[448:576] = WIN[(shape, 128)][::-1]
    w[576:] = 0
    return w


class ChState:
    def __init__(self, seed):
        self.ov = np.zeros(1024)
        self.shape = None
        self.alias = 0
        self.seed = seed


def tns_lpc(coef, res):
    pi2 = np.pi / 2
    f = ((1 << (res - 1)) - 0.5) / pi2
    fm = ((1 << (res - 1)) + 0.5) / pi2
    r = [np.sin(c / (f if c >= 0 else fm)) for c in coef]
    a = [1.0]
    for m in range(1, len(r) + 1):
        b = [a[0]]
        for i in range(1, m):
            b.append(a[i] + r[m - 1] * a[m - i])
        b.append(r[m - 1])
        a = b
    return a


def tns_apply(spec, fs, ch, tns, short):
    tbl = SFB_SHORT[fs] if short else SFB_LONG[fs]
    off = [0] + list(tbl)
    nb = len(tbl)
    mx = TNS_MAX[fs][1 if short else 0]
    nbands = ch["max_sfb"]
    step = 128 if short else 1024
    for wi, win in enumerate(tns):
        top = nb
        x = spec[wi * step:(wi + 1) * step]
        res = win.get("res", 1) + 3
        for f in win.get("filters", []):
            stop = top
            top = max(top - f["length"], 0)
            start = top
            if not f["order"]:
                continue
            bits = res - f.get("compress", 0)
            cs = []
            for c in f["coef"][:f["order"]]:
                c &= (1 << bits) - 1
                if c & (1 << (bits - 1)):
                    c -= 1 << bits
                cs.append(c)
            s = off[min(start, mx, nbands)]
            e = off[min(stop, mx, nbands)]
            if e <= s:
                continue
            a = tns_lpc(cs, res)
            seg = x[s:e] if not f.get("dir", 0) else x[s:e][::-1]
            y = lfilter([1.0], a, seg)
            x[s:e] = y if not f.get("dir", 0) else y[::-1]


def rsign(st):
    st.seed = (st.seed * 69069 + 5) & 0xFFFFFFFF
    return -1.0 if st.seed & 0x10000 else 1.0


def dequant(fs, ch, st, nf, common=0, c=0):
    short = ch["seq"] == EIGHT_SHORT
    tbl = SFB_SHORT[fs] if short else SFB_LONG[fs]
    off = [0] + list(tbl)
    step = 128 if short else 1024
    spec = np.zeros(1024)
    glen = group_lens(ch.get("grouping", 0)) if short else [1]
    nv = (ch.get("nlev", 0) << 5 | ch.get("noff", 16)) if nf else 0
    if 0 < nv < 32:
        if common and c:
            raise ValueError("stereo filling is not modelled")
        if ch["seq"] in (LONG_START, STOP_START):
            nv <<= 3
    nl, noff = NOISE[nv >> 5], nv & 31
    start_nf = 20 if short else 160
    w0 = 0
    st.empty = {}             # (group, band) -> scale of bands without any coded line above the noise filling start
    for g, gl in enumerate(glen):
        Q = np.array([ch["q"][w0 + w] for w in range(gl)], dtype=np.float64) if ch["max_sfb"] else None
        for b in range(ch["max_sfb"]):
            s, e = off[b], off[b + 1]
            q = Q[:, s:e]
            fac = ch["sf"][g][b] - 100
            if nf and not q.any():
                fac += noff - 16
            gain = 2.0 ** (fac / 4.0)
            if s >= start_nf and not q.any():
                st.empty[(g, b)] = gain
            v = np.sign(q) * np.minimum(np.abs(q), 8191) ** (4.0 / 3) * gain
            if nf and s >= start_nf:
                z = q == 0
                n = int(z.sum())
                if n:
                    v[z] = np.array([rsign(st) for _ in range(n)]) * (nl * gain)
            for w in range(gl):
                spec[(w0 + w) * step + s:(w0 + w) * step + e] = v[w]
        w0 += gl
    return spec


def synth(spec, ch, st, indep):
    """inverse transform + windowing + overlap-add; returns 1024 samples in 16-bit units"""
    seq, shape = ch["seq"], ch.get("shape", 0)
    if st.shape is None:
        st.shape = shape
    prev = ch.get("prev_alias", 0) if indep else st.alias
    st.alias = ch.get("alias", 0)
    kind = prev * 2 + st.alias
    if seq != EIGHT_SHORT:
        t = imdct(spec, kind)
        a = t[:1024] * left_slope(seq, st.shape) + st.ov
        st.ov = t[1024:] * right_slope(seq, shape)
    else:
        buf = np.zeros(2048)
        for w in range(8):
            t = imdct(spec[w * 128:(w + 1) * 128], kind)
            l = WIN[(st.shape if w == 0 else shape, 128)]
            r = WIN[(shape, 128)][::-1]
            buf[448 + w * 128:448 + w * 128 + 256] += np.concatenate([t[:128] * l, t[128:] * r])
        a = buf[:1024] + st.ov
        st.ov = buf[1024:]
    st.shape = shape
    return a


class Pair:
    """stereo prediction state of a channel pair"""

    def __init__(self):
        self.prev = {}

    def alphas(self, d, indep):
        """coded differences -> prediction factors (in steps of 0.1), per group and band pair"""
        c0, c1 = d["ch"]
        if not d.get("common") or indep:
            self.prev = {}
        if not d.get("common") or d.get("ms_present", 0) != 3:
            self.prev = {}
            return None
        cp = d["cplx"]
        ng = len(group_lens(c0.get("grouping", 0))) if c0["seq"] == EIGHT_SHORT else 1
        nb = (max(c0["max_sfb"], c1["max_sfb"]) + 1) // 2
        out = []
        dt = cp.get("delta_time", 0) if not indep else 0
        for g in range(ng):
            row = []
            for b in range(nb):
                if dt:
                    lr, li = self.prev.get(b, (0, 0))
                else:
                    lr, li = row[-1][:2] if row else (0, 0)
                if cp["all"] or cp["used"][g][b]:
                    r = lr - cp["dre"][g][b]
                    i = li - cp["dim"][g][b] if cp["complex"] else 0
                    row.append((r, i, True))
                else:
                    row.append((0, 0, False))
                self.prev[b] = row[-1][:2]
            for b in [k for k in self.prev if k >= nb]:
                self.prev[b] = (0, 0)
            out.append(row)
        return out

    def upmix(self, fs, d, a, b, al):
        """M/S or real prediction in place on spectra a,b"""
        mp = d.get("ms_present", 0) if d.get("common") else 0
        if mp not in (1, 2, 3):
            return
        c0, c1 = d["ch"]
        short = c0["seq"] == EIGHT_SHORT
        tbl = SFB_SHORT[fs] if short else SFB_LONG[fs]
        off = [0] + list(tbl)
        step = 128 if short else 1024
        mx = max(c0["max_sfb"], c1["max_sfb"])
        glen = group_lens(c0.get("grouping", 0)) if short else [1]
        if mp == 3 and d["cplx"]["complex"]:
            raise ValueError("imaginary prediction is not modelled")
        w0 = 0
        for g, gl in enumerate(glen):
            for sb in range(mx):
                if mp == 1 and not d["ms"][g][sb]:
                    continue
                if mp == 3 and not al[g][sb // 2][2]:
                    continue
                for w in range(w0, w0 + gl):
                    s = slice(w * step + off[sb], w * step + off[sb + 1])
                    l, r = a[s].copy(), b[s].copy()
                    if mp == 3:
                        res = r - al[g][sb // 2][0] * 0.1 * l
                        if d["cplx"]["dir"]:      # predict mid from side
                            a[s], b[s] = res + l, res - l
                        else:
                            a[s], b[s] = l + res, l - res
                    else:
                        a[s], b[s] = l + r, l - r
            w0 += gl


class Model:
    def __init__(self, fs, elements):
        self.fs, self.elements = fs, elements
        self.st = {}
        self.pair = {}
        n = 0
        for i, e in enumerate(elements):
            k = {"SCE": 1, "LFE": 1, "CPE": 2}.get(e["type"], 0)
            for c in range(k):
                self.st[(i, c)] = ChState(0x10932 if (k == 2 and c == 1) else 0x3039)
                n += 1
            if k == 2:
                self.pair[i] = Pair()
        self.nch = n

    def frame(self, indep, data, mct=None):
        """-> [1024, channels] in 16-bit units. mct(spectra, channels): multichannel coding applied to all spectra in place"""
        out, E, flat = [], [], []
        for i, (e, d) in enumerate(zip(self.elements, data)):
            nf = e.get("nf", 0) if e["type"] != "LFE" else 0
            if e["type"] in ("SCE", "LFE"):
                sp = [dequant(self.fs, d, self.st[(i, 0)], nf)]
                flat.append((sp[0], d, self.st[(i, 0)]))
            elif e["type"] == "CPE":
                ch = d["ch"]
                sp = [dequant(self.fs, ch[c], self.st[(i, c)], nf, d.get("common"), c) for c in range(2)]
                flat += [(sp[c], ch[c], self.st[(i, c)]) for c in range(2)]
            else:
                sp = None
            E.append(sp)
        if mct:
            mct([s for s, _, _ in flat], [c for _, c, _ in flat], [t.empty for _, _, t in flat])
        for i, (e, d, sp) in enumerate(zip(self.elements, data, E)):
            if e["type"] in ("SCE", "LFE"):
                st, s = self.st[(i, 0)], sp[0]
                if d.get("tns"):
                    tns_apply(s, self.fs, d, d["tns"], d["seq"] == EIGHT_SHORT)
                out.append(synth(s, d, st, indep))
            elif e["type"] == "CPE":
                ch = d["ch"]
                tn = [d.get("common_tns") or ch[c].get("tns") for c in range(2)]
                al = self.pair[i].alphas(d, indep)

                def dotns():
                    for c in range(2):
                        if tn[c]:
                            tns_apply(sp[c], self.fs, ch[c], tn[c], ch[c]["seq"] == EIGHT_SHORT)
                if d.get("tns_on_lr", 1) or not any(tn):
                    self.pair[i].upmix(self.fs, d, *sp, al)
                    dotns()
                else:
                    dotns()
                    self.pair[i].upmix(self.fs, d, *sp, al)
                out += [synth(sp[c], ch[c], self.st[(i, c)], indep) for c in range(2)]
        return np.stack(out, axis=1)


def limiter(ref, attack=240, fs=48000, thr=10 ** (-1 / 20.), release_ms=50.0, state=None):
    """look-ahead limiter on [n, ch] (full scale 1.0), aligned: out[k] belongs to ref[k]; the last attack samples are lost"""
    n = len(ref)
    mx = np.abs(ref).max(axis=1)
    from scipy.ndimage import maximum_filter1d
    # window of the attack+1 samples k-attack .. k
    size = attack + 1
    m = maximum_filter1d(np.concatenate([np.zeros(attack), mx]), size, origin=(size - 1) // 2)[attack:] if n else mx
    ga = np.where(m > thr, thr / np.maximum(m, 1e-12), 1.0)
    ac, rc = 0.1 ** (1.0 / (attack + 1)), 0.1 ** (1.0 / (release_ms * fs / 1000 + 1))
    s, gm = 1.0, 1.0
    g = np.empty(n)
    for k in range(n):
        t = ga[k]
        gm = min(gm, (t - 0.1 * s) * 1.11111111) if t < s else t
        if gm >= s:
            s = gm + rc * (s - gm)
        else:
            s = max(gm + ac * (s - gm), t)
        g[k] = s
    d = ref[:n - attack] * g[attack:, None]
    return np.clip(d, -thr, thr), g[attack:]

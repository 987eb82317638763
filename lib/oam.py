"""Object metadata (OAM): bitstream writer with the coding state a decoder has to keep, and its meaning in
degrees and gains.  Written from the bitstream syntax; independent of the decoder."""
import random
import numpy as np
from mpegh import *

KEYS = ("az", "el", "rad", "gain", "sw", "sh", "sd", "prio")
BITS = dict(az=8, el=6, rad=4, gain=7, sw=7, sh=5, sd=4, prio=3)
SIGNED = ("az", "el", "gain")
DEF = dict(az=0, el=0, rad=3, gain=32, sw=0, sh=0, sd=0, prio=7)


def rng_of(k):
    b = BITS[k]
    if k == "az":
        return -120, 120
    if k == "el":
        return -30, 30
    if k in SIGNED:
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


def degrees(o):
    return (min(180., max(-180., o["az"] * 1.5)), min(90., max(-90., o["el"] * 3.0)))


def gain(o):
    return min(5.957, max(0.004, 10 ** ((o["gain"] - 32) / 40.0)))


class Oam:
    """cfg: n objects, sub-frame length (1024/512/256), prio, uniform spread."""

    def __init__(self, n, flen=1024, prio=0, uniform=1, screen=None, explicit=0):
        self.n, self.flen, self.prio, self.uniform, self.screen, self.explicit = n, flen, prio, uniform, screen, explicit
        self.cur = [dict(DEF) for _ in range(n)]
        self.fixed = {k: 0 for k in ("az", "el", "rad", "gain", "spread", "prio")}

    def config(self):
        w = BW()
        w.u(1, 1)
        if self.flen == 1024 and not self.explicit:
            w.u(1, 1)
        else:
            w.u(0, 1).u((self.flen >> 6) - 1, 6)
        if self.screen:
            w.u(1, 1)
            for s in self.screen:
                w.u(s, 1)
        else:
            w.u(0, 1)
        w.u(self.prio, 1).u(self.uniform, 1)
        return w.bytes()

    def keys(self):
        return ["az", "el", "rad", "gain"], (["sw"] if self.uniform else ["sw", "sh", "sd"]), (["prio"] if self.prio else [])

    def intra(self, w, objs, rng=None):
        """objs: full list of dicts; picks among the equivalent codings of equal values at random"""
        rng = rng or random.Random(0)
        pos, spr, pr = self.keys()
        w.u(1, 1)
        if self.n == 1:
            for k in pos + spr + pr:
                w.u(objs[0][k], BITS[k])
            for k in self.fixed:
                self.fixed[k] = 0
        else:
            for grp in [[k] for k in pos] + [spr] + [[k] for k in pr]:
                name = grp[0] if grp[0] != "sw" else "spread"
                eq = all(all(o[k] == objs[0][k] for k in grp) for o in objs)
                m = rng.choice([0, 1, 2]) if eq else 0
                if m == 2:
                    w.u(1, 1)
                else:
                    w.u(0, 1).u(m, 1)
                self.fixed[name] = 1 if m == 2 else 0
                for o in (objs[:1] if m else objs):
                    for k in grp:
                        w.u(o[k], BITS[k])
        self.cur = [dict(o) for o in objs]
        for o in self.cur:
            for k in KEYS:
                o.setdefault(k, DEF[k])

    def fixed_of(self, k):
        return self.fixed["spread"] if k in ("sw", "sh", "sd") else self.fixed[k]

    def dynamic(self, w, objs, absolute, present=None, rng=None):
        """objs: wanted values; parameters that the last intra frame fixed keep their value.
        Returns False when a change does not fit the differential range."""
        pos, spr, pr = self.keys()
        ks = pos + spr + pr
        w.u(0, 1).u(absolute, 1)
        for i in range(self.n):
            old, new = self.cur[i], objs[i]
            ch = [k for k in ks if not self.fixed_of(k) and new[k] != old[k]]
            p = 1 if ch or (present and present[i]) else 0
            w.u(p, 1)
            if not p:
                continue
            if absolute:
                for k in ks:
                    if not self.fixed_of(k):
                        w.u(new[k], BITS[k])
                        old[k] = new[k]
            else:
                nb = 2
                while True:
                    if nb > 9:
                        return False
                    if all(-(1 << (min(nb, BITS[k] + 1) - 1)) <= new[k] - old[k] < (1 << (min(nb, BITS[k] + 1) - 1)) for k in ch):
                        break
                    nb += 1
                if rng and rng.random() < .3:       # more bits than the step needs
                    nb = rng.randint(nb, 9)
                w.u(nb - 2, 3)
                for k in ks:
                    if self.fixed_of(k):
                        continue
                    if new[k] != old[k]:
                        b = min(nb, BITS[k] + 1)
                        w.u(1, 1).u(new[k] - old[k], b)
                        old[k] = new[k]
                    else:
                        w.u(0, 1)
        return True

    def frame(self, subs, rng=None):
        """subs: one entry per sub-frame: None (no data) or (mode, objs) with mode intra/abs/diff.
        -> (payload bytes, list of object states after each sub-frame)"""
        w = BW()
        st = []
        for s in subs:
            if self.flen < 1024:
                w.u(0 if s is None else 1, 1)
            if s is not None:
                m, objs = s
                if m == "intra":
                    self.intra(w, objs, rng)
                else:
                    pr = [rng.randint(0, 1) for _ in objs] if rng else None
                    if not self.dynamic(w, objs, 1 if m == "abs" else 0, pr, rng):
                        raise ValueError("change does not fit")
            st.append([dict(o) for o in self.cur])
        return w.bytes(), st


def ele(o, deflen=0):
    return dict(type="EXT", ext=EXT_OAM, config=o.config(), deflen=deflen)


class Panner:
    """Amplitude panning over a loudspeaker layout (list of loudspeaker numbers): positions of the imaginary
    loudspeakers that close the hull, convex hull with coplanar facets merged, and what can be said about the gains
    of a point source without knowing how a planar facet with more than three corners is split."""

    def __init__(self, spk):
        from scipy.spatial import ConvexHull
        real = [s for s in spk if not GEO[s][2]]
        pos = [((GEO[s][0] + 180) % 360 - 180, GEO[s][1]) for s in real]
        self.real, self.idx = real, [i for i, s in enumerate(spk) if not GEO[s][2]]
        n = len(pos)
        im = []
        els = [p[1] for p in pos]
        if min(els + [0]) > -45:
            im.append((0, -90))
        if max(els + [0]) < 45:
            im.append((0, 90))

        def quad(lo, hi, off):
            """front/rear quadrangle (+-az at elevations 0 and 35) present and empty"""
            want = [(sgn * lo, e) for sgn in (1, -1) for e in (0, 35)]
            if not all(w in pos for w in want):
                return False
            for p in pos + im:
                if p in want:
                    continue
                a = (p[0] - off + 180) % 360 - 180
                half = lo if off == 0 else 180 - lo
                if abs(a) <= half and 0 <= p[1] <= 35:
                    return False
            return True
        if quad(30, 0, 0):
            im.append((0, 17.5))
        elif quad(45, 0, 0):
            im.append((0, 17.5))
        if quad(110, 0, 180):
            im.append((180, 17.5))
        elif quad(135, 0, 180):
            im.append((180, 17.5))
        ring = sorted(p[0] for p in pos if p[1] < 45)
        for i, a in enumerate(ring):
            b = ring[i + 1] if i + 1 < len(ring) else ring[0] + 360
            if b - a > 160:
                k = int((b - a) / 160)
                for j in range(1, k + 1):
                    im.append((a + j * (b - a) / (k + 1), 0))
        self.nreal, self.pos = n, pos + im
        P = np.array([[np.cos(np.radians(e)) * np.cos(np.radians(a)), np.cos(np.radians(e)) * np.sin(np.radians(a)), np.sin(np.radians(e))]
                      for a, e in self.pos])
        self.P = P
        h = ConvexHull(P)
        pl = {}
        for simp, eq in zip(h.simplices, h.equations):
            for k in pl:
                if np.abs(np.array(k) - eq).max() < 1e-6:
                    pl[k] |= set(simp)
                    break
            else:
                pl[tuple(eq)] = set(int(x) for x in simp)
        self.facets = [(np.array(k), sorted(int(x) for x in v)) for k, v in pl.items()]
        # every point coplanar with a facet belongs to it
        self.facets = [(k, [i for i in range(len(P)) if abs(P[i] @ k[:3] + k[3]) < 1e-6]) for k, v in self.facets]
        self.dmx = self._downmix()

    def _downmix(self):
        T, n = len(self.P), self.nreal
        D = np.zeros((T, T))
        D[:n, :n] = np.eye(n)
        for i in range(n, T):
            nb = set()
            for _, v in self.facets:
                if i in v:
                    if len(v) > 3:
                        return None
                    nb |= set(v) - {i}
            for j in nb:
                D[j, i] = 1.0 / len(nb)
        for _ in range(40):
            D = D @ D
            if T == n or D[n:, n:].max() <= 1e-9:
                break
        return np.sqrt(np.maximum(D, 0))[:n]

    def look(self, az, el):
        """-> ("exact", gains over the layout) or ("direction", corners, unit vector) or (None,)"""
        u = np.array([np.cos(np.radians(el)) * np.cos(np.radians(az)), np.cos(np.radians(el)) * np.sin(np.radians(az)), np.sin(np.radians(el))])
        best = max(self.facets, key=lambda f: f[0][:3] @ u / max(1e-9, -f[0][3]))
        t = best[0][:3] @ u / max(1e-9, -best[0][3])
        tied = [f for f in self.facets if f[0][:3] @ u / max(1e-9, -f[0][3]) > t - 1e-6]
        v = min((f[1] for f in tied), key=len)
        if len(v) == 3:
            g = np.linalg.solve(self.P[v].T, u)
            if g.min() < -1e-6:
                return (None,)
            g = np.maximum(g, 0)
            full = np.zeros(len(self.P))
            full[v] = g / np.sqrt((g ** 2).sum())
            if full[self.nreal:].max(initial=0) < 1e-9:
                out = full[:self.nreal]
            elif self.dmx is None:
                return (None,)
            else:
                out = self.dmx @ full
            out = out / np.sqrt((out ** 2).sum())
            return ("exact", out)
        if max(v) < self.nreal:
            return ("direction", v, u)
        return (None,)

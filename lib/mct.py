"""Multichannel coding tool: random legal frames, their bits, and the joint-channel processing they prescribe (independent model)."""
import re
import numpy as np
from mpegh import *

_txt = None


def tables():
    """code books as (length, code) lists: transcription of the format's tables lives in mctbooks.json"""
    global _txt
    if _txt is None:
        import json, os
        _txt = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mctbooks.json")))
    return _txt


def mask_of(elements, keep=None):
    m = []
    for e in elements:
        if e["type"] == "LFE":
            m.append(0)
        elif e["type"] == "SCE":
            m.append(1)
        elif e["type"] == "CPE":
            m += [1, 1]
    return m


def element(mask):
    w = BW()
    for b in mask:
        w.u(b, 1)
    w.align()
    return dict(type="EXT", ext=9, config=w.bytes())


class Tool:
    """Draws one frame of side information after the other; keeps what the decoder must remember."""

    def __init__(self, rng, fs, mask, filling=False):
        self.rng, self.fs, self.mask, self.filling = rng, fs, mask, filling
        self.chan = [c for c, b in enumerate(mask) if b]
        self.pairs, self.type = [], 0
        self.prev = {}            # box -> (long, fullband value, per band values)
        self.cnt = {}

    def note(self, k):
        self.cnt[k] = self.cnt.get(k, 0) + 1

    def draw(self, indep, chans):
        """chans: channel dicts (window sequences) of all core channels. -> (payload bytes, boxes)"""
        r, n = self.rng, len(self.chan)
        T = tables()
        short = [chans[c]["seq"] == EIGHT_SHORT for c in range(len(self.mask))]
        ok = [(a, b) for b in range(1, n) for a in range(b) if short[self.chan[a]] == short[self.chan[b]]]
        ty = r.choice([self.type, 0, 1])
        keep = int(not indep and all(p in ok for p in self.pairs) and r.random() < .4)
        w = BW()
        sf = int(self.filling and r.random() < .5)
        w.u(sf, 1).u(ty, 1)
        if not indep:
            w.u(keep, 1)
        if not keep:
            self.pairs = [r.choice(ok) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))] if ok else []
            w.u(len(self.pairs), 5)
        else:
            self.note("keep-tree")
        dflt = 0 if ty == 0 else 48
        if indep:
            self.prev = {}
        for k in [k for k in self.prev if k >= len(self.pairs)]:
            del self.prev[k]
        ntree = n * (n - 1) // 2
        pb = max(1, (ntree - 1).bit_length())
        boxes = []
        for k, (a, b) in enumerate(self.pairs):
            fill = 0
            if sf:
                fill = int(r.random() < .7 and not (ty and short[self.chan[a]]))
                w.u(fill, 1)
            if not keep:
                w.u(b * (b - 1) // 2 + a, pb)
            sh = short[self.chan[a]]
            fb, bw = None, {}
            if k in self.prev and self.prev[k][0] == (not sh):
                fb, bw = self.prev[k][1], self.prev[k][2]
            mf, bs = int(r.random() < .5), int(r.random() < .5)
            w.u(mf, 1).u(bs, 1)
            nb = 64
            if mf or bs:
                full = (len(SFB_SHORT[self.fs]) if sh else len(SFB_LONG[self.fs])) + 1
                per = r.choice([full // 2, r.randint(1, full // 2), r.randint(1, full // 2)])
                if sh:
                    per = min(per, 8)
                    w.u(1, 1).u(per, 5)
                    nb = per * 8
                else:
                    per = min(per, 31)
                    w.u(0, 1).u(per, 5)
                    nb = per
            per = nb // 8 if sh else nb
            mask = [r.randint(0, 1) if r.random() < .8 else 1 for _ in range(nb)] if mf else [1] * nb
            if mf:
                for x in mask:
                    w.u(x, 1)
            dr = 0
            if ty == 0:
                dr = r.randint(0, 1)
                w.u(dr, 1)
            dt = 0
            if not indep:
                dt = int(ty == self.type and r.random() < .5)
                w.u(dt, 1)
            self.note("type%d-mask%d-band%d-%s%s" % (ty, mf, bs, "short" if sh else "long", "-dt" if dt else ""))

            def put(last):
                if ty == 0:
                    v = r.randint(-12, 12) if r.random() < .8 else r.randint(-25, 25)
                    v = max(last - 60, min(last + 60, v))
                    L, C = T["pred"][last - v + 60]
                else:
                    v = r.randint(0, 64)
                    d = v - last
                    if d < 0:
                        d += 65
                    L, C = T["angle"][d]
                w.u(C, L)
                return v
            co, nbw = [dflt] * nb, {}
            if not bs:
                v = put(fb if dt and fb is not None else dflt)
                co = [v] * nb
                for x in range(nb):
                    nbw[x % per] = v if mask[x] else dflt
                nfb = v
            else:
                cur = dict(bw)
                last = dflt
                for x in range(nb):
                    if dt:
                        last = cur.get(x % per, dflt)
                    elif x % per == 0:
                        last = dflt
                    if mask[x]:
                        co[x] = last = put(last)
                    cur[x % per] = co[x] if mask[x] else dflt
                nbw = {x: v for x, v in cur.items() if x < per}
                nfb = dflt
            self.prev[k] = (not sh, nfb, nbw)
            if fill:
                self.note("filling-type%d-%s-%s" % (ty, "short" if sh else "long", "banded" if mf or bs else "fullband"))
            boxes.append(dict(pair=(self.chan[a], self.chan[b]), type=ty, dir=dr, short=sh, banded=bool(mf or bs), per=per, mask=mask, coef=co, fill=fill, now=dict(nbw)))
        self.type = ty
        w.align()
        return w.bytes(), boxes


def turn(v):
    """cosine and sine as coded: six decimals"""
    t = np.pi * (v - 32) / 64
    return round(float(np.cos(t)), 6), round(float(np.sin(t)), 6)


class Joint:
    """the joint processing of one frame after the other on all spectra (lists of [1024]) in place"""

    def __init__(self, fs):
        self.fs, self.prev, self.last = fs, {}, {}
        self.fragile = False        # a filled band whose result hinges on rounding

    def frame(self, indep, boxes, mask, spec, chans, empty):
        empty = [dict(e) for e in empty]
        short = [c["seq"] == EIGHT_SHORT for c in chans]
        for b in boxes:
            if b["fill"]:
                x, y = b["pair"]
                use = [self.prev[c] if not indep and c in self.prev and self.last[c] == short[c] else None for c in (x, y)]
                self.fill(b, use, spec[y], chans[y], empty[y])
            apply(self.fs, [b], spec)
        for c, m in enumerate(mask):
            if m:
                self.prev[c] = spec[c].copy()
        self.last = dict(enumerate(short))

    def mixdown(self, b, use):
        """the first channel of the pair as the previous frame had it"""
        p, q = [np.zeros(1024) if u is None else u for u in use]
        if b["type"] == 0:
            if use[0] is None or use[1] is None:
                return np.zeros(1024)
            return .5 * (p + q if b["dir"] == 0 else p - q)
        if not b["banded"]:
            t = turn(b["now"].get(0, 48))
            return p * t[0] + q * t[1]
        out = np.zeros(1024)
        step = 128 if b["short"] else 1024
        tbl = [0] + list(SFB_SHORT[self.fs] if b["short"] else SFB_LONG[self.fs])
        for w in range(8 if b["short"] else 1):
            for k in range(len(tbl) // 2):
                j = w * b["per"] + k
                v = (b["now"].get(j, 48) if b["mask"][j] else 32) if k < b["per"] else 32
                t = turn(v)
                s = slice(w * step + tbl[2 * k], w * step + tbl[min(2 * k + 2, len(tbl) - 1)])
                out[s] = p[s] * t[0] + q[s] * t[1]
        return out

    def fill(self, b, use, y, ch, empty):
        d = self.mixdown(b, use)
        step = 128 if b["short"] else 1024
        tbl = [0] + list(SFB_SHORT[self.fs] if b["short"] else SFB_LONG[self.fs])
        w0 = 0
        for g, gl in enumerate(group_lens(ch.get("grouping", 0)) if b["short"] else [1]):
            for s in range(1, len(tbl) - 1):
                sc = empty.pop((g, s), 0)
                if sc <= 1e-8:
                    continue
                I = np.concatenate([np.arange(tbl[s], tbl[s + 1]) + w * step for w in range(w0, w0 + gl)])
                v = y[I] * 4 / sc
                want, have = float(len(I)), float((v ** 2).sum())
                dd = float(np.sqrt((d[I] ** 2).sum()))
                big = max(float(np.abs(u[I]).max()) if u is not None else 0. for u in use)
                top = max(float(np.abs(u).max()) if u is not None else 0. for u in use)
                self.fragile |= abs(have - want) < 1e-3 * want or 0 < dd < 1e-2 * big or 0 < dd < 1e-3 * top or 1e-12 < have < 1e-6 * want
                if have < want:
                    v = v + d[I] * min(10., np.sqrt((want - have) / (1e-8 + (d[I] ** 2).sum())))
                    have = float((v ** 2).sum())
                    if have > 0:
                        v = v * min(10., np.sqrt(want / (have + 1e-8)))
                y[I] = v * sc
            w0 += gl


def apply(fs, boxes, spec):
    """the joint processing on the spectra (list of [1024]) in place"""
    for b in boxes:
        x, y = spec[b["pair"][0]], spec[b["pair"][1]]
        step = 128 if b["short"] else 1024
        tbl = [0] + list(SFB_SHORT[fs] if b["short"] else SFB_LONG[fs])
        for w in range(8 if b["short"] else 1):
            if not b["banded"]:
                parts = [(0, step, b["coef"][0])]
            else:
                parts = []
                for k in range(b["per"]):
                    lo = 2 * k
                    if lo >= len(tbl) - 1:
                        break
                    i = w * b["per"] + k
                    if b["mask"][i]:
                        parts.append((tbl[lo], tbl[min(lo + 2, len(tbl) - 1)], b["coef"][i]))
            for s, e, v in parts:
                q = slice(w * step + s, w * step + e)
                d, r = x[q].copy(), y[q].copy()
                if b["type"] == 0:
                    a = .1 * v
                    x[q] = d + a * d + r
                    y[q] = d - a * d - r if b["dir"] == 0 else -d + a * d + r
                else:
                    t = turn(v)
                    x[q] = d * t[0] - r * t[1]
                    y[q] = d * t[1] + r * t[0]

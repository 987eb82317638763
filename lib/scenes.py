"""Random but reproducible scenes for the generator: channel layouts with every frequency-domain tool."""
import random
from mpegh import *

CICPS = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]


def legal_cicps(level=0x0D):
    return CICPS


def rand_tns(rng, fs, short, max_sfb):
    nb = len(SFB_SHORT[fs] if short else SFB_LONG[fs])
    out = []
    for w in range(8 if short else 1):
        fl = []
        left = nb - 1      # the decoder refuses filters that reach down to band 0
        for k in range(rng.randint(0, 1 if short else 3)):
            if left < 1:
                break
            ln = rng.randint(1, min(left, 15 if short else 63))
            left = max(0, left - ln)
            order = rng.randint(0, 7 if short else 8)
            res, comp = rng.randint(0, 1), rng.randint(0, 1)
            fl.append(dict(length=ln, order=order, dir=rng.randint(0, 1), compress=comp, _res=res))
        res = rng.randint(0, 1)
        for f in fl:
            nbits = 3 + res - f["compress"]
            lim = max(1, (1 << (nbits - 1)) // 2)
            f["coef"] = [rng.randint(-lim, lim - 1) & ((1 << nbits) - 1) for _ in range(f["order"])]
            f.pop("_res")
        out.append(dict(filters=fl, res=res))
    return out


class FD:
    """Keeps the window state of each channel and makes legal random frames."""

    def __init__(self, rng, fs, elements, gg=(136, 148), tools=(), max_sfb=None, density=.3, peak=3):
        self.rng, self.fs, self.elements, self.tools = rng, fs, elements, set(tools)
        self.gg, self.max_sfb, self.density, self.peak = gg, max_sfb, density, peak
        self.prev = {}
        self.cnt = {}

    def note(self, t):
        self.cnt[t] = self.cnt.get(t, 0) + 1

    def seq(self, key):
        p = self.prev.get(key, ONLY_LONG)
        if "win" in self.tools:
            nx = legal_next(p)
            # stay long most of the time
            s = nx[0] if self.rng.random() < .5 else self.rng.choice(nx)
        else:
            s = ONLY_LONG if p == ONLY_LONG else legal_next(p)[-1]
        if s != p:
            self.note("win%d-%d" % (p, s))
        self.prev[key] = s
        return s

    def ch(self, key, seq, shape, grouping, nf, indep, lfe=False, max_sfb=None):
        r = self.rng
        ms = max_sfb if max_sfb is not None else self.max_sfb
        if ms is not None:
            ms = min(ms, len(SFB_SHORT[self.fs]) if seq == EIGHT_SHORT else len(SFB_LONG[self.fs]))
        if lfe:
            ms = r.randint(1, 3)
        c = rand_ch(r, self.fs, seq, shape, max_sfb=ms, grouping=grouping, gg=r.randint(*self.gg), density=self.density,
                    peak=self.peak if r.random() < .9 else 40, sfvar=r.choice([0, 2, 6]))
        if nf and "nf" in self.tools:
            c["nlev"], c["noff"] = r.randint(1, 7), r.randint(0, 31)
            self.note("nf")
        else:
            c["nlev"], c["noff"] = 0, 0
        if "alias" in self.tools and not lfe:
            c["prev_alias"] = self.prev.get((key, "al"), 0)
            c["alias"] = r.randint(0, 1) if seq != EIGHT_SHORT or "aliasmix" in self.tools else c["prev_alias"]
            self.prev[(key, "al")] = c["alias"]
            self.note("alias%d%d" % (c["prev_alias"], c["alias"]))
        if "ltpf" in self.tools and r.random() < .6 and not lfe:
            c["ltpf"] = (r.randint(0, 511), r.randint(0, 3))
            self.note("ltpf")
        if "fdp" in self.tools and not lfe and seq != EIGHT_SHORT and not indep and r.random() < .6:
            c["fdp"] = r.randint(0, 255)
            self.note("fdp")
        if not indep:
            c["reset"] = 1 if r.random() < .15 else 0
        return c

    def frame(self, indep):
        r = self.rng
        out = []
        for i, e in enumerate(self.elements):
            k = e["type"]
            if k == "EXT":
                out.append(None)
            elif k == "LFE":
                out.append(self.ch(i, ONLY_LONG, 0, 0, 0, indep, lfe=True))
            elif k == "SCE":
                s = self.seq(i)
                g = r.getrandbits(7) if "win" in self.tools else 0
                c = self.ch(i, s, r.randint(0, 1) if "shape" in self.tools else 0, g, e.get("nf", 0), indep)
                if "tns" in self.tools and r.random() < .5 and c["max_sfb"]:
                    c["tns"] = rand_tns(r, self.fs, s == EIGHT_SHORT, c["max_sfb"])
                    self.note("tns")
                out.append(c)
            elif k == "CPE":
                common = r.random() < .75
                # a common window needs both channels to be able to take the same sequence
                pa, pb = self.prev.get((i, 0), 0), self.prev.get((i, 1), 0)
                sp = set(legal_next(pa)) & set(legal_next(pb))
                if not sp:
                    common = False
                sh = [r.randint(0, 1) if "shape" in self.tools else 0 for _ in range(2)]
                gr = [r.getrandbits(7) if "win" in self.tools else 0 for _ in range(2)]
                if common:
                    if "win" in self.tools:
                        sq = r.choice(sorted(sp))
                        if r.random() < .5 and ONLY_LONG in sp:
                            sq = ONLY_LONG
                    else:
                        sq = sorted(sp)[0]
                    self.prev[(i, 0)] = self.prev[(i, 1)] = sq
                    sq = [sq, sq]
                    sh[1], gr[1] = sh[0], gr[0]
                else:
                    sq = [self.seq((i, 0)), self.seq((i, 1))]
                a = self.ch((i, 0), sq[0], sh[0], gr[0], e.get("nf", 0), indep)
                b = self.ch((i, 1), sq[1], sh[1], gr[1], e.get("nf", 0), indep,
                            max_sfb=a["max_sfb"] if common and r.random() < .6 else None)
                d = dict(ch=[a, b], common=common)
                short = sq[0] == EIGHT_SHORT
                if common and "ms" in self.tools:
                    mp = r.choice([0, 1, 2, 3] if "pred" in self.tools else [0, 1, 2])
                    d["ms_present"] = mp
                    self.note("ms%d" % mp)
                    ng = n_groups(gr[0]) if short else 1
                    mx = max(a["max_sfb"], b["max_sfb"])
                    if mp == 1:
                        d["ms"] = [[r.randint(0, 1) for _ in range(mx)] for _ in range(ng)]
                    if mp == 3:
                        nb = (mx + 1) // 2
                        cx = 1 if "cplx" in self.tools and r.random() < .6 else 0
                        d["cplx"] = dict(all=r.randint(0, 1), used=[[r.randint(0, 1) for _ in range(nb)] for _ in range(ng)],
                                         dir=r.randint(0, 1), complex=cx, use_prev=r.randint(0, 1), delta_time=r.randint(0, 1),
                                         dre=[[r.randint(-3, 3) for _ in range(nb)] for _ in range(ng)],
                                         dim=[[r.randint(-3, 3) for _ in range(nb)] for _ in range(ng)])
                        self.note("pred%d%d" % (d["cplx"]["dir"], cx))
                if "tns" in self.tools and r.random() < .5:
                    d["tns_on_lr"] = r.randint(0, 1)
                    m = r.choice(["a", "b", "ab", "c"])
                    if m == "c" and common:
                        d["common_tns"] = rand_tns(r, self.fs, short, 0)
                    elif m == "c":
                        m = "ab"
                    if m in ("a", "ab"):
                        a["tns"] = rand_tns(r, self.fs, sq[0] == EIGHT_SHORT, 0)
                    if m in ("b", "ab"):
                        b["tns"] = rand_tns(r, self.fs, sq[1] == EIGHT_SHORT, 0)
                    self.note("tns" + m + str(d["tns_on_lr"]))
                if "ltpf" in self.tools and r.random() < .3:
                    d["common_ltpf"] = True
                out.append(d)
        return out


def shift_gain(data, k):
    """lower every channel of a frame by k quarter-powers of two (1.5 dB each)"""
    for d in data:
        if d is None:
            continue
        for c in (d["ch"] if "ch" in d else [d]):
            c["gg"] = max(0, c["gg"] - k)
            c["sf"] = [[max(0, v - k) for v in row] for row in c["sf"]]


def fd_scene(rng, fs=48000, cicp=2, nframes=6, tools=(), elements=None, level=0x0D, indep=None, elen=0, **kw):
    """-> dict(cfg, frames, data, indep, elements, fs, cicp, counts)"""
    el = elements or layout_elements(cicp, nf=1 if "nf" in tools else 0)
    nch = sum({"SCE": 1, "LFE": 1, "CPE": 2}.get(e["type"], 0) for e in el)
    cfg = config(fs=fs, level=level, spk=spk_cicp(cicp), groups=[grp_ch(nch)], elements=el, elen=elen)
    f = FD(rng, fs, el, tools=tools, **kw)
    data, ind = [], []
    for n in range(nframes):
        i = 1 if n == 0 else (indep[n] if indep else (1 if rng.random() < .25 else 0))
        data.append(f.frame(i))
        ind.append(i)
    return dict(cfg=cfg, data=data, indep=ind, elements=el, fs=fs, cicp=cicp, counts=f.cnt, elen=elen, nch=nch)


def encode(sc, label=1):
    e = Enc(sc["fs"], sc["elements"], sc["elen"])
    sc["frames"] = [e.frame(i, d) for i, d in zip(sc["indep"], sc["data"])]
    return stream(sc["cfg"], sc["frames"], label)

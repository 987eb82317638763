"""Bit-exact generator of MPEG-H 3D Audio (LC) streams: bit writer, MHAS packets,
configuration, frequency-domain frames (with the adaptive arithmetic coder), MP4 muxer.
Written from the bitstream syntax; used only to make inputs."""
import json, os, random, struct, bisect
_D = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(_D, "tables.json")))
ARI_HASH = T["ari_hash_m"]; ARI_HASH1 = T["ari_hash_m_1"]; ARI_LOOK = T["ari_lookup_m"]
ARI_CF_M = [T["ari_cf_m"][i*17:(i+1)*17] for i in range(64)]
ARI_CF_R = [T["ari_cf_r"][i*4:(i+1)*4] for i in range(3)]
SCF = {int(k): format(v[1], "0%db" % v[0]) for k, v in T["scf"].items()}
CICP = {int(k): v for k, v in T["cicp"].items()}
GEO = T["geo"]
FS_TBL = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000]
SFB_LONG = {v["fs"]: v["long"] for v in T["sr"].values()}
SFB_SHORT = {v["fs"]: v["short"] for v in T["sr"].values()}
ONLY_LONG, LONG_START, EIGHT_SHORT, LONG_STOP, STOP_START = 0, 1, 2, 3, 4
# MHAS packet types
PT_FILL, PT_CFG, PT_FRAME, PT_SCENE, PT_SYNC, PT_SYNCGAP, PT_MARKER, PT_CRC16, PT_CRC32, PT_DESC, \
    PT_USER, PT_LOUDDRC, PT_BUFINFO, PT_GCRC16, PT_GCRC32, PT_TRUNC, PT_GENDATA, PT_EARCON, PT_PCMCFG, PT_PCMDATA, PT_LOUD = \
    0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22
EXT_FILL, EXT_PREROLL, EXT_DRC, EXT_OAM, EXT_SAOC, EXT_HOA, EXT_FMTCONV, EXT_MCT, EXT_ENHOAM, EXT_PROD = 0, 3, 4, 5, 6, 7, 8, 9, 13, 14


class BW:
    def __init__(self):
        self.p = []
        self.n = 0

    def u(self, v, n):
        if n:
            v = int(v) & ((1 << n) - 1)
            self.p.append(format(v, "0%db" % n))
            self.n += n
        return self

    def s(self, bits):
        self.p.append(bits)
        self.n += len(bits)
        return self

    def esc(self, v, a, b, c):
        m = (1 << a) - 1
        if v < m or a == 0:
            return self.u(v, a)
        self.u(m, a); v -= m
        if b == 0:
            return self
        m = (1 << b) - 1
        if v < m:
            return self.u(v, b)
        self.u(m, b); v -= m
        return self.u(v, c)

    def w(self, other):
        self.p.extend(other.p)
        self.n += other.n
        return self

    def rnd(self, rng, n):
        if n > 0:
            self.u(rng.getrandbits(n), n)
        return self

    def align(self, one=False):
        k = -self.n % 8
        if k:
            self.s(("1" if one else "0") * k)
        return self

    def bits(self):
        return "".join(self.p)

    def bytes(self):
        b = self.bits()
        b += "0" * (-len(b) % 8)
        return int("1" + b, 2).to_bytes(len(b) // 8 + 1, "big")[1:] if b else b""


def from_bytes(x):
    return "".join(format(b, "08b") for b in x)


# ---------------------------------------------------------------- MHAS
def packet(ptype, payload, label=1, forms=(0, 0, 0)):
    """forms: index of the (longer) escape form to force for type,label,length (only where legal)."""
    w = BW()
    w.esc(ptype, 3, 8, 8)
    w.esc(label, 2, 8, 32)
    w.esc(len(payload), 11, 24, 24)
    w.align()
    return w.bytes() + payload


def sync():
    return packet(PT_SYNC, b"\xA5", 0)


# ---------------------------------------------------------------- configuration
def spk_cicp(idx):
    return lambda w: w.u(0, 2).u(idx, 6)


def spk_list(spks):
    def f(w):
        w.u(1, 2).esc(len(spks) - 1, 5, 8, 16)
        for s in spks:
            w.u(s, 7)
    return f


def igf_cfg(w, ig, cpe):
    w.u(ig.get("enf", 0), 1).u(ig.get("highres", 0), 1).u(ig.get("whitening", 0), 1)
    w.u(ig.get("after_tns", 0), 1).u(ig.get("start", 8), 5).u(ig.get("stop", 8), 4)
    if cpe:
        w.u(ig.get("indep_tiling", 0), 1)


def element_cfg(w, e, nsig=None):
    k = e["type"]
    if k == "SCE":
        w.u(0, 2).u(e.get("tw", 0), 1).u(e.get("fblpd", 0), 1).u(e.get("nf", 0), 1).u(1 if e.get("igf") else 0, 1)
        if e.get("igf"):
            igf_cfg(w, e["igf"], False)
    elif k == "CPE":
        w.u(1, 2).u(e.get("tw", 0), 1).u(e.get("fblpd", 0), 1).u(e.get("nf", 0), 1).u(1 if e.get("igf") else 0, 1)
        if e.get("igf"):
            igf_cfg(w, e["igf"], True)
        w.u(e.get("qce", 0), 2)
        sh = e.get("shift")
        if sh is None:
            w.u(0, 1)
        else:
            n = max(1, ((nsig or 2) - 1).bit_length()) if (nsig or 2) > 1 else 1
            w.u(1, 1).u(sh, n)
        w.u(e.get("lpdstereo", 0), 1)
    elif k == "LFE":
        w.u(2, 2)
    elif k == "EXT":
        c = e.get("config", b"")
        w.u(3, 2).esc(e["ext"], 4, 8, 16).esc(e.get("cfglen", len(c)), 4, 8, 16)
        dl = e.get("deflen", 0)
        w.u(1 if dl else 0, 1)
        if dl:
            w.esc(dl - 1, 8, 16, 0)
        w.u(e.get("frag", 0), 1)
        if isinstance(c, BW):
            w.w(c)
        else:
            w.s(from_bytes(c))
    elif k == "RAW":
        w.s(e["bits"])
    return w


def grp_ch(n, layout=None):
    def f(w):
        w.u(0, 3).esc(n - 1, 5, 8, 16)
        if layout is None:
            w.u(0, 1)
        else:
            w.u(1, 1)
            layout(w)
    f.kind, f.n = 0, n
    return f


def grp_obj(n):
    def f(w):
        w.u(1, 3).esc(n - 1, 5, 8, 16)
    f.kind, f.n = 1, n
    return f


def grp_hoa(n):
    def f(w):
        w.u(3, 3).esc(n - 1, 5, 8, 16)
    f.kind, f.n = 3, n
    return f


def config(fs=48000, ccfl=1, level=0x0B, spk=None, groups=None, elements=None, cfgext=None, delaycomp=0,
           elen=0, reserved=0, fsidx=None):
    """-> bytes of the configuration packet payload. cfgext: list of (type, bytes|BW)."""
    w = BW()
    w.u(level, 8)
    if fsidx is not None:
        w.u(fsidx, 5)
        if fsidx == 31:
            w.u(fs, 24)
    elif fs in FS_TBL:
        w.u(FS_TBL.index(fs), 5)
    else:
        w.u(31, 5).u(fs, 24)
    w.u(ccfl, 3).u(reserved, 1).u(delaycomp, 1)
    spk(w)
    w.u(len(groups) - 1, 5)
    for g in groups:
        g(w)
    nsig = sum(getattr(g, "n", 0) for g in groups)
    w.esc(len(elements) - 1, 4, 8, 16).u(elen, 1)
    for e in elements:
        element_cfg(w, e, nsig)
    if cfgext:
        w.u(1, 1).esc(len(cfgext) - 1, 2, 4, 8)
        for t, b in cfgext:
            if isinstance(b, BW):
                b = b.bytes()
            w.esc(t, 4, 8, 16).esc(len(b), 4, 8, 16).s(from_bytes(b))
    else:
        w.u(0, 1)
    w.align()
    return w.bytes()


# ---------------------------------------------------------------- arithmetic coder
_PKC = {}


def _pk(c):
    r = _PKC.get(c)
    if r is None:
        lo, hi = -1, 741
        r = None
        while hi - lo > 1:
            i = lo + ((hi - lo) >> 1)
            j = ARI_HASH[i]
            if c > j:
                lo = i
            elif c < j:
                hi = i
            else:
                r = ARI_HASH1[i]
                break
        if r is None:
            r = ARI_LOOK[hi]
        _PKC[c] = r
    return r


class ArithEnc:
    def __init__(self):
        self.low, self.high, self.follow, self.o = 0, 65535, 0, []

    def enc(self, sym, cf):
        rng = self.high - self.low + 1
        if sym > 0:
            self.high = self.low + ((rng * cf[sym - 1]) >> 14) - 1
        self.low += (rng * cf[sym]) >> 14
        o = self.o
        while True:
            if self.high < 32768:
                o.append("0" + "1" * self.follow); self.follow = 0
            elif self.low >= 32768:
                o.append("1" + "0" * self.follow); self.follow = 0
                self.low -= 32768; self.high -= 32768
            elif self.low >= 16384 and self.high < 49152:
                self.follow += 1
                self.low -= 16384; self.high -= 16384
            else:
                break
            self.low += self.low
            self.high += self.high + 1

    def finish(self):
        self.follow += 1
        if self.low < 16384:
            self.o.append("0" + "1" * self.follow)
        else:
            self.o.append("1" + "0" * self.follow)
        return "".join(self.o)


class AriCtx:
    """Context state kept per channel between frames."""

    def __init__(self):
        self.c = [0] * 516       # c_pres (+2 offset)
        self.p = [0] * 516       # c_prev
        self.n = 0               # previous transform size (bins)


def map_context(st, n, reset):
    if reset:
        st.c = [0] * 516
        st.p = [0] * 516
    else:
        pn = st.n
        if pn != n:
            oc, op = st.c[:], st.p[:]
            for i in range(n // 2):
                k = (i * pn) // n
                st.c[2 + i] = oc[2 + k]
                st.p[2 + i] = op[2 + k]
            st.c[n // 2 + 3] = oc[pn // 2 + 3]
            st.p[n // 2 + 2] = op[pn // 2 + 2]
    st.n = n


def ari_block(st, q, ntup, n):
    """Encode one block of quantised values q[0:2*ntup] (n bins in the transform); returns bits.
    st must already have been mapped to n."""
    half = n // 2
    p = st.p; c = st.c
    for i in range(half):
        p[2 + i] = c[2 + i]
        c[2 + i] = 1
    e = ArithEnc()
    signs = []
    ctx = p[2] << 12
    last = -1
    for i in range(ntup - 1, -1, -1):
        if q[2 * i] or q[2 * i + 1]:
            last = i
            break
    pos = 0
    full = False
    for i in range(ntup):
        ctx = (ctx >> 4) + (p[2 + i + 1] << 12)
        ctx = (ctx & 0xFFF0) + c[2 + i - 1]
        s1 = ctx
        if i > 3 and c[1 + i] + c[i] + c[i - 1] < 5:
            s1 += 0x10000
        if i > last:
            e.enc(16, ARI_CF_M[_pk(s1)])
            e.enc(0, ARI_CF_M[_pk(s1 + 131072)])
            break
        a, b = abs(q[2 * i]), abs(q[2 * i + 1])
        lev = 0
        while max(a >> lev, b >> lev) > 3:
            lev += 1
        for l in range(lev):
            e.enc(16, ARI_CF_M[_pk(s1 + min(l, 7) * 131072)])
        ma, mb = a >> lev, b >> lev
        e.enc(ma + 4 * mb, ARI_CF_M[_pk(s1 + min(lev, 7) * 131072)])
        for l in range(lev - 1, -1, -1):
            idx = 1 if ma == 0 else (0 if mb == 0 else 2)
            ba, bb = (a >> l) & 1, (b >> l) & 1
            e.enc(ba | (bb << 1), ARI_CF_R[idx])
            ma = (ma << 1) | ba
            mb = (mb << 1) | bb
        c[2 + i] = min(a + b + 1, 15)
        if a:
            signs.append("1" if q[2 * i] > 0 else "0")
        if b:
            signs.append("1" if q[2 * i + 1] > 0 else "0")
    return e.finish() + "".join(signs)


# ---------------------------------------------------------------- FD channel
class Chan:
    """Per-channel coding state that the bitstream depends on."""

    def __init__(self):
        self.ari = AriCtx()


def win_seq_code(prev, seq):
    """bit code for a window sequence; STOP_START is coded as START after START/SHORT/STOP_START."""
    return 1 if seq == STOP_START else seq


def legal_next(prev):
    return {ONLY_LONG: [0, 1], LONG_START: [2, 3, 4], EIGHT_SHORT: [2, 3, 4], LONG_STOP: [0, 1],
            STOP_START: [2, 3, 4]}[prev]


def n_groups(grouping):
    return 1 + 7 - bin(grouping & 0x7f).count("1")


def group_lens(grouping):
    g = [1]
    for i in range(7):
        if grouping & (0x40 >> i):
            g[-1] += 1
        else:
            g.append(1)
    return g


def ics_info(w, fs, ch):
    seq = ch["seq"]
    w.u(win_seq_code(0, seq), 2).u(ch.get("shape", 0), 1)
    if seq == EIGHT_SHORT:
        w.u(ch["max_sfb"], 4).u(ch.get("grouping", 0), 7)
    else:
        w.u(ch["max_sfb"], 6)


def tns_data(w, tns, short):
    """tns: list per window of list of filters dict(length,order,dir,compress,coef[]) plus res."""
    for win in tns:
        nf = len(win.get("filters", []))
        w.u(nf, 1 if short else 2)
        if nf:
            w.u(win.get("res", 1), 1)
            for f in win["filters"]:
                w.u(f["length"], 4 if short else 6)
                w.u(f["order"], 3 if short else 4)
                if f["order"]:
                    w.u(f.get("dir", 0), 1).u(f.get("compress", 0), 1)
                    nb = 3 + win.get("res", 1) - f.get("compress", 0)
                    for c in f["coef"][:f["order"]]:
                        w.u(c, nb)


def sf_bits(w, ch):
    """ch['sf'][g][sfb] are absolute scale factors; sf[0][0] is the global gain."""
    last = ch["gg"]
    for g, row in enumerate(ch["sf"]):
        for b in range(ch["max_sfb"]):
            if g == 0 and b == 0:
                continue
            d = row[b] - last
            w.s(SCF[d + 60])
            last = row[b]


def fd_stream(w, fs, ch, st, indep, common_window=False, common_ltpf=False, nf=False, lfe=False, tns_present=0):
    """ch: dict(seq,shape,max_sfb,grouping,gg,sf,q=list of per-window int lists or 1 long list, nl, ltpf,
    fdp, aliasing, tns, reset, fac)"""
    seq = ch["seq"]
    short = seq == EIGHT_SHORT
    w.u(ch["gg"], 8)
    if nf:
        w.u(ch.get("nlev", 0), 3).u(ch.get("noff", 16), 5)
    if not common_window:
        ics_info(w, fs, ch)
    if not common_ltpf:
        lt = ch.get("ltpf")
        if lt:
            w.u(1, 1).u(lt[0], 9).u(lt[1], 2)
        else:
            w.u(0, 1)
    if not short and not indep:
        fdp = ch.get("fdp")
        if fdp is not None:
            w.u(1, 1).u(fdp, 8)
        else:
            w.u(0, 1)
    if indep:
        w.u(ch.get("prev_alias", 0), 1)
    w.u(ch.get("alias", 0), 1)
    sf_bits(w, ch)
    if ch.get("igf_bits"):
        w.s(ch["igf_bits"])
    if tns_present == 1:
        tns_data(w, ch["tns"], short)
    reset = 1 if indep else ch.get("reset", 0)
    if not indep:
        w.u(reset, 1)
    if short:
        tbl = SFB_SHORT[fs]
        nb = tbl[ch["max_sfb"] - 1] if ch["max_sfb"] else 0
        if ch["max_sfb"]:
            map_context(st.ari, 128, reset)
            for i, q in enumerate(ch["q"]):
                w.s(ari_block(st.ari, q, nb // 2, 128))
        else:
            skip_block(st, 128, reset)
    else:
        tbl = SFB_LONG[fs]
        nb = tbl[ch["max_sfb"] - 1] if ch["max_sfb"] else 0
        if nb:
            map_context(st.ari, 1024, reset)
            w.s(ari_block(st.ari, ch["q"][0], nb // 2, 1024))
        else:
            skip_block(st, 1024, reset)
    w.u(0, 1)   # fac_data_present


def skip_block(st, n, reset):
    map_context(st.ari, n, reset)
    for i in range(n // 2):
        st.ari.c[2 + i] = 1


def tables(fs):
    return SFB_LONG[fs], SFB_SHORT[fs]


# ---------------------------------------------------------------- frames
class Enc:
    """Stream builder holding the coding state of every core channel.
    cfg: dict(fs, elements=[...], elen) as given to config()."""

    def __init__(self, fs, elements, elen=0, preroll=False):
        self.fs, self.elements, self.elen, self.preroll = fs, elements, elen, preroll
        self.state = {}

    def st(self, e, c):
        return self.state.setdefault((e, c), Chan())

    def frame(self, indep, data, ext_bits=None, trailer=0):
        """data: list per element. SCE/LFE: ch dict. CPE: dict(ch=[a,b], common=bool, ms=..., ...).
        EXT: None (absent) | bytes | BW. -> frame payload bytes"""
        w = BW()
        w.u(1 if indep else 0, 1)
        for i, (e, d) in enumerate(zip(self.elements, data)):
            x = BW()
            k = e["type"]
            if k == "SCE":
                self.sce(x, i, e, d, indep)
            elif k == "LFE":
                fd_stream(x, self.fs, d, self.st(i, 0), indep, nf=False, lfe=True)
            elif k == "CPE":
                self.cpe(x, i, e, d, indep)
            elif k == "EXT":
                if d is None:
                    x.u(0, 1)
                else:
                    b = d.bytes() if isinstance(d, BW) else d
                    x.u(1, 1)
                    if e.get("deflen") and len(b) == e["deflen"] and not e.get("explicit"):
                        x.u(1, 1)
                    else:
                        x.u(0, 1)
                        if len(b) < 255:
                            x.u(len(b), 8)
                        else:
                            x.u(255, 8).u(len(b) - 253, 16)
                    if e.get("frag"):
                        x.u(3, 2)
                    x.s(from_bytes(b))
            if self.elen and k != "EXT":
                w.u(x.n, 16)
            elif self.elen:
                w.u(x.n, 16)
            w.w(x)
        w.align()
        return w.bytes() + b"\0" * trailer

    def sce(self, w, i, e, d, indep):
        w.u(0, 1)                      # core_mode
        tns = d.get("tns")
        w.u(1 if tns else 0, 1)
        fd_stream(w, self.fs, d, self.st(i, 0), indep, nf=e.get("nf", 0), tns_present=1 if tns else 0)

    def cpe(self, w, i, e, d, indep):
        a, b = d["ch"]
        w.u(0, 1).u(0, 1)
        short = a["seq"] == EIGHT_SHORT
        tns_active = 1 if (a.get("tns") or b.get("tns") or d.get("common_tns")) else 0
        common = 1 if d.get("common") else 0
        w.u(tns_active, 1).u(common, 1)
        if common:
            ics_info(w, self.fs, a)
            if a["max_sfb"] == b["max_sfb"]:
                w.u(1, 1)
            else:
                w.u(0, 1).u(b["max_sfb"], 4 if short else 6)
            mx = max(a["max_sfb"], b["max_sfb"])
            mp = d.get("ms_present", 0)
            w.u(mp, 2)
            ng = n_groups(a.get("grouping", 0)) if short else 1
            if mp == 1:
                for g in range(ng):
                    for s in range(mx):
                        w.u(d["ms"][g][s], 1)
            elif mp == 3:
                self.cplx(w, d, ng, mx, indep)
            if d.get("igf_ms_bits"):
                w.s(d["igf_ms_bits"])
        cl = 1 if d.get("common_ltpf") else 0
        w.u(cl, 1)
        if cl:
            lt = a.get("ltpf")
            if lt:
                w.u(1, 1).u(lt[0], 9).u(lt[1], 2)
            else:
                w.u(0, 1)
        tp = [0, 0]
        if tns_active:
            ct = 0
            if common:
                ct = 1 if d.get("common_tns") else 0
                w.u(ct, 1)
            ig = e.get("igf")
            if not (ig and not ig.get("after_tns", 0)):
                w.u(d.get("tns_on_lr", 1), 1)
            if ct:
                tns_data(w, d["common_tns"], short)
                tp = [2, 2]
            else:
                if a.get("tns") and b.get("tns"):
                    w.u(1, 1); tp = [1, 1]
                elif b.get("tns"):
                    w.u(0, 1).u(1, 1); tp = [0, 1]
                else:
                    w.u(0, 1).u(0, 1); tp = [1, 0]
        for c, ch in enumerate((a, b)):
            fd_stream(w, self.fs, ch, self.st(i, c), indep, common_window=bool(common), common_ltpf=bool(cl),
                      nf=e.get("nf", 0), tns_present=tp[c])

    def cplx(self, w, d, ng, mx, indep):
        cp = d["cplx"]     # dict(all, used[g][band], dir, complex, use_prev, delta_time, re[g][b], im[g][b])
        w.u(cp["all"], 1)
        nb = (mx + 1) // 2
        if not cp["all"]:
            for g in range(ng):
                for b in range(nb):
                    w.u(cp["used"][g][b], 1)
        w.u(cp["dir"], 1).u(cp["complex"], 1)
        if cp["complex"] and not indep:
            w.u(cp["use_prev"], 1)
        if not indep:
            w.u(cp["delta_time"], 1)
        for g in range(ng):
            for b in range(nb):
                if cp["all"] or cp["used"][g][b]:
                    w.s(SCF[cp["dre"][g][b] + 60])
                    if cp["complex"]:
                        w.s(SCF[cp["dim"][g][b] + 60])


def stream(cfg, frames, label=1, extra=()):
    out = sync() + packet(PT_CFG, cfg, label)
    for x in extra:
        out += x
    for f in frames:
        out += packet(PT_FRAME, f, label)
    return out


# ---------------------------------------------------------------- random FD content
def rand_ch(rng, fs, seq=ONLY_LONG, shape=0, amp=200, max_sfb=None, density=0.5, gg=None, grouping=0, sfvar=6, peak=3):
    """random channel-frame dict."""
    short = seq == EIGHT_SHORT
    tbl = SFB_SHORT[fs] if short else SFB_LONG[fs]
    if max_sfb is None:
        max_sfb = rng.randint(0 if rng.random() < .05 else 1, len(tbl))
        if short:
            max_sfb = min(max_sfb, 15)
        else:
            max_sfb = min(max_sfb, 63)
    ng = n_groups(grouping) if short else 1
    if gg is None:
        gg = rng.randint(110, 130)
    sf = []
    last = gg
    for g in range(ng):
        row = []
        for b in range(len(tbl)):
            if b < max_sfb:
                if g or b:
                    last = min(max(last + rng.randint(-sfvar, sfvar), max(gg - 30, 0)), min(gg + 12, 255))
                row.append(last)
            else:
                row.append(0)
        sf.append(row)
    nb = tbl[max_sfb - 1] if max_sfb else 0
    q = []
    for win in range(8 if short else 1):
        v = [0] * (128 if short else 1024)
        for i in range(nb):
            if rng.random() < density:
                m = int(rng.expovariate(1.0 / peak))
                v[i] = -m if rng.random() < .5 else m
        q.append(v)
    return dict(seq=seq, shape=shape, max_sfb=max_sfb, grouping=grouping, gg=gg, sf=sf, q=q)


def silent_ch(gg=100, seq=ONLY_LONG, shape=0):
    return dict(seq=seq, shape=shape, max_sfb=0, grouping=0, gg=gg, sf=[[0] * 64] * 8, q=[[0] * 1024])


def layout_elements(cicp, nf=0, force_sce=False):
    """default element list for a CICP layout: pairs as CPE where consecutive L/R, LFE as LFE."""
    out = []
    spk = CICP[cicp]
    i = 0
    while i < len(spk):
        g = GEO[spk[i]]
        if g[2] and not force_sce:
            out.append(dict(type="LFE"))
        elif not force_sce and i + 1 < len(spk) and not GEO[spk[i + 1]][2] and g[0] > 0 and GEO[spk[i + 1]][0] == -g[0] \
                and GEO[spk[i + 1]][1] == g[1]:
            out.append(dict(type="CPE", nf=nf))
            i += 1
        else:
            out.append(dict(type="SCE", nf=nf))
        i += 1
    return out

"""Dynamic range control and loudness metadata: writer and the gains it prescribes."""
import re, random
import numpy as np
from mpegh import *

NIGHT, NOISY, LIMITED, LOWLEVEL, DIALOG, GENERAL, EXPAND, ARTISTIC, CLIPPING, FADE, DUCK_OTHER, DUCK_SELF = [1 << i for i in range(12)]

# delta gain codes: (bits, code, value)
DELTA01 = [(2, 0x3, -.125), (2, 0x2, .125), (3, 0x1, -.25), (3, 0x2, 0.), (4, 0x0, -2.), (5, 0x2, -.5), (5, 0xF, -.375), (5, 0xE, 1.),
           (6, 0x19, -.625), (6, 0x18, .25), (6, 0x6, .375), (7, 0xF, -1.), (7, 0x34, -.875), (7, 0x36, -.75), (7, 0x37, .5),
           (8, 0x1D, .625), (9, 0x39, -1.875), (9, 0xD5, -1.125), (9, 0xD7, .75), (9, 0xD4, .875), (10, 0x70, -1.5), (10, 0x1AC, -1.375),
           (10, 0x1AD, -1.25), (11, 0xE2, -1.75), (11, 0xE3, -1.625)]
DELTA2 = [(3, 0x7, -.125), (4, 0xC, -.625), (4, 0x9, -.5), (4, 0x5, -.375), (4, 0x3, -.25), (4, 0x1, 0.), (4, 0xB, .125), (5, 0x11, -.875),
          (5, 0xE, -.75), (5, 0x5, .25), (5, 0x4, .375), (5, 0x8, .5), (5, 0x0, .625), (5, 0xD, .75), (5, 0xF, .875), (5, 0x10, 1.),
          (5, 0x1B, 1.125), (6, 0x2B, -1.25), (6, 0x28, -1.125), (6, 0x2, -1.), (6, 0x12, 1.25), (6, 0x18, 1.375), (6, 0x29, 1.5),
          (7, 0x6A, -4.), (7, 0x54, -1.75), (7, 0x68, -1.625), (7, 0x26, -1.5), (7, 0x6, -1.375), (7, 0x32, 1.625), (8, 0xD2, -2.25),
          (8, 0xAB, -2.125), (8, 0xAA, -2.), (8, 0x4F, -1.875), (8, 0x4E, 1.75), (8, 0xD7, 1.875), (8, 0xE, 2.), (9, 0x1AD, -3.625),
          (9, 0x1AC, -3.375), (9, 0x1A6, -3.25), (9, 0xCD, -3.125), (9, 0xCE, -2.75), (9, 0x1A7, -2.625), (9, 0x1F, -2.5), (9, 0xCC, -2.375),
          (10, 0x3C, -3.5), (10, 0x19E, -3.), (10, 0x19F, -2.875), (11, 0x7A, -3.875), (11, 0x7B, -3.75)]


def delta_tmin(fs):
    lo = int(.5 + .0005 * fs)
    d = 1
    while d <= lo:
        d *= 2
    return d


def gain_set(profile=0, full=1, align=0, bands=1, btype=1, char=0, cross=()):
    return dict(profile=profile, full=full, align=align, bands=bands, btype=btype, char=char, cross=cross)


def instruction(sid, effect, sets, dmx=0, more_dmx=(), peak=None, tl=None, depends=None, noindep=0, mods=None, type=0, gid=0, duck=None):
    """sets: gain set index per channel, -1 = none. mods: {set index: dict(att, amp, off)}; duck: {channel: scaling code|None}"""
    return dict(sid=sid, effect=effect, sets=sets, dmx=dmx, more=more_dmx, peak=peak, tl=tl, depends=depends, noindep=noindep,
                mods=mods or {}, type=type, gid=gid, duck=duck or {})


def groups_of(ins):
    """distinct gain sets in order of first use"""
    g = []
    for s in ins["sets"]:
        if s >= 0 and s not in g:
            g.append(s)
    return g


def uni_config(nch, gsets, instr, rng=None, loc=1):
    rng = rng or random.Random(0)
    w = BW()
    w.u(1, 3).u(len(instr), 6).u(nch, 7)
    w.u(loc, 4).u(0, 1).u(len(gsets), 6)
    for g in gsets:
        w.u(g["profile"], 2).u(1, 1).u(g["full"], 1).u(g["align"], 1).u(0, 1)
        if g["profile"] != 3:
            w.u(g["bands"], 4)
            if g["bands"] > 1:
                w.u(g["btype"], 1)
            for b in range(g["bands"]):
                w.u(g["char"], 7)
            for b in range(1, g["bands"]):
                w.u(g["cross"][b - 1], 4 if g["btype"] else 10)
    for i in instr:
        if i["type"] == 0:
            w.u(0, 1)
        else:
            w.u(1, 1).u(i["type"] - 2, 1).u(i["gid"], 7 if i["type"] == 2 else 5)
        w.u(i["sid"], 6).u(loc, 4).u(i["dmx"], 7)
        if i["more"]:
            w.u(1, 1).u(len(i["more"]), 3)
            for d in i["more"]:
                w.u(d, 7)
        else:
            w.u(0, 1)
        w.u(i["effect"], 16)
        ducking = i["effect"] & (DUCK_OTHER | DUCK_SELF)
        if not ducking:
            if i["peak"] is None:
                w.u(0, 1)
            else:
                w.u(1, 1).u(i["peak"], 8)
        if i["tl"] is None:
            w.u(0, 1)
        else:
            w.u(1, 1).u(i["tl"][0] + 63, 6)
            if i["tl"][1] is None:
                w.u(0, 1)
            else:
                w.u(1, 1).u(i["tl"][1] + 63, 6)
        if i["depends"] is not None:
            w.u(1, 1).u(i["depends"], 6)
        else:
            w.u(0, 1).u(i["noindep"], 1)
        c, sets = 0, i["sets"]
        while c < len(sets):
            w.u(sets[c] + 1, 6)
            if ducking:
                sc = i["duck"].get(c)
                if sc is None:
                    w.u(0, 1)
                else:
                    w.u(1, 1).u(sc, 4)
            n = 1
            while c + n < len(sets) and sets[c + n] == sets[c] and n < 32 and (not ducking or i["duck"].get(c + n) == i["duck"].get(c)):
                n += 1
            if n > 1 and rng.random() < .8:
                w.u(1, 1).u(n - 2, 5)
            else:
                n = 1
                w.u(0, 1)
            c += n
        if not ducking:
            for s in groups_of(i):
                m = i["mods"].get(s, {})
                if "att" in m:
                    w.u(1, 1).u(m["att"], 4).u(m["amp"], 4)
                else:
                    w.u(0, 1)
                if "off" in m:
                    o = m["off"]
                    w.u(1, 1).u(1 if o < 0 else 0, 1).u(abs(o) - 1, 5)
                else:
                    w.u(0, 1)
    w.u(0, 1).u(0, 1)
    w.align()
    return w.bytes()


def sequence(w, g, seq, fs):
    """seq: float -> one gain for the frame; (nodes, end): nodes = [(time in units of delta_tmin relative to the frame, gain dB)] in
    order of time, times <= 0 being in the previous frame; end: the last one is the frame's end and its time is not transmitted"""
    tab = {v: (n, c) for n, c, v in (DELTA2 if g["profile"] == 2 else DELTA01)}

    def initial(v):
        q = int(round(v * 8))
        if g["profile"] == 0:
            w.u(1 if q < 0 else 0, 1).u(abs(q), 8)
        elif q == 0:
            w.u(0, 1)
        else:
            w.u(1, 1).u(-q - 1, 10 if g["profile"] == 1 else 8)
    if not isinstance(seq, tuple):
        w.u(0, 1)
        initial(seq)
        return
    nodes, end = seq
    N = 1024 // delta_tmin(fs)
    w.u(1, 1)
    for k in range(len(nodes)):
        w.u(1 if k == len(nodes) - 1 else 0, 1)
    if not g["full"]:
        w.u(1 if end else 0, 1)
    else:
        assert end
    z = max(1, (2 * N - 1).bit_length())
    ts = [t for t, _ in (nodes[:-1] if end else nodes)]
    prev = 0
    for t in [t for t in ts if t > 0] + [t + 2 * N for t in ts if t <= 0]:
        d = t - prev
        prev = t
        if d == 1:
            w.u(0, 2)
        elif d <= 5:
            w.u(1, 2).u(d - 2, 2)
        elif d <= 13:
            w.u(2, 2).u(d - 6, 3)
        else:
            w.u(3, 2).u(d - 14, z)
    initial(nodes[0][1])
    for (_, a), (_, b) in zip(nodes, nodes[1:]):
        n, c = tab[round((b - a) * 8) / 8]
        w.u(c, n)


def payload(gsets, seqs, fs):
    """seqs: per gain set, per band, the sequence"""
    w = BW()
    for g, s in zip(gsets, seqs):
        if g["profile"] == 3:
            continue
        for b in range(g["bands"]):
            sequence(w, g, s[b], fs)
    w.u(0, 1)
    w.align()
    return w.bytes()


def loudness_info(w, sid=0, dmx=0, type=0, gid=0, sample=None, true=None, meas=((1, -23.0, 2, 3),), album=False):
    """sample/true: dB. meas: (method, dB, system, reliability)"""
    if not album:
        w.u(type, 2)
    if type == 3:
        w.u(gid, 5)
    elif type:
        w.u(gid, 7)
    w.u(sid, 6).u(dmx, 7)
    for p, tr in ((sample, 0), (true, 1)):
        if p is None:
            w.u(0, 1)
        else:
            w.u(1, 1).u(int(round((20 - p) * 32)), 12)
            if tr:
                w.u(2, 4).u(3, 2)
    w.u(len(meas), 4)
    for m, v, s, r in meas:
        w.u(m, 4).u(int(round((v + 57.75) * 4)), 8).u(s, 4).u(r, 2)


def loudness_ext(infos, album=()):
    w = BW()
    w.u(len(infos), 6)
    for i in infos:
        loudness_info(w, **i)
    if album:
        w.u(1, 1).u(len(album), 6)
        for i in album:
            loudness_info(w, **i, album=True)
    else:
        w.u(0, 1)
    w.u(0, 1)
    w.align()
    return (2, w.bytes())


def ele(nch, gsets, instr, rng=None):
    return dict(type="EXT", ext=4, config=uni_config(nch, gsets, instr, rng))


def curve(g, seqs, fs, law=lambda db: 2 ** (db / 6)):
    """nodes (time in samples, linear gain) of one gain set and band over the frames, to be interpolated linearly"""
    tm = delta_tmin(fs)
    N = 1024 // tm
    off = -1 if not g["align"] else -tm + (tm - 1) // 2
    T, V = [-1024], [law(0.)]     # the gain starts at 0 dB with the first output sample
    for f, s in enumerate(seqs):
        for t, v in (s[0] if isinstance(s, tuple) else [(N, s)]):
            T.append(f * 1024 + t * tm + off)
            V.append(law(v))
    assert all(x < y for x, y in zip(T, T[1:])), T
    return np.array(T), np.array(V)

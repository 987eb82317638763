"""Binaural room impulse response files in the decoder's input format."""
import struct
from mpegh import BW
FSIDX = {96000: 0, 88200: 1, 64000: 2, 48000: 3, 44100: 4, 32000: 5, 24000: 6, 22050: 7, 16000: 8, 12000: 9, 11025: 10, 8000: 11}


def f32(w, x):
    return w.u(struct.unpack(">I", struct.pack(">f", x))[0], 32)


def head(fs, cicp, pairs, fmt, fsidx=None):
    w = BW()
    w.u(0x62696E61, 32).u(1, 8).u(0, 8).u(0, 1).u(1, 4)
    if fsidx is None:
        fsidx = FSIDX.get(fs, 31)
    w.u(fsidx, 5)
    if fsidx == 31:
        w.u(fs, 24)
    w.u(0, 1)                         # not HOA
    w.u(0, 2).u(cicp, 6)
    w.esc(pairs - 1, 5, 8, 0)
    w.u(fmt, 2)
    return w.align()


def fir(fs, cicp, taps, cut=0, cuts=None):
    """taps [pair][ear][n]"""
    w = head(fs, cicp, len(taps), 0)
    n = len(taps[0][0])
    w.u(n, 24)
    for p in taps:
        for t in range(n):
            f32(w, p[0][t]); f32(w, p[1][t])
    w.u(cut, 32)
    if not cut:
        for p in range(len(taps)):
            f32(w, cuts[p][0]); f32(w, cuts[p][1])
    return w.bytes() + b"\0" * 8


def td(fs, cicp, delay, direct, dfc, diffuse, ffc, weight):
    """direct [pair][ear][n], dfc [pair][ear], diffuse [block][ear][n], ffc [block][ear], weight [pair]"""
    w = head(fs, cicp, len(direct), 2)
    n = len(direct[0][0])
    w.u(delay, 16).u(n, 16).u(len(diffuse), 8)
    for p in dfc:
        f32(w, p[0]); f32(w, p[1])
    for p in ffc:
        f32(w, p[0]); f32(w, p[1])
    for x in weight:
        f32(w, x)
    for p in direct:
        for t in range(n):
            f32(w, p[0][t]); f32(w, p[1][t])
    for p in diffuse:
        for t in range(n):
            f32(w, p[0][t]); f32(w, p[1][t])
    return w.bytes() + b"\0" * 8

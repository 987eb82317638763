"""C20: resampled output: exact length, and samples equal to an independent polyphase model; tone frequency, level and images."""
from suite import *
import json
LEVEL = "randomised differential testing against an independent resampler model plus spectral oracle"
H2 = [6.6318e-4, 5.9298e-4, -7.9957e-4, -8.0299e-4, 1.1491e-3, 1.2169e-3, -1.7485e-3, -1.8758e-3, 2.6390e-3, 2.8283e-3, -3.8702e-3,
      -4.1348e-3, 5.5069e-3, 5.8773e-3, -7.6415e-3, -8.1757e-3, 1.0418e-2, 1.1222e-2, -1.4082e-2, -1.5352e-2, 1.9088e-2, 2.1222e-2,
      -2.6395e-2, -3.0304e-2, 3.8374e-2, 4.6713e-2, -6.2869e-2, -8.7788e-2, 1.4968e-1, 4.4865e-1]
H3 = [-4.97022232279335e-4, -9.18613596216878e-4, -4.44825902452182e-4, 7.05250981587193e-4, 1.50700315445066e-3, 8.09458182295440e-4,
      -1.29785543741279e-3, -2.85178460464026e-3, -0.00155156280148759, 0.00236946564044503, 0.00517024229794912, 0.00279871704229966,
      -0.00404538116179953, -0.00876978312446251, -0.00474131143327614, 0.00652928741952997, 0.01417585956591372, 0.00771987717882837,
      -0.01022842931324190, -0.02248652147726131, -0.0124830287732841, 0.0161443044586115, 0.0365819827465015, 0.0211642050455355,
      -0.0275376273262614, -0.0671682652580574, -0.0432832792329244, 0.0635616057013451, 0.211300236308269, 0.317767795951496]
H2 = np.array(H2 + H2[::-1]); H3 = np.array(H3 + H3[::-1])
PAIRS = {(32000, 48000): (3, 2), (24000, 48000): (2, 1), (22050, 44100): (2, 1), (16000, 48000): (3, 1)}
RATES = [48000, 44100, 32000, 29400, 24000, 22050, 16000, 14700]


def up(x, U):
    """hold each sample U times, then the prototype low-pass (unity gain at zero frequency), sample-aligned as the decoder does"""
    h = H3 if U == 3 else H2
    K = 60 // U
    D = 59 // U
    xp = np.concatenate([np.zeros(D), x])
    n = len(x)
    # P[n, p] = sum_k x[n - D + k] h[kU + p], k < K
    P = np.zeros((n, U))
    xx = np.concatenate([xp, np.zeros(K)])
    for p in range(U):
        P[:, U - 1 - p] = np.correlate(xx, h[p::U], "valid")[:n]
    out = np.zeros((n, U))
    prev = np.vstack([np.zeros((1, U)), P[:-1]])
    for i in range(U):
        out[:, i] = P[:, :i + 1].sum(axis=1) + prev[:, i + 1:].sum(axis=1)
    return out.reshape(-1)


def down2(x):
    xx = np.concatenate([np.zeros(59), x])
    return np.correlate(xx, H2, "valid")[:len(x)][::2]


def resample(x, U, Dn):
    y = np.stack([up(x[:, c], U) for c in range(x.shape[1])], axis=1)
    if Dn == 2:
        y = np.stack([down2(y[:, c]) for c in range(y.shape[1])], axis=1)
    return y


def job(a):
    kind, key, fs, ofs, cicp, n = a
    if kind == "tone":
        sc = scene(key, fs, cicp, 2, ())
        # stationary tone: one spectral line of constant magnitude, sign pattern of a steady sinusoid
        rng = random.Random(str(key))
        k = rng.randint(20, int(1024 * .75))
        sc = tone(sc, k, n)
    else:
        sc = scene(key, fs, cicp, n, ALL_TOOLS)
    return a, sc, run("plain", [(sc["bytes"], dict(pcmsz=32, outfs=ofs))])


def tone(sc, k, n):
    """code a steady sinusoid of frequency (k + .5)/1024 * fs/2 by transforming it"""
    from fdmodel import WIN
    fs = sc["fs"]
    N = 1024
    f = (k + .5) / N / 2
    t = np.arange(N * (n + 2))
    A = 6000.0
    x = A * np.sin(2 * np.pi * f * t + .3)
    w = np.concatenate([WIN[(0, 1024)], WIN[(0, 1024)][::-1]])
    n0 = (N + 1) / 2.0
    M = np.cos(np.outer(np.arange(N) + .5, np.arange(2 * N) + n0) * np.pi / N) * 2
    data = []
    ms = min(len(SFB_LONG[fs]), 63)
    top = SFB_LONG[fs][ms - 1]
    for j in range(n):
        X = M @ (x[j * N:j * N + 2 * N] * w)
        gg = 140
        q = [0] * N
        for i in range(top):
            v = X[i] / 2 ** ((gg - 100) / 4.0)
            m = int(abs(v) ** .75 + .4054)
            q[i] = m if v > 0 else -m
        c = dict(seq=ONLY_LONG, shape=0, max_sfb=ms, grouping=0, gg=gg, sf=[[gg] * 64], q=[q])
        row = []
        for e in sc["elements"]:
            if e["type"] == "CPE":
                row.append(dict(ch=[dict(c), dict(c)], common=False))
            else:
                row.append(dict(c))
        data.append(row)
    sc["data"], sc["indep"] = data, [1] + [0] * (n - 1)
    normalise(sc)
    sc["bytes"] = encode(sc)
    sc["f"] = f
    return sc


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c20")
    W = []
    for rep in range(6 if th else 1):
        for (fs, ofs) in PAIRS:
            for cicp in (1, 2, 2, 6, 7, 14, 19):
                W.append(("noise", (SEED, rep, fs, cicp, len(W)), fs, ofs, cicp, 6))
            W.append(("noise", (SEED, rep, fs, "l"), fs, ofs, 2, 30))
            for k in range(3):
                W.append(("tone", (SEED, rep, fs, k, "t"), fs, ofs, r.choice([1, 2]), 10))
        for fs in FS_ALL + [12000, 11025, 8000]:
            for ofs in RATES + [96000, 8000]:
                if (fs, ofs) not in PAIRS:
                    W.append(("refused", (SEED, rep, fs, ofs), fs, ofs, r.choice([1, 2, 6]), 5))
    for (kind, key, fs, ofs, cicp, n), sc, R in procmap(job, W):
        nm = "%s %d->%d Hz cicp %d" % (kind, fs, ofs, cicp)
        f = dict(stream_mhas=sc["bytes"])
        if not c.judge(nm, R, **f):
            continue
        i = R.i
        if i.bad:
            c.violation("valid-stream-refused", "%s: %s" % (nm, [hex(x) for x in i.bad][:3]), log=i.text, **f)
            continue
        c.saw(sc["bytes"] + str(ofs).encode(), kind, "%d->%d" % (fs, ofs), "ch%d" % sc["nch"])
        ref = sc["ref"]
        x = i.audio()
        f["log"] = i.text
        if kind == "refused":
            # never resampled: the stream's own samples at its own rate
            if i.fs != fs:
                c.violation("rate-reported", "%s: reports %d Hz without resampling" % (nm, i.fs), **f)
            d = compare(x, ref)
            if d or len(x) != len(ref) - (ATTACK if fs == 48000 else 0):
                c.violation("refused-pair-audio", "%s: output is not the stream at its own rate: %s, %d samples" % (nm, d, len(x)), **f)
            continue
        U, Dn = PAIRS[(fs, ofs)]
        if i.fs != ofs:
            c.violation("rate-reported", "%s: reports %d Hz" % (nm, i.fs), **f)
        want = len(ref) * U // Dn
        if len(x) != want or any(e["out"] not in (0, 1024 * U // Dn * 4 * sc["nch"]) for e in i.execs):
            c.violation("length", "%s: %d samples for %d input samples, expected %d" % (nm, len(x), len(ref), want), **f)
        y = resample(ref, U, Dn)
        m = min(len(x), len(y))
        tol = local_tol(y[:m], 2e-5, 2e-6)
        e = np.abs(x[:m] - y[:m]) / tol
        c.smax("worst error / tolerance", float(e.max()))
        c.stat("samples", int(x.size))
        if e.max() > 1:
            p = [int(v) for v in np.unravel_index(e.argmax(), e.shape)]
            c.violation("resampler-model", "%s: output sample %d channel %d is %.6f instead of %.6f" % (nm, p[0], p[1], x[p[0], p[1]], y[p[0], p[1]]), **f)
        if kind == "tone":
            # spectrum of the steady part
            L = 4096 * U // Dn
            s0 = 3072 * U // Dn
            for ch in range(x.shape[1]):
                seg = x[s0:s0 + L, ch] * np.blackman(L)
                rseg = ref[3072:3072 + 4096, ch] * np.blackman(4096)
                S, Rr = np.abs(np.fft.rfft(seg)) / L, np.abs(np.fft.rfft(rseg)) / 4096
                pk, rp = int(S.argmax()), int(Rr.argmax())
                if abs(pk - rp) > 1:
                    c.violation("pitch", "%s: tone at %.1f Hz comes out at %.1f Hz" % (nm, rp * fs / 4096.0, pk * fs / 4096.0), **f)
                lev = 20 * np.log10(S[pk - 1:pk + 2].max() / Rr[rp - 1:rp + 2].max())
                c.smin("lowest tone level dB", lev); c.smax("highest tone level dB", lev)
                if lev > .2 or lev < -3.5:
                    c.violation("level", "%s: tone level changes by %.2f dB" % (nm, lev), **f)
                hi = S[2048 + 240:].max() if len(S) > 2300 else 0
                im = 20 * np.log10(max(hi, 1e-9) / S[pk])
                c.smax("highest image dB", im)
                if im > -50:
                    c.violation("image", "%s: image of the tone at %.1f dB" % (nm, im), **f)
                c.stat("tones")
    c.rule = "evaluation = one stream resampled; every output sample compared with the model"
    c.min_classes = 8

"""Running the hostile-input harness (src/fuzz.c): recorded coverage-guided inputs and seeded mutations of them,
judged by AddressSanitizer, UndefinedBehaviorSanitizer and the harness's own monitors."""
import lzma, os, re, struct, subprocess, time
import vlib

PACK = os.path.join(vlib.ROOT, "corpus", "hostile.xz")


def unpack():
    p = os.path.join(vlib.tmp(), "hostile.pack")
    if not os.path.exists(p):
        open(p, "wb").write(lzma.decompress(open(PACK, "rb").read()))
    return p, struct.unpack("<I", open(p, "rb").read(4))[0]


def cases():
    p, n = unpack()
    b = open(p, "rb").read()
    q, res = 4, []
    for _ in range(n):
        l = struct.unpack_from("<I", b, q)[0]
        res.append(b[q + 4:q + 4 + l]); q += 4 + l
    return res


def key_of(err, rc):
    m = re.search(r"HARNESS-ALARM (\S+)", err)
    if m:
        return "alarm:" + m.group(1)
    return vlib.sanitizer_key(err, rc)


def chunk(exe, mode, a, b, seed, deadline, maxcrash=6):
    """mode pack: cases a..b-1; mode mut: mutation numbers a..b-1.  -> (stats, crashes, hangs)"""
    p, _ = unpack()
    cur = os.path.join(vlib.newdir(), "cur")
    st = dict(cases=0, calls=0, frames=0, errors=0, inited=0)
    crashes, hangs = [], []
    env = dict(os.environ); env.update(vlib.SANENV)
    pos = a
    while pos < b and len(crashes) < maxcrash and len(hangs) < 4 and time.time() < deadline:
        cmd = [exe, "-pack", p, cur, str(pos), str(b)] if mode == "pack" else [exe, "-mut", p, cur, str(seed), str(b), str(pos)]
        to = False
        pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)
        last = None; t_last = time.time()
        err = b""
        while True:
            try:
                _, err = pr.communicate(timeout=5)
                break
            except subprocess.TimeoutExpired:
                c = open(cur, "rb").read(8)
                if c != last:
                    last, t_last = c, time.time()
                if time.time() - t_last > 60 or time.time() > deadline:
                    to = time.time() - t_last > 60
                    pr.kill()
                    _, err = pr.communicate()
                    break
        err = err.decode("latin1")
        raw = open(cur, "rb").read()
        n, idx = struct.unpack_from("<II", raw)
        data = raw[8:8 + n]
        m = re.search(r"STATS cases=(\d+) calls=(\d+) frames=(\d+) errors=(\d+) inited=(\d+)", err)
        if pr.returncode == 0 and m:
            for k, v in zip(("cases", "calls", "frames", "errors", "inited"), m.groups()):
                st[k] += int(v)
            break
        if pr.returncode == 97:
            raise vlib.HarnessError(err)
        st["cases"] += max(0, idx - pos)
        if to:
            hangs.append(data)
        elif time.time() > deadline and pr.returncode == -9:
            break
        else:
            k = key_of(err, pr.returncode)
            crashes.append((k or "exit%s" % pr.returncode, err, data))
        pos = idx + 1
    return st, crashes, hangs

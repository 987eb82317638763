"""Shared machinery of the checks: building the monitored driver from /repo's working tree, running it on
generated streams, parsing its event log, and turning observations into verdicts and evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob, random
from concurrent.futures import ThreadPoolExecutor
import numpy as np
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.path.join(ROOT, ".build")
NP = max(2, min(8, os.cpu_count() or 8))
UB = "bounds,null,integer-divide-by-zero,vla-bound,return,unreachable,bool,enum"
SAN = "-fsanitize=address," + UB + " -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    # name: (compile flags, link flags)
    "plain": ("-O2 -g0", ""),
    "replay": ("-O1 -gline-tables-only -DREPLAY " + SAN, ""),   # for the hostile-input harness src/fuzz.c
    "cover": ("-O1 -gline-tables-only " + SAN + " -fsanitize=fuzzer-no-link", "-fsanitize=fuzzer"),
    "asan": ("-O1 -gline-tables-only " + SAN, ""),
    "tsan": ("-O1 -gline-tables-only -fsanitize=thread", ""),
    "msanreplay": ("-O1 -gline-tables-only -DREPLAY -fsanitize=memory -fno-omit-frame-pointer", ""),
    "msan": ("-O1 -gline-tables-only -fsanitize=memory -fno-omit-frame-pointer", ""),
}
SANENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:quarantine_size_mb=8:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:symbolize=1:handle_segv=1:malloc_context_size=4",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=67",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=68:report_signal_unsafe=0",
    "MSAN_OPTIONS": "exitcode=69:halt_on_error=1",
}


class HarnessError(Exception):
    pass


def _srcs(sub):
    return sorted(glob.glob(os.path.join(REPO, sub, "*.c")))


def _digest(extra=""):
    h = hashlib.sha256(extra.encode())
    for d in ("decoder", "decoder/x86_64", "test", "test/mp4"):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.[ch]"))):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(ROOT, "src", "*.c"))):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:16]


import threading
_BL = threading.Lock()


def build(variant, prog="drv"):
    with _BL:
        return _build(variant, prog)


def _build(variant, prog="drv"):
    """Compile /repo's decoder (and for prog 'tb' its command line player) plus the harness; cached by content."""
    cf, lf = VARIANTS[variant]
    tag = _digest(cf + lf + prog)
    out = os.path.join(BUILD, "%s-%s-%s" % (variant, prog, tag))
    exe = os.path.join(out, prog)
    if os.path.exists(os.path.join(out, "ok")) and os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, "%s-%s-*" % (variant, prog))):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    inc = "-D_X86_ -I%s/decoder/x86_64 -I%s/decoder -I%s/test -I%s/test/mp4" % ((REPO,) * 4)
    files = _srcs("decoder") + (_srcs("decoder/x86_64"))
    if prog == "tb":
        files += _srcs("test") + _srcs("test/mp4")

    def one(f):
        o = os.path.join(out, f[len(REPO):].strip("/").replace("/", "_")[:-2] + ".o")
        r = subprocess.run("clang -c -w %s %s %s -o %s" % (cf, inc, f, o), shell=True, capture_output=True, text=True)
        return f, o, r
    objs = []
    with ThreadPoolExecutor(NP) as ex:
        # biggest first
        for f, o, r in ex.map(one, sorted(files, key=lambda x: -os.path.getsize(x))):
            if r.returncode:
                raise HarnessError("cannot compile %s:\n%s" % (f, r.stderr[-2000:]))
            objs.append(o)
    if prog == "tb":
        cmd = "clang %s %s -o %s %s -lm" % (cf, " ".join(objs), exe, lf)
    else:
        cmd = "clang -w %s %s %s/src/%s.c %s -o %s %s -lm -lpthread" % (cf, inc, ROOT, prog, " ".join(objs), exe, lf)
    r = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("cannot link %s:\n%s" % (prog, r.stderr[-2000:]))
    for o in objs:
        os.unlink(o)
    open(os.path.join(out, "ok"), "w").write(tag)
    return exe


# ------------------------------------------------------------------ running
_TMP = None


def tmp():
    global _TMP
    if _TMP is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None
        _TMP = tempfile.mkdtemp(prefix="mpegh-verif-", dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_TMP, ignore_errors=True))
    return _TMP


_seq = [0]


def newdir():
    _seq[0] += 1
    d = os.path.join(tmp(), "c%06d_%d" % (_seq[0], random.SystemRandom().getrandbits(20)))
    os.makedirs(d)
    return d


class Inst:
    """Parsed event log of one decoder instance."""

    def __init__(self, text, pcm, ext=None):
        self.text, self.pcm, self.ext = text, pcm, ext
        self.calls = []       # dict(kind, err, in, used, done, out, ch, fs, pcm)
        self.cfg = None
        self.cfgs = []
        self.alarms = []
        self.create = None
        self.delete = None
        self.end = None
        self.exts = []
        self.allocs = []
        for l in text.splitlines():
            k, _, r = l.partition(" ")
            if k in ("init", "exec"):
                d = dict(x.split("=") for x in r.split())
                c = {a: int(b) for a, b in d.items() if a != "err"}
                c["err"] = int(d["err"], 16)
                c["kind"] = k
                self.calls.append(c)
            elif k == "cfg":
                t = r.split()
                d = dict(x.split("=") for x in t if "=" in x)
                d = {a: int(b) for a, b in d.items()}
                d["spk"] = [tuple(int(y) for y in x.split("/")) for x in t if "=" not in x]
                d["at"] = len(self.calls)
                self.cfgs.append(d)
                if self.cfg is None:
                    self.cfg = d
            elif k == "ALARM":
                self.alarms.append(r)
            elif k == "create":
                self.create = dict(x.split("=", 1) for x in r.split(" name=")[0].split())
            elif k == "delete":
                self.delete = dict(x.split("=") for x in r.split())
            elif k == "end":
                self.end = dict((a, int(b)) for a, b in (x.split("=") for x in r.split()))
            elif k == "ext":
                self.exts.append(r)
            elif k == "alloc":
                self.allocs.append(r)

    @property
    def errs(self):
        return [c["err"] for c in self.calls]

    @property
    def bad(self):
        """statuses other than success and requests for more data"""
        return [c["err"] for c in self.calls if c["err"] not in (0, 0x1000, 0x1800)]

    @property
    def nch(self):
        """channel count of the output (known for certain once audio was returned)"""
        for c in self.calls:
            if c["kind"] == "exec" and c["out"] > 0:
                return c["ch"]
        return self.cfg["ch"] if self.cfg else 0

    @property
    def fs(self):
        for c in self.calls:
            if c["kind"] == "exec" and c["out"] > 0:
                return c["fs"]
        return self.cfg["fs"] if self.cfg else 0

    @property
    def execs(self):
        return [c for c in self.calls if c["kind"] == "exec"]

    def fatal(self):
        return [c["err"] for c in self.calls if c["err"] & 0x8000]

    def audio(self, bits=None, ch=None):
        """-> float64 array [samples, channels], full scale 1.0"""
        if self.cfg is None and not ch:
            return np.zeros((0, 1))
        bits = bits or (self.cfg["pcm"] if self.cfg else 16)
        ch = ch or self.nch
        return pcm_float(self.pcm, bits, ch)


def pcm_int(b, bits, ch):
    if ch <= 0:
        return np.zeros((0, 1), dtype=np.int64)
    w = bits // 8
    n = len(b) // (w * ch)
    b = b[:n * w * ch]
    if bits == 16:
        a = np.frombuffer(b, dtype="<i2").astype(np.int64)
    elif bits == 32:
        a = np.frombuffer(b, dtype="<i4").astype(np.int64)
    else:
        x = np.frombuffer(b, dtype=np.uint8).reshape(-1, 3).astype(np.int64)
        a = x[:, 0] | (x[:, 1] << 8) | (x[:, 2] << 16)
        a = np.where(a >= 1 << 23, a - (1 << 24), a)
    return a.reshape(n, ch)


def pcm_float(b, bits, ch):
    return pcm_int(b, bits, ch) / float(1 << (bits - 1))


class Run:
    def __init__(self, rc, err, insts, cmd, dir_, timed_out):
        self.rc, self.err, self.insts, self.cmd, self.dir, self.timed_out = rc, err, insts, cmd, dir_, timed_out
        self.i = insts[0] if insts else None


def sanitizer_key(err, rc):
    """Name of a sanitizer / crash report that survives unrelated edits: kind + innermost decoder function."""
    kind = None
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        kind = m.group(2)
        if kind.startswith("SEGV") or "SEGV" in err[m.start():m.start() + 120]:
            kind = "SEGV"
    m = re.search(r"WARNING: (ThreadSanitizer|MemorySanitizer): ([\w -]+?)(?: \(|$|\n)", err)
    if m:
        kind = m.group(2).strip().replace(" ", "-")
    m2 = re.search(r"runtime error: (.*)", err)
    if kind is None and m2:
        t = m2.group(1)
        kind = "ub:" + re.sub(r"[-0-9]+", "#", t.split(" for type")[0].split(" of type")[0])[:40].strip().replace(" ", "-")
    if kind is None:
        if rc is not None and rc < 0:
            kind = "signal%d" % -rc
        elif rc == 66:
            kind = "asan-exit"
        else:
            return None
    fn = None
    for l in err.splitlines():
        m = re.match(r"\s+#\d+ 0x[0-9a-f]+ in (\w+) (\S*)", l)
        if m and (REPO + "/decoder" in m.group(2) or REPO + "/test" in m.group(2)):
            fn = m.group(1)
            break
    return "%s@%s" % (kind, fn or "?")


def run(variant, insts, glob_args=(), timeout=60, keep=False, prog="drv", env=None):
    """insts: list of (stream bytes | path, dict opts).  opts values of type bytes are written to files."""
    exe = build(variant, prog)
    d = newdir()
    cmd = [exe] + list(glob_args)
    for k, (s, o) in enumerate(insts):
        cmd.append("inst")
        if isinstance(s, (bytes, bytearray)):
            p = os.path.join(d, "in%d.mhas" % k)
            open(p, "wb").write(s)
        else:
            p = s
        cmd += ["in=" + p, "pcm=%s/o%d.pcm" % (d, k), "log=%s/o%d.log" % (d, k)]
        for a, b in o.items():
            if isinstance(b, (bytes, bytearray)):
                q = os.path.join(d, "%s%d.bin" % (a, k))
                open(q, "wb").write(b)
                b = q
            if a == "ext":
                b = "%s/o%d.ext" % (d, k)
            cmd.append("%s=%s" % (a, b))
    e = dict(os.environ); e.update(SANENV)
    if env:
        e.update(env)
    to = False
    for attempt in range(2):
        try:
            r = subprocess.run(cmd, capture_output=True, timeout=timeout * (1 + 2 * attempt), env=e)
            rc, err = r.returncode, r.stderr.decode("latin1")
            to = False
            break
        except subprocess.TimeoutExpired as ex:
            rc, err, to = None, (ex.stderr or b"").decode("latin1"), True
    if rc in (96, 97):
        raise HarnessError("driver: " + err)
    res = []
    for k in range(len(insts)):
        def rd(x, m="rb"):
            try:
                return open(os.path.join(d, x), m).read()
            except OSError:
                return b""
        res.append(Inst(rd("o%d.log" % k).decode("latin1"), rd("o%d.pcm" % k), rd("o%d.ext" % k)))
    R = Run(rc, err, res, cmd, d, to)
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    return R


def pmap(f, items, n=None):
    items = list(items)
    with ThreadPoolExecutor(n or NP) as ex:
        return list(ex.map(f, items))


def procmap(f, items, n=None, chunk=1):
    """for CPU-heavy Python work (stream generation, reference models)"""
    import multiprocessing as mp
    items = list(items)
    if len(items) < 2:
        return [f(x) for x in items]
    with mp.get_context("fork").Pool(n or NP) as p:
        return p.map(f, items, chunk)


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.viol = {}          # key -> (msg, files)
        self.evals = 0
        self.cases = set()
        self.classes = {}       # distinct situations observed -> count
        self.stats = {}
        self.samples = []
        self.inconclusive = []
        self.min_classes = 1
        self.rule = ""
        kf = os.path.join(ROOT, "known_findings.json")
        self.known = [x for x in json.load(open(kf))["findings"] if x["property"] == pid] if os.path.exists(kf) else []

    def saw(self, case, *cls, nontrivial=True):
        """one evaluation; case identifies its content, cls the situations it was seen to reach"""
        self.evals += 1
        if nontrivial:
            self.cases.add(hashlib.md5(case if isinstance(case, bytes) else repr(case).encode()).digest())
        for c in cls:
            c = str(c)
            self.classes[c] = self.classes.get(c, 0) + 1

    def stat(self, k, v=1):
        self.stats[k] = self.stats.get(k, 0) + v

    def smax(self, k, v):
        self.stats[k] = max(self.stats.get(k, v), float(v))

    def smin(self, k, v):
        self.stats[k] = min(self.stats.get(k, v), float(v))

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def violation(self, key, msg, **files):
        """files: name=bytes/str kept beside the replay description"""
        if key not in self.viol:
            self.viol[key] = (msg, files)

    def judge(self, name, R, **files):
        """common judgement of one driver run: crashes, sanitizer reports, online monitor alarms, hangs"""
        if R.timed_out:
            self.inconclusive.append(name + ": watchdog expired")
            return False
        k = sanitizer_key(R.err, R.rc)
        if k:
            self.violation(k, "%s: %s" % (name, R.err[-3000:]), **files)
            return False
        bad = False
        for i in R.insts:
            for a in i.alarms:
                self.violation("alarm:" + a, "%s: driver monitor: %s" % (name, a), log=i.text, **files)
                bad = True
        if R.rc not in (0, 3):
            raise HarnessError("driver exit %s: %s" % (R.rc, R.err[-500:]))
        return not bad

    def finish(self):
        rep = os.path.join(ROOT, "replays", self.pid)
        shutil.rmtree(rep, ignore_errors=True)
        code = 0
        hit = {}
        for key, (msg, files) in sorted(self.viol.items()):
            for kf in self.known:
                if kf["key"] == key or (kf.get("regex") and re.fullmatch(kf["regex"], key)):
                    hit[kf["key"]] = kf
                    break
            else:
                os.makedirs(rep, exist_ok=True)
                d = os.path.join(rep, re.sub(r"[^\w.-]+", "_", key)[:80])
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "what.txt"), "w").write("seed=%d tier=%s key=%s\n%s\n" % (SEED, self.tier, key, msg))
                for n, b in files.items():
                    if b is None:
                        continue
                    n = n.replace("_bin", ".bin").replace("_mhas", ".mhas")
                    open(os.path.join(d, n), "wb").write(b if isinstance(b, (bytes, bytearray)) else str(b).encode("latin1", "replace"))
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
                print("  " + msg[:600].replace("\n", "\n  "))
                code = 1
        for kf in self.known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.pid, kf["what"], "" if kf["key"] in hit else " (not re-observed in this run)"))
        nd = len(self.classes)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level,
            "coverage": {"evaluations": self.evals, "distinct_nontrivial": len(self.cases), "rule": self.rule,
                         "samples": self.samples or sorted(self.classes)[:8] or ["none"]},
            "observed": self.stats, "inconclusive": self.inconclusive[:50],
            "known_findings_hit": sorted(hit),
            "verdict": "violated" if code else ("held on what was observed"),
            "wall_s": round(time.time() - self.t0, 2),
        }
        ev["coverage"]["classes"] = dict(sorted(self.classes.items())[:200])
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        print("%s %s: %d evaluations, %d distinct situations, %d inconclusive, %.1fs -> %s" % (
            self.pid, self.tier, self.evals, nd, len(self.inconclusive), time.time() - self.t0, ev["verdict"]))
        for k, v in sorted(self.stats.items()):
            print("   %s = %s" % (k, v))
        if code == 0 and (nd < self.min_classes or len(self.inconclusive) > max(3, self.evals // 4)):
            print("check observed too little to be believed (%d classes, %d inconclusive)" % (nd, len(self.inconclusive)))
            return 2
        return code

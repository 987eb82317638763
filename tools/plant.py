#!/usr/bin/env python3
"""plant.py SPEC.py [--nocheck] : turn a bug description into seeded/<id>/ after confirming it in a scratch copy.

A spec sets ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...] and cases() -> [(stream bytes, options)], and optionally
SAN=True (the demonstration runs under sanitizers and fails on a report), GLOB (driver arguments), TWO=True (all cases in
one process), TOL (16-bit PCM steps), LOGS=False (statuses are not compared), CHECKS (other checks to try)."""
import os, sys, subprocess, shutil, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib")]
DEMO = r'''#!/bin/bash
# exit 0: the outputs are the recorded ones; 1: they differ (or a sanitizer reported)
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$R" || exit 2
F="@FLAGS@ -w -D_X86_ -I$R/decoder/x86_64 -I$R/decoder"
ls decoder/*.c decoder/x86_64/*.c 2>/dev/null | xargs -P8 -I{} sh -c 'clang -c '"$F"' {} -o '"$T"'/$(echo {} | tr / _).o' || exit 2
clang $F "$D/drv.c" "$T"/*.o -o "$T/drv" -lm -lpthread || exit 2
cd "$T" || exit 2
export ASAN_OPTIONS=detect_leaks=0:exitcode=66 UBSAN_OPTIONS=print_stacktrace=1:exitcode=67 MSAN_OPTIONS=exitcode=69 TSAN_OPTIONS=exitcode=68
rc=0
while read -r line; do
  set -- $line
  @RUN@
done < "$D/cases.txt"
@AFTER@
exit $rc
'''
CMP = r'''import sys, array
d, t, tol, logs, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
a, b = open("%s/%s.pcm" % (t, n), "rb").read(), open("%s/ref%s.pcm" % (d, n), "rb").read()
bad = None
if len(a) != len(b): bad = "PCM length %d instead of %d" % (len(a), len(b))
elif a != b:
    w = int(sys.argv[6])
    if w == 2:
        x, y = array.array("h", a), array.array("h", b)
    else:
        f = lambda s: [int.from_bytes(s[k:k + w], "little", signed=True) >> (8 * w - 16) for k in range(0, len(s), w)]
        x, y = f(a), f(b)
    m = max(abs(p - q) for p, q in zip(x, y))
    if m > tol: bad = "PCM differs by up to %d steps" % m
if logs and not bad:
    f = lambda p: [l for l in open(p).read().splitlines() if l.split(" ")[0] in ("init", "exec", "create", "cfg", "ALARM", "delete")]
    g = lambda l: " ".join(x for x in l.split() if not x.startswith(("name=", "mem", "ptr")))
    x, y = [g(l) for l in f("%s/%s.log" % (t, n))], [g(l) for l in f("%s/ref%s.log" % (d, n))]
    if x != y:
        k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        bad = "event %d: %s instead of %s" % (k, x[k:k + 1], y[k:k + 1])
if bad:
    print("case", n, ":", bad); sys.exit(1)
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    spec = {"__file__": sys.argv[1]}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), spec)
    pid = spec["ID"]
    out = os.path.join(ROOT, "seeded", pid)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    W = "/tmp/w/pl_" + pid
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    for f, a, b in spec["EDITS"]:
        p = os.path.join(W, f); s = open(p, encoding="latin1", newline="").read()
        if s.count(a) != 1:
            print("EDIT matches %d times: %s" % (s.count(a), a)); shutil.rmtree(W); sys.exit(1)
        open(p, "w", encoding="latin1", newline="").write(s.replace(a, b))
    d = sh("git diff", cwd=W).stdout
    open(out + "/patch.diff", "w").write(d)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.copy(os.path.join(ROOT, "src", "drv.c"), out + "/drv.c")
    san = spec.get("SAN", False)
    flags = "-O1 -g -fsanitize=address,bounds,null,integer-divide-by-zero -fno-sanitize-recover=all" if san is True else (san if san else "-O2")
    tol, logs = spec.get("TOL", 2), int(spec.get("LOGS", True))
    lines, width = [], []
    for k, (b, o) in enumerate(spec["cases"]()):
        open("%s/in%d.mhas" % (out, k), "wb").write(b)
        t = []
        for a, v in o.items():
            if isinstance(v, (bytes, bytearray)):
                open("%s/%s%d.bin" % (out, a, k), "wb").write(v); v = "$D/%s%d.bin" % (a, k)
            t.append("%s=%s" % (a, v))
        lines.append((k, " ".join(t))); width.append(int(o.get("pcmsz", 16)) // 8)
    g = spec.get("GLOB", "")
    if spec.get("TWO"):
        open(out + "/cases.txt", "w").write("all\n")
        run = '$T/drv %s %s' % (g, " ".join("inst in=$D/in%d.mhas pcm=$T/%d.pcm log=$T/%d.log %s" % (k, k, k, o) for k, o in lines))
        run += " >/dev/null 2>$T/err || { [ $? -ge 64 ] && { tail -5 $T/err; rc=1; }; }\n"
        if not san:
            run += "".join("  python3 $D/cmp.py $D $T %d %d %d %d || rc=1\n" % (tol, logs, k, width[k]) for k, _ in lines)
    else:
        open(out + "/cases.txt", "w").write("".join("%d %d %s\n" % (k, width[k], o) for k, o in lines))
        run = 'n=$1; w=$2; shift 2\n  eval "$T/drv %s inst in=$D/in$n.mhas pcm=$T/$n.pcm log=$T/$n.log $*" </dev/null >/dev/null 2>$T/err; e=$?\n' % g
        run += '  if [ $e -ge 60 ] || [ $e -lt 0 ]; then echo "case $n: exit $e"; grep -m3 -E "ERROR|runtime error|#[0-3] " $T/err; rc=1; continue; fi\n'
        if not san:
            run += '  python3 $D/cmp.py $D $T %d %d $n $w || rc=1\n' % (tol, logs)
    open(out + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", flags).replace("@RUN@", run).replace("@AFTER@", ""))
    os.chmod(out + "/demo.sh", 0o755)
    if not san:
        open(out + "/cmp.py", "w").write(CMP)
        # record references on the clean tree
        T = tempfile.mkdtemp()
        sh("ls decoder/*.c | xargs -P8 -I{} sh -c 'clang -O2 -w -c -D_X86_ -Idecoder/x86_64 -Idecoder {} -o %s/$(basename {}).o'; clang -O2 -w -D_X86_ -Idecoder/x86_64 -Idecoder %s/drv.c %s/*.o -o %s/drv -lm -lpthread" % (T, out, T, T), cwd="/repo")
        if spec.get("TWO"):
            sh("D=%s; %s/drv %s %s" % (out, T, g, " ".join("inst in=%s/in%d.mhas pcm=%s/ref%d.pcm log=%s/ref%d.log %s" % (out, k, out, k, out, k, o) for k, o in lines)))
        else:
            for k, o in lines:
                r = sh("D=%s; %s/drv %s inst in=%s/in%d.mhas pcm=%s/ref%d.pcm log=%s/ref%d.log %s" % (out, T, g, out, k, out, k, out, k, o))
        shutil.rmtree(T)
        print("reference sizes:", [os.path.getsize("%s/ref%d.pcm" % (out, k)) for k, _ in lines])
    r = sh("bash %s/demo.sh" % out, cwd="/repo")
    print("clean demo:", r.returncode, r.stdout[-300:], r.stderr[-300:])
    r2 = sh("bash %s/demo.sh" % out, cwd=W)
    print("patched demo:", r2.returncode, r2.stdout[-400:], r2.stderr[-300:])
    # stable tests with the change
    R = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/w/t_%s.json >/dev/null 2>&1; git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1" % (out, pid))
    t = json.load(open("/tmp/w/t_%s.json" % pid))
    print("tests:", t)
    ok = r.returncode == 0 and r2.returncode == 1 and not t["failed"] and len(t["passed"]) == 2
    print("SIZE", sh("du -sh " + out).stdout.split()[0], "OK" if ok else "NOT OK")
    if "--nocheck" not in sys.argv:
        for c in [spec["PROPERTY"]] + spec.get("CHECKS", []):
            r = sh("env -u VERIF_PY VERIF_REPO=%s VERIF_SEED=1 python3 %s/run.py %s quick" % (W, ROOT, c))
            print("check", c, r.returncode, [l[:160] for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  "))][:4], r.stderr[-200:])
    shutil.rmtree(W)


if os.environ.get("VERIF_PY") != "1":
    os.environ["VERIF_PY"] = "1"
    py = "/opt/veriftools/pyvenv/bin/python3"
    os.execv(py, [py] + sys.argv)
main()

"""C01: whatever bytes and options are presented, the library touches only its own memory and defined values.
Oracle: AddressSanitizer + UndefinedBehaviorSanitizer (bounds, null, division, ...) on the real decoder, through its public
API with 6 instance blocks allocated separately; plus the harness' own bounds on reported byte counts."""
import os, re, shutil, subprocess, time
import hostile, vlib, suite
from vlib import SEED


def main(c, tier):
    exe = vlib.build("replay", "fuzz")
    vlib.build("asan")
    _, n = hostile.unpack()
    hard = time.time() + (420 if tier == "quick" else 840)
    jobs = []
    step = max(1, n // 48 + 1)
    for lo in range(0, n, step):
        jobs.append(("pack", lo, min(n, lo + step)))
    per, blocks = (220, 24) if tier == "quick" else (1500, 96)
    for k in range(blocks):
        jobs.append(("mut", k * per, (k + 1) * per))
    if tier != "quick":
        hard = time.time() + 420

    def one(j):
        return j, hostile.chunk(exe, j[0], j[1], j[2], SEED, hard)
    for j, (st, crashes, hangs) in vlib.pmap(one, jobs):
        c.evals += st["cases"]
        for k in ("calls", "frames", "errors", "inited"):
            c.stat(k, st[k])
        c.stat(j[0] + "_cases", st["cases"])
        c.saw((j, SEED), j[0] + ":decoded" if st["frames"] else j[0] + ":refused", j[0] + ":errors" if st["errors"] else j[0] + ":clean")
        c.evals -= 1
        for key, err, data in crashes:
            if key == "alarm:no-progress" or key.startswith("alarm:consumed") or key.startswith("alarm:negative"):
                c.stat("alarms_of_C04")       # judged by C04
                continue
            c.violation(key, "hostile input (%s %d..%d): %s" % (j[0], j[1], j[2], err[-2500:]), case_bin=data)
        for d in hangs:
            c.inconclusive.append("no result within a minute (judged by C04)")
    for b in hostile.cases():
        c.cases.add(b[:64])
    # valid streams of every generator scene, intact and damaged, through the event-logging driver
    r = suite.rng_for("c01")
    th = tier != "quick"
    items = suite.mix("c01", 40 if th else 12, 5) + suite.tool_items("c01", 150 if th else 40)
    W = []
    for it in items:
        W.append((it["name"], it["bytes"], suite.opt_for(r, it)))
        for _ in range(20 if th else 5):
            W.append((it["name"] + "/damaged", suite.damage(r, it["bytes"], r.random() < .4), suite.opt_for(r, it)))

    def two(it):
        return it, vlib.run("asan", [(it[1], it[2])], timeout=60)
    for (name, data, opts), R in vlib.pmap(two, W):
        k = vlib.sanitizer_key(R.err, R.rc)
        if R.timed_out:
            c.inconclusive.append(name)
            continue
        if k:
            c.violation(k, "%s %s: %s" % (name, opts, R.err[-2500:]), stream_mhas=data)
        c.saw(data, "damaged" if "/" in name else "valid", "audio" if R.i and len(R.i.pcm) else "no-audio")
    if tier != "quick":
        campaign(c, 380)
    c.rule = "distinct case content; every case is one decoder instance driven through create/init/execute/delete"
    c.min_classes = 6
    c.sample("libFuzzer-minimised pack: %d cases; seeded mutations: %d" % (n, per * blocks))


def campaign(c, secs):
    exe = vlib.build("cover", "fuzz")
    d = vlib.newdir()
    for s in ("seeds", "corp", "crash"):
        os.makedirs(os.path.join(d, s))
    for i, b in enumerate(hostile.cases()):
        open(os.path.join(d, "seeds", "%05d" % i), "wb").write(b)
    env = dict(os.environ); env.update(vlib.SANENV)
    r = subprocess.run([exe, "-fork=%d" % vlib.NP, "-ignore_crashes=1", "-ignore_timeouts=1", "-ignore_ooms=1", "-timeout=20", "-rss_limit_mb=3000",
                        "-max_len=4000", "-max_total_time=%d" % secs, "-seed=%d" % SEED, "../corp", "../seeds"],
                       cwd=os.path.join(d, "crash"), capture_output=True, text=True, env=env, timeout=secs + 200)
    m = re.findall(r"#(\d+): cov: (\d+) ft: (\d+)", r.stderr)
    if m:
        c.stat("campaign_execs", int(m[-1][0])); c.smax("campaign_edges", int(m[-1][1])); c.smax("campaign_features", int(m[-1][2]))
    rep = vlib.build("replay", "fuzz")
    for f in sorted(os.listdir(os.path.join(d, "crash")))[:200]:
        if not f.startswith("crash-"):
            continue
        p = os.path.join(d, "crash", f)
        q = subprocess.run([rep, p], capture_output=True, env=env, timeout=120)
        e = q.stderr.decode("latin1")
        if q.returncode:
            k = hostile.key_of(e, q.returncode) or "exit"
            if k.startswith(("alarm:no-progress", "alarm:consumed", "alarm:negative")):
                c.stat("alarms_of_C04"); continue
            c.violation(k, "campaign input: " + e[-2500:], case_bin=open(p, "rb").read())

"""C09: packets without audio leave the audio unchanged."""
from suite import *
LEVEL = "metamorphic comparison over inserted packets and header encodings"


def pkt(ptype, payload, label=1, forms=(0, 0)):
    return packet(ptype, payload, label)


def extra(r, cfg, label):
    """-> (class name, bytes) of one packet that carries no audio"""
    k = r.randrange(14)
    lab = r.choice([0, 1, 2, 3, 5, 16, 17, 300])
    n = r.choice([0, 1, 2, 3, 7, 40, 200, 1000, 2046, 2047, 2048, 3000])
    body = bytes(r.getrandbits(8) for _ in range(n))
    if k == 0:
        return "sync", packet(PT_SYNC, b"\xA5", 0)
    if k == 1:
        return "fill", packet(PT_FILL, body, lab)
    if k == 2:
        return "fill0", packet(PT_FILL, b"", 0)
    if k == 3:
        return "marker", packet(PT_MARKER, bytes([r.choice([1, 2, 0x80])] + [r.getrandbits(8) for _ in range(r.randint(0, 3))]), lab)
    if k == 4:
        return "crc16", packet(PT_CRC16, bytes(r.getrandbits(8) for _ in range(2)), lab)
    if k == 5:
        return "crc32", packet(PT_CRC32, bytes(r.getrandbits(8) for _ in range(4)), lab)
    if k == 6:
        return "gcrc", packet(r.choice([PT_GCRC16, PT_GCRC32]), bytes(r.getrandbits(8) for _ in range(5)), lab)
    if k == 7:
        return "syncgap", packet(PT_SYNCGAP, body[:16], lab)
    if k == 8:
        return "user", packet(PT_USER, body, lab)
    if k == 9:
        return "desc", packet(PT_DESC, body, lab)
    if k == 10:
        return "reserved%s" % ("" if n else "0"), packet(r.choice([23, 24, 40, 100, 261, 300, 517]), body, lab)
    if k == 11:
        return "bufinfo", packet(PT_BUFINFO, bytes([0]) if r.random() < .5 else bytes([0x80, 0, 1, 2, 3]), lab)
    if k == 12:
        return "gendata", packet(PT_GENDATA, body, lab)
    return "repeated-config", packet(PT_CFG, cfg, label)


def rebuild(r, it, classes):
    pk = split_packets(it["bytes"])
    cfg = [p for p in pk if p[0] == PT_CFG][0]
    out = b""
    for p in pk:
        first = p is pk[0]
        if not first:
            for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
                nm, b = extra(r, cfg[3], cfg[1])
                # before the first configuration nothing may repeat it
                if nm == "repeated-config" and (p[0] == PT_CFG or p is pk[1]):
                    continue
                classes.add(nm)
                out += b
        out += p[2] + p[3]
    for _ in range(r.choice([0, 1])):
        nm, b = extra(r, cfg[3], cfg[1])
        if nm != "repeated-config":
            classes.add(nm); out += b
    return out


def main(c, tier):
    vlib.build("plain")
    th = tier == "thorough"
    r = rng_for("c09")
    items = mix("c09", 80 if th else 22, 8) + tool_items("c09", 200 if th else 40)
    W = []
    for it in items:
        o = opt_for(r, it)
        W.append((it, o, None, "full", ()))
        for _ in range(20 if th else 8):
            cl = set()
            b = rebuild(r, it, cl)
            W.append((it, o, b, r.choice(["full", "full", "pkt:1", "pkt:3"]), tuple(sorted(cl))))
    res = pmap(lambda a: (a, run("plain", [(a[2] or a[0]["bytes"], dict(a[1], feed=a[3]))])), W)
    ref = {a[0]["name"]: R for a, R in res if a[2] is None}
    for (it, o, b, feed, cl), R in res:
        if b is None:
            continue
        nm = "%s %s %s with %s" % (it["name"], o, feed, "+".join(cl))
        if not c.judge(nm, R, stream_mhas=b):
            continue
        q = ref[it["name"]]
        c.saw(b, *cl)
        if R.i.bad != q.i.bad:
            c.violation("statuses-differ", "%s: statuses %s instead of %s" % (nm, [hex(x) for x in R.i.bad][:5], [hex(x) for x in q.i.bad][:5]), stream_mhas=b, log=R.i.text)
        elif R.i.pcm != q.i.pcm:
            c.violation("pcm-differs", "%s: %s" % (nm, same(q.i, R.i, ("pcm",))), stream_mhas=b, log=R.i.text)
    c.rule = "evaluation = one stream with packets inserted, compared with the stream without them"
    c.min_classes = 8

"""C13: base64."""
from vlib.core import hx
from checks.hashes import data
from checks.variants import siblings


def c13(c):
    fut = c.pool.submit(c.build, "h_base64", "h_base64.cpp", ["base64.cpp"])
    c.java()
    fm = c.pool.submit(c.model, "MC_Base64")
    exe = fut.result()
    r = c.rng
    opts = [(nl, om, cs) for nl in (0, 1) for om in (0, 1) for cs in (0, 1, 2)]
    scn = []
    for nl, om, cs in opts:
        cmds = ["Encode %d %d %d %s" % (nl, om, cs, hx(data(r, n))) for n in range(0, 130 if c.quick else 400)]
        cmds += ["Encode %d %d %d %s" % (nl, om, cs, hx(r.randbytes(n))) for n in (170, 171, 172, 227, 228, 229, 570, 1000, 1539, 5700, 6000)]
        # all 6-bit values in all four positions
        cmds += ["Encode %d %d %d %s" % (nl, om, cs, hx(b"".join((v << 18 | (63 - v) << 12 | ((v + 17) & 63) << 6 | ((v * 5) & 63)).to_bytes(3, "big") for v in range(64))))]
        for g in range(0, len(cmds), 20):
            scn.append(cmds[g:g + 20])
        for _ in range(6 if c.quick else 60):
            scn.append(["Round %d %d %d %d %s" % (nl, om, cs, r.getrandbits(60), hx(data(r, r.choice([0, 1, 2, 3, 4, 5, 56, 57, 58, 59, 113, 114, 115, 116, 171, r.randrange(400)])))) for _ in range(12)])
    # every byte value as a character, alone, inside a group and at its end
    for b in range(0, 256, 8):
        cmds = []
        for v in range(b, b + 8):
            ch = bytes([v])
            cmds += ["Decode " + hx(x) for x in (ch, ch * 2, ch * 3, ch * 4, ch * 5, b"QUJD" + ch, b"QU" + ch + b"JD", ch + b"QUJDRE" + ch + b"Q", b"QUJDR" + ch, b"Q" + ch + b"UI=", b"_-+/,A" + ch)]
        scn.append(cmds)
    al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/,-_"
    for _ in range(60 if c.quick else 800):
        cmds = []
        for _ in range(10):
            n = r.randrange(0, 140)
            t = bytes(r.choice(al) if r.random() < 0.85 else r.randrange(256) for _ in range(n))
            cmds.append("Decode " + hx(t))
        scn.append(cmds)
    scn += siblings(r, [s[:3] for s in scn], 40 if c.quick else 400)
    for i in range(2 if c.quick else 12):
        nl, om, cs = r.choice(opts)
        scn.insert(0, ["Encode %d %d %d %s" % (nl, om, cs, hx(r.randbytes(r.choice([49152, 65537, 70001, 98305])))), "Round %d %d %d %d %s" % (nl, om, cs, r.getrandbits(60), hx(r.randbytes(r.choice([49153, 66000]))))])
    for n in (57, 58, 171, 340, 400, 1 << 20, (1 << 24) + 1, (1 << 24) - 1, (1 << 29) + 1) + (() if c.quick else ((1 << 28) + 2, (1 << 30) + 5, 1 << 29)):
        for nl, om, cs in r.sample(opts, 1 if n >= 1 << 29 else 2 if n > 1000 else 6):
            t = n * 4 // 3 + (n // 57 if nl else 0)
            w = sorted({0, max(0, t - 120), max(0, t - 60)} | {r.randrange(t) for _ in range(3)} | {(1 << e) - 50 for e in range(8, 30) if (1 << e) < t})
            scn.insert(0, ["EncodeLong %d %d %d %d %s" % (nl, om, cs, n, " ".join(map(str, w)))])
    c.conform(exe, "Trace_Base64", scn, what="base64")
    fm.result()


CHECKS = {"C13": c13}

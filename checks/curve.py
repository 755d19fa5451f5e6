"""C17 X25519, C18 field arithmetic."""
from vlib.core import hx
from checks.numbers import mix

P = 2 ** 255 - 19


def le(v):
    return hx((v % (1 << 256)).to_bytes(32, "little"))


def val(r, c, last=0):
    if c == "rand":
        return r.getrandbits(256)
    if c == "small":
        return r.choice([2, 9, 18, 19, 20, 37, 38, 39, 121665, r.getrandbits(32)])
    if c == "near":
        return (r.choice([0, P, 2 * P, 2 ** 255, 2 ** 256]) + r.randrange(-80, 80)) % 2 ** 256
    if c == "fold":          # products whose folded upper half overflows again
        return (2 ** 256 - 1 - r.getrandbits(r.choice([8, 33, 64, 130]))) % 2 ** 256
    if c == "word":
        return sum(r.choice([0, 0xffffffff, 1, 0x80000000]) << (32 * i) for i in range(8))
    return {"0": 0, "1": 1, "p-1": P - 1, "p": P, "p+1": P + 1, "2p-1": 2 * P - 1, "2p": 2 * P, "2p+1": 2 * P + 1, "max": 2 ** 256 - 1, "max-1": 2 ** 256 - 2,
            "2^255": 2 ** 255, "2^255-1": 2 ** 255 - 1}[c]


SMALL = [0, 1, 2, 38, 121665, 121666, 0xffffffff, 0x80000000, 0x7fffffff]
ALL = ["0", "1", "p-1", "p", "p+1", "2p-1", "2p", "2p+1", "max", "max-1", "2^255", "2^255-1", "rand", "small", "near", "fold", "word"]


def program(r, beh):
    out = []
    for a in beh:
        o = a["op"]
        if o == "Load":
            if r.random() < .1:
                out.append("Assign %d %d" % (a["r"], r.choice(SMALL)))
            else:
                out.append("Load %d %s" % (a["r"], le(val(r, a["c"]))))
        elif o in ("Add", "Sub", "Mul"):
            out.append("%s %d %d %d" % (o, a["r"], a["s"], a["t"]))
        elif o == "Small":
            out.append("Small %d %d %d" % (a["r"], a["s"], r.choice(SMALL + [r.getrandbits(32)])))
        elif o in ("Square", "Inv"):
            out.append("%s %d %d" % (o, a["r"], a["s"]))
        elif o in ("Text", "Wipe"):
            out.append("%s %d" % (o, a["s"]))
        elif o == "Reduce":
            out.append("Reduce %d" % a["r"])
        elif o == "Cmp":
            out.append("Cmp %d %d" % (a["s"], a["t"]))
        else:
            out.append("Swap %d %d %d" % (a["f"], a["r"], a["s"]))
    return out


def c18(c):
    fut = c.pool.submit(c.build, "h_field", "h_field.cpp", ["random.cpp"])
    c.java()
    fm = c.pool.submit(c.model, "MC_Field", None if c.quick else "MC_Field_deep")
    beh = c.behaviours("Gen_Field", num=400 if c.quick else 4000, depth=20)
    r = c.rng
    scn = [program(r, b) for b in beh]
    # every pair of edge values through every operation, and equality of representatives of one residue
    for x in ALL:
        for y in ALL:
            cmds = []
            for _ in range(1 if c.quick else 8):
                cmds += ["Load 1 " + le(val(r, x)), "Load 2 " + le(val(r, y)), "Add 3 1 2", "Reduce 3", "Sub 3 1 2", "Reduce 3", "Mul 3 1 2", "Reduce 3", "Cmp 1 2", "Cmp 2 1",
                         "Small 3 1 %d" % r.choice(SMALL), "Square 3 1", "Sub 3 3 2", "Mul 3 3 1"]
            scn.append(cmds)
    # every word an edge word
    for i in range(60 if c.quick else 1000):
        cmds = []
        for _ in range(8):
            cmds += ["Load 1 " + le(mix(r, 256)), "Load 2 " + le(mix(r, 256)), "Add 3 1 2", "Sub 3 1 2", "Mul 3 1 2", "Square 3 1", "Small 3 2 %d" % r.choice(SMALL), "Mul 3 3 1", "Text 3", "Cmp 1 2"]
        scn.append(cmds)
    for i in range(60 if c.quick else 2000):
        v = r.choice([r.randrange(38), r.randrange(P), P - 1 - r.randrange(40)])
        reps = [v + k * P for k in range(3) if v + k * P < 2 ** 256]
        cmds = []
        for x in reps:
            for y in reps + [(v + 1) % P, (v - 1) % P]:
                cmds += ["Load 1 " + le(x), "Load 2 " + le(y), "Cmp 1 2"]
        cmds += ["Load 1 " + le(reps[-1]), "Inv 2 1", "Mul 3 1 2", "Reduce 3"]
        scn.append(cmds)
    # sums and products chosen so that the folded carry overflows a second time
    for i in range(60 if c.quick else 2000):
        a = 2 ** 256 - 1 - r.randrange(40)
        scn.append(["Load 1 " + le(a), "Load 2 " + le(2 ** 256 - 1 - r.randrange(80)), "Add 3 1 2", "Mul 3 1 2", "Small 3 1 %d" % r.choice(SMALL), "Load 2 " + le(r.randrange(60)), "Add 3 1 2", "Sub 3 2 1", "Reduce 3"])
    c.conform(fut.result(), "Trace_Field", scn, what="field arithmetic")
    fm.result()


LOW = [0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504,
       39382357235489614581723060781553021112529911719440698176882885853963445705823, P - 1, P, P + 1,
       2 * P - 1, 2 * P, 2 * P + 1]


def c17(c):
    fut = c.pool.submit(c.build, "h_field", "h_field.cpp", ["random.cpp"])
    c.java()
    fm = c.pool.submit(c.model, "MC_Ladder", None if c.quick else "MC_Ladder_deep")
    r = c.rng
    scal = lambda: r.choice([r.getrandbits(256), r.getrandbits(256), 0, 2 ** 256 - 1, 8, 2 ** 254, 2 ** 254 + 8 * r.getrandbits(4), r.getrandbits(64), sum(r.choice([0, 0xffffffff]) << 32 * i for i in range(8))])
    us = lambda: r.choice([r.getrandbits(256), r.getrandbits(255), 9, r.choice(LOW), r.choice(LOW) | 1 << 255, P + r.randrange(20), 2 ** 255 - 1 - r.randrange(20), 2 ** 256 - 1 - r.randrange(40),
                           2 + r.getrandbits(4), r.getrandbits(32), 2 ** 255 + r.randrange(20)])
    scn = []
    for u in LOW + [x | 1 << 255 for x in LOW]:
        scn.append(["X %s %s" % (le(scal()), le(u))])
    for i in range(350 if c.quick else 6000):
        scn.append(["X %s %s" % (le(scal()), le(us()))])
    # scalars differing only in the bits that clamping overrides; u-values that agree modulo p or up to the top bit
    for i in range(20 if c.quick else 300):
        k, u = r.getrandbits(256), r.randrange(19)
        scn.append(["X %s %s" % (le(x), le(y)) for x in (k, k ^ 7, k ^ 1 << 255, k ^ 1 << 254) for y in (u, u + P, u | 1 << 255, (u + P) | 1 << 255)][:6])
    for i in range(60 if c.quick else 1000):
        scn.append(["Agree %s %s %s" % (le(scal()), le(scal()), le(r.choice([9, 9, us()])))])
    for i in range(40):
        scn.append(["NewKey " + " ".join(str(r.choice([0, 2 ** 64 - 1, r.getrandbits(64)])) for _ in range(r.randrange(6))), "Normalize " + le(scal()), "Normalize " + le(r.choice([0, 2 ** 256 - 1]))])
    # scalars and points that differ in one byte, one after the other
    k, u = r.randbytes(32), r.randbytes(32)
    for g in range(0, 32, 8):
        for f in (lambda x: ["X %s %s" % (hx(x), hx(u))], lambda x: ["X %s %s" % (hx(k), hx(x))]):
            cmds = []
            for j in range(g, g + 8):
                v = bytearray(k if f(k)[0].split()[2] == hx(u) else u)
                cmds += f(bytes(v))
                v[j] ^= r.choice([1, 8, 0x40, 0xff])
                cmds += f(bytes(v))
            scn.append(cmds)
    # iterated: k <- X(k, u), u <- k, as in RFC 7748
    c.notes["calls"] = sum(len(s) for s in scn)
    c.conform(fut.result(), "Trace_X25519", scn, what="X25519")
    fm.result()


CHECKS = {"C17": c17, "C18": c18}

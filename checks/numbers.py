"""C14: bignum."""
from vlib.core import hx

WIDTHS = [32, 64, 96, 128, 160, 192, 224, 256, 384, 512, 768, 1024, 2048, 4096, 8192]
EDGE = [0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]      # words that make and pass on carries
KW = [32, 64, 96, 128, 160, 256, 512, 2048]


def value(r, cls, bits, last=0):
    top = 1 << bits
    if cls == "zero":
        return 0
    if cls == "one":
        return 1
    if cls == "max":
        return top - 1
    if cls == "max-1":
        return top - 1 - r.randrange(1, 4)
    if cls == "top":
        return 1 << (bits - 1)
    if cls == "low32":
        return r.choice([0xffffffff, 0x80000000, 0x7fffffff, r.getrandbits(32)])
    if cls == "word":
        return r.choice([0xffffffff, 1, 0x80000000, r.getrandbits(32)]) << (32 * r.randrange(bits // 32))
    if cls == "alt":
        return sum(r.choice([0, 0xffffffff]) << (32 * i) for i in range(bits // 32))
    if cls == "carry":       # long carry chain
        k = r.randrange(1, bits + 1)
        return ((1 << k) - 1) ^ (r.choice([0, 1]))
    if cls == "sparse" and r.random() < .5:
        return mix(r, bits)
    if cls == "sparse":
        return sum(1 << r.randrange(bits) for _ in range(3)) % top
    if cls == "near":
        return (last + r.choice([-1, 0, 1, 1 << 32, -(1 << 32)])) % top
    if cls == "rand2":
        return r.getrandbits(r.randrange(1, bits + 1))
    return r.getrandbits(bits)


def mix(r, bits):
    """a number of edge words only"""
    return sum(r.choice(EDGE) << (32 * i) for i in range(bits // 32))


def modulus(r, bits, s):
    """a modulus of width K together with K"""
    k = r.choice([x for x in KW if x <= max(bits, 32) * 2])
    c = r.randrange(8)
    if c == 0:
        return k, 0
    if c == 1:
        return k, 1
    if c == 2:
        return k, (1 << k) - 1
    if c == 3:
        return k, 1 << r.randrange(k)
    if c == 4:
        return k, max(1, s % (1 << k))
    if c == 5:
        return k, max(1, r.getrandbits(min(k, 40)))
    return k, max(1, r.getrandbits(r.randrange(1, k + 1)))


def program(r, bits, beh):
    n = bits // 32
    cmds = ["Width %d" % bits]
    last = 0
    for a in beh:
        op = a["op"]
        if op == "Load":
            v = last = value(r, a["c"], bits, last)
            b = v.to_bytes(bits // 8, "little")
            k = r.randrange(7)
            if v < 1 << 32 and k < 3:
                cmds.append("%s %d %d" % (r.choice(["Word", "AssignWord"]), a["r"], v))
            elif k == 3:
                cmds.append("Words %d %s" % (a["r"], " ".join(str((v >> (32 * i)) & 0xffffffff) for i in range(n - 1, -1, -1))))
            elif k == 4 and n in (1, 2, 3, 4, 8):
                cmds.append("List %d %s" % (a["r"], " ".join(str((v >> (32 * i)) & 0xffffffff) for i in range(n - 1, -1, -1))))
            elif k == 5:     # shorter or longer byte strings
                m = r.choice([len(b.rstrip(b"\0")), r.randrange(len(b) + 1), len(b) + r.randrange(1, 9)])
                cmds.append("Load %d %s" % (a["r"], hx((b + r.randbytes(9))[:m])))
            else:
                cmds.append("Load %d %s" % (a["r"], hx(b)))
        elif op in ("AddEq", "SubEq", "XorEq", "AndEq"):
            cmds.append("%s %d %d" % (op, a["r"], a["s"]))
        elif op in ("Plus", "Minus", "Xor"):
            cmds.append("%s %d %d %d" % (op, a["r"], a["s"], a["t"]))
        elif op in ("Mul", "Eq", "Lt"):
            cmds.append("%s %d %d" % (op, a["s"], a["t"]))
        elif op == "Shl":
            cmds.append("Shl %d %d" % (a["r"], r.randrange(n + 1)))
        elif op in ("Shr1", "Neg"):
            cmds.append("%s %d" % (op, a["r"]))
        elif op in ("SetBit", "ClearBit"):
            cmds.append("%s %d %d" % (op, a["r"], r.choice([0, 31, bits - 1, r.randrange(bits), 32 % bits])))
        elif op == "SetWord":
            cmds.append("SetWord %d %d %d" % (a["r"], r.randrange(n), r.choice([0, 1, 0xffffffff, 0x80000000, r.getrandbits(32)])))
        elif op == "MulWord":
            cmds.append("MulWord %d %d" % (a["s"], r.choice([0, 1, 2, 38, 0xffffffff, 0x80000000, r.getrandbits(32)])))
        elif op == "Bit":
            cmds.append("Bit %d %d" % (a["s"], r.choice([0, 31, bits - 1, r.randrange(bits), 32 % bits])))
        elif op == "GetWord":
            cmds.append("GetWord %d %d" % (a["s"], r.randrange(n)))
        elif op == "Reduce":
            k, m = modulus(r, bits, last)
            cmds.append("Reduce %d %d %s" % (a["s"], k, hx(m.to_bytes(k // 8, "little"))))
        elif op == "Slice":
            k = r.choice([x for x in KW if x <= bits])
            cmds.append("Slice %d %d %d" % (a["s"], k, 32 * r.randrange((bits - k) // 32 + 1)))
        elif op == "Convert":
            cmds.append("Convert %d %d" % (a["s"], r.choice(KW)))
        elif op == "Swap":
            cmds.append("Swap %d %d %d" % (a["f"], a["r"], a["s"]))
        else:
            cmds.append("%s %d" % (op, a["s"]))
    return cmds


def c14(c):
    fut = c.pool.submit(c.build, "h_calc", "h_calc.cpp", ["random.cpp"])
    c.java()
    fm = c.pool.submit(c.model, "MC_Bignum", None if c.quick else "MC_Bignum_deep")
    fb = c.pool.submit(c.model, "Check_BigNat")
    beh = c.behaviours("Gen_Calc", num=80 if c.quick else 800, depth=30)
    exe = fut.result()
    r = c.rng
    scn = []
    for b in beh:
        for bits in (r.sample(WIDTHS[:12], 4) + r.sample(WIDTHS[12:], r.random() < .5) if c.quick else WIDTHS):
            scn.append(program(r, bits, b))
    # all pairs of edge values for the binary operations, small widths; every modulus length for reduction
    cl = ["zero", "one", "max", "max-1", "top", "low32", "word", "alt", "carry", "rand", "sparse"]
    for bits in (32, 64, 96, 128, 256):
        cmds = ["Width %d" % bits]
        for x in cl:
            for y in cl:
                vx, vy = value(r, x, bits), value(r, y, bits)
                cmds += ["Load 1 " + hx(vx.to_bytes(bits // 8, "little")), "Load 2 " + hx(vy.to_bytes(bits // 8, "little")),
                         "Plus 3 1 2", "Minus 3 1 2", "Mul 1 2", "Lt 1 2", "Eq 1 2"]
        scn.append(cmds)
    # numbers whose words are all edge words
    for bits, n in ((64, 60), (96, 250), (128, 250), (160, 120), (192, 120), (256, 100), (512, 40), (2048, 6)):
        for _ in range(1 if c.quick else 8):
            cmds = ["Width %d" % bits]
            for _ in range(n):
                cmds += ["Load %d %s" % (k, hx(mix(r, bits).to_bytes(bits // 8, "little"))) for k in (1, 2)]
                cmds += ["Square 1", "Mul 1 2", "Minus 3 1 2", "Plus 3 1 2", "MulWord 1 %d" % r.choice(EDGE), "Lt 1 2"]
            scn += [["Width %d" % bits] + cmds[1 + i:1 + i + 400] for i in range(0, len(cmds) - 1, 400)]
    for bits in (32, 64, 128, 160, 512, 2048):
        for k in KW if bits < 2048 else (512, 2048):
            cmds = ["Width %d" % bits]
            for ml in sorted({1, 2, 31, 32, 33, k // 2, k - 32, k - 1, k} & set(range(1, k + 1))):
                m = r.getrandbits(ml) | 1 << (ml - 1)
                for v in {value(r, "max", bits), value(r, "rand", bits), (m - 1) % (1 << bits), m % (1 << bits), (2 * m - 1) % (1 << bits), (m * r.getrandbits(16)) % (1 << bits)}:
                    cmds += ["Load 1 " + hx(v.to_bytes(bits // 8, "little")), "Reduce 1 %d %s" % (k, hx(m.to_bytes(k // 8, "little")))]
            scn.append(cmds)
    ops = {}
    for s in scn:
        for x in s:
            ops[x.split()[0]] = ops.get(x.split()[0], 0) + 1
    c.notes["operations"] = ops
    c.conform(exe, "Trace_Calc", scn, what="bignum")
    fm.result()
    fb.result()


CHECKS = {"C14": c14}

"""C15 Montgomery arithmetic, C16 primality."""
from vlib.core import hx
from checks.variants import siblings, walk
from checks.numbers import mix

W15 = [32, 64, 96, 128, 160, 256, 512, 192, 384, 1024, 2048]


def le(v, bits):
    return hx((v % (1 << bits)).to_bytes(bits // 8, "little"))


def mods(r, bits):
    top = 1 << bits
    c = [1, 3, 5, top - 1, top - 3, (top >> 1) + 1, (top >> 1) - 1, (1 << 31) - 1, (1 << 16) + 1,
         r.getrandbits(bits) | 1, (r.getrandbits(bits) | 1 | top >> 1), r.getrandbits(bits // 2) | 1, r.getrandbits(max(2, bits - 5)) | 1,
         top - 1 - 2 * r.getrandbits(4), (r.getrandbits(bits) << 32 | 1) % top, (r.getrandbits(bits) << 32 | 0xffffffff) % top,
         (top - (1 << 32) + 1) % top | 1, 9, 15, 21]
    return c


def inside(r, n, bits):
    """a residue whose representation in the machine (times 2^bits) has edge words only, reduced"""
    return mix(r, bits) % n * pow(1 << bits, -1, n) % n if n > 1 else 0


def val(r, c, n, bits):
    top = 1 << bits
    if c == "rand" and r.random() < .5:
        return inside(r, n, bits) if r.random() < .7 else mix(r, bits)
    return {"zero": 0, "one": 1, "two": 2, "n-1": n - 1, "n": n, "n+1": (n + 1) % top, "max": top - 1, "half": n // 2,
            "small": r.getrandbits(8), "rand": r.getrandbits(bits)}[c]


def program(r, bits, n, beh):
    out = ["State %d %s" % (bits, le(n, bits))]
    for a in beh:
        o = a["op"]
        if o == "In":
            out.append("In %d %s" % (a["r"], le(val(r, a["c"], n, bits), bits)))
        elif o in ("Add", "Mul"):
            out.append("%s %d %d %d" % (o, a["r"], a["s"], a["t"]))
        elif o in ("Square", "Copy"):
            out.append("%s %d %d" % (o, a["r"], a["s"]))
        elif o == "ExpW":
            out.append("ExpW %d %d %d" % (a["r"], a["s"], {"rand": r.getrandbits(32), "max": 0xffffffff, "n-1": (n - 1) & 0xffffffff, "small": r.choice([3, 17, 65537, r.getrandbits(8)])}.get(a["c"], val(r, a["c"], n, bits))))
        elif o == "ExpB":
            out.append("ExpB %d %d %s" % (a["r"], a["s"], le(val(r, a["c"], n, bits), bits)))
        elif o == "Out":
            out.append("Out %d" % a["s"])
        else:
            v = {"zero": 0, "max": n * ((1 << bits) - 1), "nR-1": (n << bits) - 1, "n": n, "rand": r.randrange(n << bits)}[a["c"]]
            out.append("Redc " + le(v, 2 * bits))
    return out


def c15(c):
    fut = c.pool.submit(c.build, "h_mont", "h_mont.cpp", ["random.cpp"])
    c.java()
    fm = c.pool.submit(c.model, "MC_Mont", None if c.quick else "MC_Mont_deep")
    beh = c.behaviours("Gen_Mont", num=130 if c.quick else 1300, depth=14)
    r = c.rng
    scn, used = [], {}
    for i, b in enumerate(beh):
        for bits in ([W15[i % 5], W15[r.randrange(len(W15))], W15[(i // 5) % 6]] if c.quick else W15):
            m = mods(r, bits)
            n = m[(i + bits) % len(m)] % (1 << bits) | 1
            used[bits] = used.get(bits, 0) + 1
            scn.append(program(r, bits, n, b))
    # all 32-bit edge moduli with edge operands
    for bits in (32, 64):
        for n in mods(r, bits):
            n = n % (1 << bits) | 1
            cmds = ["State %d %s" % (bits, le(n, bits))]
            for x in ("zero", "one", "n-1", "n", "max", "rand"):
                for y in ("one", "n-1", "max", "rand"):
                    cmds += ["In 1 " + le(val(r, x, n, bits), bits), "In 2 " + le(val(r, y, n, bits), bits), "Add 3 1 2", "Mul 3 1 2", "ExpW 3 1 %d" % (r.getrandbits(5)), "ExpB 3 1 " + le(val(r, y, n, bits), bits)]
            scn.append(cmds)
    # residues with edge words inside, at moduli with edge words and at the largest of a width
    for bits, k in ((64, 40), (96, 200), (128, 200), (160, 100), (256, 60), (512, 20)):
        for n in [(1 << bits) - 1 - 2 * r.getrandbits(4), mix(r, bits) | 1, mix(r, bits) | 1 | 1 << (bits - 1)] * (1 if c.quick else 8):
            for i in range(0, k, 20):
                cmds = ["State %d %s" % (bits, le(n, bits))]
                for _ in range(20):
                    cmds += ["In 1 " + le(inside(r, n, bits), bits), "In 2 " + le(inside(r, n, bits), bits), "Square 3 1", "Mul 3 1 2", "Add 3 1 2",
                             "Redc " + le(mix(r, 2 * bits) % (n << bits), 2 * bits)]
                scn.append(cmds)
    # two moduli in use at a time: their programs interleaved at random; moduli that share words, or width
    for i in range(40 if c.quick else 600):
        b1 = r.choice(W15[:6])
        b2 = r.choice([b1, b1, r.choice(W15[:6])])
        n1, n2 = r.choice(mods(r, b1)) % (1 << b1) | 1, r.choice(mods(r, b2)) % (1 << b2) | 1
        if b1 == b2 and i % 2:
            n2 = n1 ^ (2 << r.randrange(b1 - 1))
        p, q = program(r, b1, n1, r.choice(beh)), program(r, b2, n2, r.choice(beh))
        cmds = [p.pop(0), "Swap", q.pop(0)]
        while p and q:
            cmds.append("Swap")
            p, q = q, p
            k = r.randrange(1, 4)
            cmds += q[:k]
            del q[:k]
        scn.append(cmds)
    # moduli that differ in one byte, one after the other
    for bits in W15[:6]:
        n = r.getrandbits(bits) | 1 << (bits - 1) | 1
        ops = ["In 1 " + le(r.getrandbits(bits), bits), "Square 2 1", "ExpB 3 1 " + le(r.getrandbits(bits), bits)]
        scn.append(walk(r, lambda x: ["State %d %s" % (bits, hx(bytes([x[0] | 1]) + x[1:]))] + ops, n.to_bytes(bits // 8, "little"), 1 if bits < 200 else 3))
    c.notes["programs_per_width"] = used
    c.conform(fut.result(), "Trace_Mont", scn, what="Montgomery arithmetic")
    fm.result()


PSI = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
       318665857834031151167461, 3317044064679887385961981]
P1 = 29674495668685510550154174642905332730771991799853043350995075531276838753171770199594238596428121188033664754218345562493168782883
ARNAULT = P1 * (313 * (P1 - 1) + 1) * (353 * (P1 - 1) + 1)
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217,
              162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461,
              1193221, 1461241, 9746347772161, 1436697831295441, 60977817398996785, 7156857700403137441, 1791562810662585767521]
SPSP2 = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 104653, 130561, 196093]


def sieve(n):
    s = bytearray([1]) * (n + 1)
    s[0:2] = b"\0\0"
    for i in range(2, int(n ** .5) + 1):
        if s[i]:
            s[i * i::i] = bytes(len(s[i * i::i]))
    return [i for i in range(n + 1) if s[i]]


def mr(n, bases=(2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)):
    if n < 2:
        return False
    for p in bases:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in bases:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime_near(r, bits, low1=0):
    """a prime of that many bits whose predecessor is divisible by 2^low1"""
    while True:
        v = (r.getrandbits(bits) | 1 << (bits - 1)) >> low1 << low1 | 1
        if v.bit_length() == bits and mr(v):
            return v


def proth(r, m, bits):
    """a prime k 2^m + 1 with k odd and as small as luck allows"""
    w = 6
    while True:
        for _ in range(50):
            v = (r.getrandbits(w) | 1) << m | 1
            if mr(v):
                return v
        w = min(w + 1, bits - m)


def c16(c):
    fut = c.pool.submit(c.build, "h_mont", "h_mont.cpp", ["random.cpp"])
    c.java()
    fm = c.pool.submit(c.model, "MC_Prime", None if c.quick else "MC_Prime_deep")
    r = c.rng
    small = sieve(30000)
    scn = []

    def ask(v, widths=None):
        w = [b for b in (32, 64, 96, 128, 160, 256, 512, 1024) if (1 << b) > v]
        for b in (widths or w[:2]):
            if (1 << b) > v:
                scn.append(["IsPrime %d %s" % (b, le(v, b))])
    # everything below 7920 (the table) and well beyond, in several widths
    for bits in ((32, 96) if c.quick else (32, 64, 96, 160)):
        for lo in range(0, 16000 if c.quick else 200000, 500):
            scn.append(["Range %d %d 500" % (bits, lo)])
    for lo in (65500, 1 << 20, (1 << 31) - 600):
        scn.append(["Range 32 %d 300" % lo])
    for v in PSI + CARMICHAEL + SPSP2:
        ask(v)
    ask(ARNAULT, [1536])
    for v in (2 ** 32 - 1, 2 ** 32 - 5, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 64 - 59, 2 ** 64 - 1, 2 ** 89 - 1, 2 ** 127 - 1, 2 ** 107 - 1, 2 ** 255 - 19,
              2 ** 256 - 189, 2 ** 128 - 159, 2 ** 96 - 17, 2 ** 160 - 47, 65537, 2 ** 32 + 1, 2 ** 64 + 1, 3 * 2 ** 30 + 1, 2 ** 64 - 2 ** 32 + 1, 2 ** 96 - 1, 2 ** 130 - 5,
              2 ** 224 - 2 ** 96 + 1, 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1):
        ask(v)
    # k * 2^m + 1: long runs of squarings
    for bits, ms in ((64, (31, 32, 33, 47)), (128, (63, 64, 65, 100, 112)), (256, (126, 127, 128, 129, 200, 240)), (512, (254, 255, 256, 257, 258, 384, 496))) + \
            (() if c.quick else ((1024, (511, 512, 513, 768, 1000)),)):
        for m in ms:
            p = proth(r, m, bits)
            ask(p, [bits])
            if bits < 512:
                ask((p + (2 << m)) % (1 << bits), [bits])     # mostly composite
                h = min(m, bits - 16) // 2
                ask(proth(r, h, bits // 2) * proth(r, h, bits // 2), [bits])        # p - 1 and q - 1 are as even as pq - 1
    if not c.quick:
        ask(2 ** 521 - 1)
        ask(2 ** 1024 - 105)
    n = 12 if c.quick else 100
    for bits in (32, 64, 96, 128, 160, 256):
        for _ in range(n):
            p = prime_near(r, bits, r.choice([0, 0, 2, 5, 16, bits // 2, bits - 24]) if bits > 32 else r.choice([0, 3]))
            ask(p, [bits])
            ask(p ^ 2, [bits])
            q = r.choice(small[1:])
            ask(p // q * q | 1, [bits])                       # composite with a small factor (mostly)
            h = bits // 2
            x = prime_near(r, h)
            ask(x * prime_near(r, h), [bits])                 # semiprime
            ask(x * x, [bits])                                # square of a prime
            for k in (2, 3, 4, 5):                            # p (k (p-1) + 1): likely pseudoprimes
                y = k * (x - 1) + 1
                if (x * y) >> bits == 0:
                    ask(x * y, [bits])
            ask(r.getrandbits(bits) & ~1, [bits])             # even
    # strong pseudoprimes to base 2, 3, 5, ... searched among p * (k (p-1) + 1)
    found = 0
    for _ in range(4000 if c.quick else 60000):
        p = r.choice(small[1000:])
        for k in (2, 3, 4, 5, 6):
            q = k * (p - 1) + 1
            v = p * q
            if mr(v, r.choice([(2,), (3,), (2, 3), (5,), (7,), (2, 5)])) and not mr(v):
                found += 1
                if found < (150 if c.quick else 3000):
                    ask(v, [r.choice([32, 64, 128]) if v < 1 << 32 else 64])
    # generation: free running and with injected draws, among them near misses
    for bits in ((32, 64, 128, 256) if c.quick else (32, 64, 128, 256, 512)):
        for strict in (0, 1):
            for i in range(10 if bits < 256 else 2):
                inj = [str(r.getrandbits(64)) for _ in range(r.choice([0, 1, 2, 4 * (bits // 64 + 1), 40]))]
                scn.append(["Generate %d %d %s" % (bits, strict, " ".join(inj))])
            for v in (0, 2 ** 64 - 1, 2 ** 63, 341550071728321, 3825123056546413051, 1, 65280):
                k = max(1, bits // 64)
                scn.append(["Generate %d %d %s" % (bits, strict, " ".join([str(v)] + ["0"] * (k - 1)))])
    # the strong pseudoprimes with the top bit set (and the second one) as first candidate
    for v in (4759123141, 3215031751):
        scn.append(["Generate 32 0 %d" % v])
    c.rng.shuffle(scn)
    # several questions per trace
    grp = [sum(scn[i:i + 4], []) for i in range(0, len(scn), 4)]
    c.notes["questions"] = len(scn)
    c.notes["strong_pseudoprimes_found"] = found
    c.conform(fut.result(), "Trace_Prime", grp, what="primality")
    fm.result()


CHECKS = {"C15": c15, "C16": c16}

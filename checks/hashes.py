"""C01 C02 C03 C04: hash objects."""
import hashlib
from vlib.core import CheckError, hx
from checks.variants import siblings

SRC = ["md5.cpp", "sha1.cpp", "sha2.cpp", "sha3.cpp", "crc.cpp", "hash.cpp"]
BLOCK = {"md5": (64, 8), "sha1": (64, 8), "sha224": (64, 8), "sha256": (64, 8), "sha384": (128, 16), "sha512": (128, 16),
         "sha3-224": (144, 0), "sha3-256": (136, 0), "sha3-384": (104, 0), "sha3-512": (72, 0), "crc32": (16, 0)}
NAMES = {"md5": ["md5"], "sha1": ["sha1", "sha"], "sha224": ["sha224", "sha2-224"], "sha256": ["sha256", "sha2-256"],
         "sha384": ["sha384", "sha2-384"], "sha512": ["sha512", "sha2-512"], "sha3-224": ["sha3-224"],
         "sha3-256": ["sha3-256"], "sha3-384": ["sha3-384"], "sha3-512": ["sha3-512"]}


def data(rng, n):
    k = rng.randrange(8)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return b"\x80" * n
    if k == 3 and n:                    # one bit, or all but one
        v = bytearray(rng.choice([b"\0", b"\xff"]) * n)
        v[rng.randrange(n)] ^= 1 << rng.randrange(8)
        return bytes(v)
    return rng.randbytes(n)


def position(rng, cls, alg):
    b, l = BLOCK[alg]
    if l == 0:          # sponge: only the last byte of a block is special
        return {"start": 0, "one": 1, "mid": rng.randrange(2, b - 2), "lastfit": b - 2, "nofit": rng.choice([b - 3, b // 2, b // 2 + 4]), "last": b - 1}[cls]
    return {"start": 0, "one": 1, "mid": rng.randrange(2, b - l - 2), "lastfit": b - l - 1, "nofit": rng.choice([b - l, b - l + 1, b - 2]), "last": b - 1}[cls]


def concretise(rng, alg, beh, new):
    """A behaviour of Gen_Hash as harness commands."""
    b, _ = BLOCK[alg]
    ln = {1: 0}
    cmds = [new]
    init = 0
    for a in beh:
        o = a["o"]
        if a["act"] == "Add":
            p = position(rng, a["to"], alg)
            n = (p - ln[o]) % b + a["w"] * b
            if n == 0 and rng.random() < 0.7:
                n = b
            cmds.append("Add %d %s %d" % (o, hx(data(rng, n)), rng.randrange(2)))
            ln[o] += n
            if rng.random() < 0.6:
                cmds.append("Read %d" % o)
        elif a["act"] == "Empty":
            cmds.append("Add %d - %d" % (o, rng.randrange(2)))
        elif a["act"] == "Read":
            cmds.append("Read %d" % o)
        elif a["act"] in ("Copy", "Assign"):
            cmds.append("%s %d %d" % (a["act"], o, a["p"]))
            ln[a["p"]] = ln[o]
            cmds.append("Read %d" % a["p"])
    for o in sorted(ln):
        cmds.append("Read %d" % o)
    return cmds


def lengths(rng, alg, step, upto):
    """one trace per group of message lengths 0..upto, each hashed in one piece"""
    out = []
    for base in range(0, upto, 16):
        cmds = []
        for n in range(base, min(base + 16, upto), step):
            cmds += ["New 1 %s %s" % (alg, hx(data(rng, n))), "Read 1"]
        out.append(cmds)
    return out


def bytewise(rng, alg, n):
    cmds = ["New 1 %s" % alg]
    for i in range(n):
        cmds += ["Add 1 %s" % hx(rng.randbytes(1)), "Read 1"]
    return cmds


def objects(c, algs, long_quick, long_thorough):
    fut = c.pool.submit(c.build, "h_hash", "h_hash.cpp", SRC)
    c.java()
    fm = c.pool.submit(c.model, "MC_Hash")
    num = (40 if c.quick else 400)
    beh = c.behaviours("Gen_Hash", num=num, depth=14 if c.quick else 24)
    exe = fut.result()
    scn = []
    for alg in algs:
        for b in beh:
            scn.append(concretise(c.rng, alg, b, "New 1 %s" % alg if c.rng.random() < 0.7 else "New 1 %s -" % alg))
        scn += lengths(c.rng, alg, 1, 300 if c.quick else 700)
        scn.append(bytewise(c.rng, alg, 2 * BLOCK[alg][0] + 3))
        # a few longer messages in one piece, many blocks per call
        for n in ((1021, 4096, 20000) if c.quick else (1021, 4096, 20000, 65536, 100003)):
            d = data(c.rng, n)
            k = c.rng.randrange(n)
            scn.append(["New 1 %s" % alg, "Add 1 " + hx(d[:k]), "Read 1", "Add 1 " + hx(d[k:]), "Read 1"])
        scn.append(["New 1 %s %s" % (alg, hx(data(c.rng, 77))), "Info 1"])
        # constructed from several pieces
        for _ in range(10 if c.quick else 100):
            k = [hx(data(c.rng, c.rng.choice([0, 1, 7, 63, 64, 65, 130, c.rng.randrange(200)]))) for _ in range(c.rng.choice([2, 3, 3]))]
            scn.append(["New 1 %s %s" % (alg, " ".join(k)), "Read 1", "Add 1 " + hx(data(c.rng, 70)), "Read 1"])
        # (negative: in one piece)
        for n in (long_quick if c.quick else long_thorough)(alg):
            scn.insert(0, ["New 1 %s" % alg, "AddLong 1 %d %d" % (abs(n), 1 << 40 if n < 0 else c.rng.choice([65536, 1 << 20, 99991])), "Read 1", "Read 1"])
    trans = {(a["from"], a["to"], a["w"]) for b in beh for a in b if a["act"] == "Add"}
    c.notes["abstract_add_transitions_covered"] = "%d of %d" % (len(trans), 6 * 6 * 3)
    for alg in algs:
        scn += siblings(c.rng, [s for s in scn if s[0].startswith("New 1 " + alg)], 6 if c.quick else 60)
    c.conform(exe, "Trace_Hash", scn, what="hash objects", env={"VH_LIMIT": "250"})
    fm.result()


L29, L32 = (1 << 29) + 13, (1 << 32) + 77


def c01(c):
    objects(c, ["md5", "sha1", "sha224", "sha256", "sha384", "sha512"],
            lambda a: [-L29, L29, -L32] if a in ("md5", "sha1") else [-L29, -L32],
            lambda a: [-L29, L29, -L32, L32])


def c02(c):
    objects(c, ["sha3-224", "sha3-256", "sha3-384", "sha3-512"], lambda a: [-L32, L29] if a == "sha3-224" else [-L29, -L32], lambda a: [-L29, L29, -L32, L32])


def c03(c):
    objects(c, ["crc32"], lambda a: [L29, -L29, -L32], lambda a: [L29, -L29, -L32, L32])


def c04(c):
    fut = c.pool.submit(c.build, "h_hash", "h_hash.cpp", SRC)
    c.java()
    fm = c.pool.submit(c.model, "MC_Hash")
    beh = c.behaviours("Gen_Hash", num=8 if c.quick else 120, depth=12)
    beh = [[a for a in b if a["act"] not in ("Copy", "Assign") and a["o"] == 1] for b in beh]
    exe = fut.result()
    scn = []
    for alg, names in NAMES.items():
        for nm in names:
            h = hx(nm.encode())
            scn.append(["Named 1 %s" % h, "Info 1", "Read 1", "Add 1 616263", "Info 1", "Read 1"])
            scn.append(["Named 1 %s %s" % (h, hx(data(c.rng, 200))), "Read 1", "Info 1", "Add 1 %s 1" % hx(data(c.rng, 99)), "Read 1"])
            for b in beh:
                scn.append(concretise(c.rng, alg, b, "Named 1 %s" % h))
    # two objects of different algorithms side by side
    al = sorted(NAMES)
    for i, a in enumerate(al):
        b = al[(i + 3) % len(al)]
        scn.append(["Named 1 " + hx(NAMES[a][-1].encode()), "Named 2 " + hx(NAMES[b][0].encode()),
                    "Add 1 " + hx(data(c.rng, 150)), "Add 2 " + hx(data(c.rng, 75)), "Read 1", "Read 2", "Add 1 00", "Read 2", "Read 1"])
    # names that are not offered
    known = [n for v in NAMES.values() for n in v]
    bad = {"", " ", "none", "MD5", "SHA256", "Sha1", "md4", "md6", "sha0", "sha2", "sha3", "sha-1", "sha-256", "sha2-", "sha3-", "sha3_256",
           "sha3-128", "sha512/256", "sha512-256", "sha2-1", "sha21", "crc32", "CRC32", "shake128", "sha3256", "sha3224", "sha2224", "sha2256",
           "sha3384", "sha3512", "sha3-2", "sha128", "sha160", "sha2-160", "ripemd160", "blake2b", "sha1\0", "md5\0x", "\0"}
    for n in known:
        bad |= {n[:-1], n + " ", " " + n, n + "x", n + "\0", n.upper(), n[1:], n.replace("sha", "shb"), n.capitalize(), n + n}
        for i in range(len(n)):
            bad.add(n[:i] + chr(ord(n[i]) ^ 1) + n[i + 1:])
            bad.add(n[:i] + n[i + 1:])
    bad = sorted(b for b in bad if b not in known)
    for i in range(0, len(bad), 20):
        scn.append(["Named 1 %s" % hx(b.encode("latin1")) for b in bad[i:i + 20]])
    c.notes["refused_names_tried"] = len(bad)
    scn += siblings(c.rng, scn, 20 if c.quick else 200, skip=("Named",))
    c.conform(exe, "Trace_Hash", scn, what="hashes by name")
    fm.result()


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}

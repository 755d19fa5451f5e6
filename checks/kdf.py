"""C05 C06 C07: HMAC, HKDF, TLS 1.3 key schedule."""
from vlib.core import hx
from checks.hashes import BLOCK, data
from checks.variants import siblings, walk

SRC = ["md5.cpp", "sha1.cpp", "sha2.cpp", "sha3.cpp", "aes.cpp"]
ALGS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"]
HLEN = {"md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64,
        "sha3-224": 28, "sha3-256": 32, "sha3-384": 48, "sha3-512": 64}


def group(cmds, n):
    return [cmds[i:i + n] for i in range(0, len(cmds), n)]


def hmac_lens(alg):
    b, h = BLOCK[alg][0], HLEN[alg]
    return sorted({0, 1, h - 1, h, h + 1, b // 2, b - 1, b, b + 1, b + h, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b + 5, 64, 65, 63, 128, 129, 127})


def c05(c):
    exe = c.build("h_kdf", "h_kdf.cpp", SRC)
    scn = []
    for alg in ALGS:
        b = BLOCK[alg][0]
        cmds = []
        for k in hmac_lens(alg):
            msgs = sorted({0, 1, b - 1, b, b + 1, c.rng.randrange(300), c.rng.randrange(60), b - 9, b - 17, 55, 56, 64})
            if c.quick:
                msgs = c.rng.sample(msgs, 5)
            for m in msgs:
                cmds.append("Hmac %s %s %s" % (alg, hx(data(c.rng, k)), hx(data(c.rng, m))))
        # every key length around the block, every message length up to two blocks
        for k in range(0, 2 * b + 2, 1):
            cmds.append("Hmac %s %s %s" % (alg, hx(c.rng.randbytes(k)), hx(c.rng.randbytes(c.rng.randrange(40)))))
        for m in range(0, (b + 20) if c.quick else 3 * b):
            cmds.append("Hmac %s %s %s" % (alg, hx(c.rng.randbytes(c.rng.randrange(2 * b))), hx(c.rng.randbytes(m))))
        cmds.append("Hmac %s %s %s" % (alg, hx(c.rng.randbytes(1000)), hx(c.rng.randbytes(5000))))
        # keys with trailing zeros collide in HMAC only by padding: they must be handled as given
        cmds.append("Hmac %s %s %s" % (alg, hx(bytes(b)), "-"))
        cmds.append("Hmac %s %s %s" % (alg, hx(bytes(b + 1)), "-"))
        scn += group(cmds, 24)
        # near copies of a key and of a message, one after the other
        for n in (HLEN[alg], b, b + 7):
            k, m = c.rng.randbytes(n), c.rng.randbytes(20)
            scn.append(walk(c.rng, lambda x: ["Hmac %s %s %s" % (alg, hx(x), hx(m))], k, 5 if c.quick else 1))
            scn.append(walk(c.rng, lambda x: ["Hmac %s %s %s" % (alg, hx(k), hx(x))], m, 3))
    # messages for which 32 bits do not hold the length, in bits or in bytes
    for alg in ALGS:
        scn.append(["HmacLong %s 1000" % alg])
        if alg in ("md5", "sha256", "sha384", "sha3-512") or not c.quick:
            scn.insert(0, ["HmacLong %s %d" % (alg, (1 << 29) + 13)])
        if alg == "sha256" or (alg == "sha3-256" and not c.quick):
            scn.insert(0, ["HmacLong %s %d" % (alg, (1 << 32) + 77)])
    scn.insert(0, ["Hmac sha256 %s %s" % (hx(c.rng.randbytes(65537)), hx(c.rng.randbytes(10))), "Hmac sha3-384 %s %s" % (hx(c.rng.randbytes(10)), hx(c.rng.randbytes(65536))),
                   "Hmac sha1 %s %s" % (hx(c.rng.randbytes(300)), hx(c.rng.randbytes(70000)))])
    for alg in ALGS:
        scn.insert(0, ["Hmac %s %s %s" % (alg, hx(c.rng.randbytes(c.rng.choice([256, 257, 300, 512, 1024, 4096]))), hx(c.rng.randbytes(c.rng.choice([256, 512, 1024, 2048, 4096, 8192, 10000])))) for _ in range(4 if c.quick else 40)])
    c.conform(exe, "Trace_KDF", scn, env={"VH_LIMIT": "250"}, what="HMAC")


def c06(c):
    exe = c.build("h_kdf", "h_kdf.cpp", SRC)
    r = c.rng
    scn = []
    for alg in ALGS:
        b, h = BLOCK[alg][0], HLEN[alg]
        cmds = []
        for s in (0, 1, h - 1, h, h + 1, b - 1, b, b + 1, 2 * b + 3):
            for k in (0, 1, h, b, 3 * b + 1):
                cmds.append("Extract %s %s %s" % (alg, hx(data(r, s)), hx(data(r, k))))
        for n in sorted({0, 1, 2, h - 1, h, h + 1, 2 * h - 1, 2 * h, 2 * h + 1, 3 * h, 3 * h + 7, r.randrange(500), 255, 256, 257}):
            for i in ((0, r.randrange(1, 80)) if c.quick else (0, 1, 10, r.randrange(1, 80), b, 300)):
                cmds.append("Expand %s %s %s %d" % (alg, hx(data(r, r.choice([h, h, 1, 0, b + 5]))), hx(data(r, i)), n))
        for n in sorted({0, 1, 12, 16, h, h + 1, 2 * h, 255, 256, 300, 4 * h - 1}):
            for lab in (b"", b"key", b"c hs traffic", r.randbytes(r.randrange(1, 249)), bytes(249)):
                for ctx in (b"", data(r, h), data(r, 255)):
                    if c.quick and r.random() < 0.6:
                        continue
                    cmds.append("ExpandLabel %s %s %s %s %d" % (alg, hx(data(r, h)), hx(lab), hx(ctx), n))
        scn += group(cmds, 16)
        # longest output, and the counter byte at its upper end
        big = [255 * h, 255 * h - 1, 254 * h + 1, 128 * h, 127 * h + 1, 129 * h]
        for n in (big[:1] + [r.choice(big[1:])] if c.quick else big):
            scn.insert(0, ["Expand %s %s %s %d" % (alg, hx(data(r, h)), hx(data(r, r.randrange(20))), n)])
        if not c.quick:
            scn.insert(0, ["ExpandLabel %s %s 6b6579 - %d" % (alg, hx(data(r, h)), 255 * h)])
    # long salts, key material, infos, contexts
    for alg, n in (("sha256", 70001), ("sha512", 65536), ("sha384", 3000), ("md5", 65537), ("sha3-256", 5000), ("sha1", 1 << 18 if not c.quick else 66000)):
        h = HLEN[alg]
        scn.insert(0, ["Extract %s %s %s" % (alg, hx(data(r, h)), hx(r.randbytes(n))), "Expand %s %s %s %d" % (alg, hx(data(r, h)), hx(r.randbytes(n)), h + 3)])
        scn.insert(0, ["Extract %s %s %s" % (alg, hx(r.randbytes(n)), hx(data(r, h))), "Expand %s %s %s %d" % (alg, hx(r.randbytes(n)), hx(data(r, 9)), h - 1)])
        scn.append(["Expand %s %s %s %d" % (alg, hx(data(r, h)), hx(data(r, i)), k) for i in (255, 256, 257, 300, 511, 512, 600, 1000) for k in (h, 3 * h)])
    scn += siblings(r, [[x for x in s if int(x.split()[-1] if x.split()[-1].isdigit() and len(x.split()[-1]) < 6 else 0) < 400][:3] for s in scn if len(s) > 1], 40 if c.quick else 400)
    c.conform(exe, "Trace_KDF", scn, what="HKDF")


def schedule_cmds(r, alg, beh):
    h = HLEN[alg]
    th = [data(r, h) for _ in range(2)]
    cmds = []
    live = []
    for a in beh:
        i = a["i"]
        t = hx(r.choice(th + [b""]) if r.random() < 0.95 else r.randbytes(r.randrange(256)))
        act = a["act"]
        if act == "Handshake":
            cmds.append("Handshake %d %s %s" % (i, alg, hx(data(r, r.choice([32, 32, 48, 0, 1, 66, 133, 256])))))
            live.append(i)
        elif act == "FromBytes":
            cmds.append("FromBytes %d %s %s" % (i, alg, hx(data(r, h))))
            live.append(i)
        elif act in ("Master", "Update"):
            cmds.append("%s %d %d" % (act, i, a["j"]))
            live.append(a["j"])
        elif act == "Traffic":
            cmds.append("Traffic %d %s %d %d" % (i, t, a["c"], a["hs"]))
        elif act == "KeyIv":
            cmds.append("KeyIv %d %s %d %d %d %d" % (i, t, a["c"], a["hs"], r.choice([128, 256]), r.randrange(2)))
        elif act == "Finished":
            cmds.append("Finished %d %s %d" % (i, t, a["c"]))
        else:
            cmds.append("%s %d %s" % (act, i, t))
    for i in sorted(set(live)):
        cmds.append("Secret %d" % i)
    return cmds


def c07(c):
    fut = c.pool.submit(c.build, "h_kdf", "h_kdf.cpp", SRC)
    c.java()
    fm = c.pool.submit(c.model, "MC_KeySchedule")
    beh = c.behaviours("Gen_KeySchedule", num=24 if c.quick else 200, depth=16 if c.quick else 24)
    exe = fut.result()
    algs = ALGS if not c.quick else ["sha256", "sha384"] * 3 + ["sha1", "md5", "sha224", "sha512", "sha3-256", "sha3-384", "sha3-512", "sha3-224"]
    scn = []
    for k, b in enumerate(beh):
        for alg in (algs if not c.quick else [algs[(5 * k + j) % len(algs)] for j in range(5)]):
            scn.append(schedule_cmds(c.rng, alg, b))
    # a full handshake of each hash, with every derivation, and a chain of updates
    for alg in ALGS:
        h = HLEN[alg]
        t1, t2 = hx(data(c.rng, h)), hx(data(c.rng, h))
        cmds = ["Handshake 1 %s %s" % (alg, hx(c.rng.randbytes(32)))]
        for cl in (0, 1):
            for hs in (0, 1):
                cmds += ["Traffic 1 %s %d %d" % (t1, cl, hs), "KeyIv 1 %s %d %d 128" % (t1, cl, hs), "KeyIv 1 %s %d %d 256 1" % (t1, cl, hs)]
            cmds.append("Finished 1 %s %d" % (t1, cl))
        cmds += ["Master 1 2", "Secret 1", "KeyIv 2 %s 0 0 256 1" % t2, "KeyIv 2 %s 1 0 128 1" % t2, "Exporter 2 %s" % t2, "Resumption 2 %s" % t2, "Secret 2"]
        for _ in range(6 if c.quick else 40):
            cmds += ["Update 2 2"]
        cmds += ["Update 2 3", "Secret 2", "Secret 3", "Secret 1"]
        scn.append(cmds)
    scn += siblings(c.rng, scn, 30 if c.quick else 300, size=6000)
    c.conform(exe, "Trace_KDF", scn, what="TLS 1.3 key schedule")
    fm.result()


CHECKS = {"C05": c05, "C06": c06, "C07": c07}

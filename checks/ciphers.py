"""C08 C09 C10 C11 C12: AES, GCM, CTR, ChaCha20."""
from vlib.core import hx, CheckError
from checks.hashes import data
from checks.variants import siblings, walk

SRC = ["aes.cpp"]


def build(c):
    return c.build("h_cipher", "h_cipher.cpp", SRC)


def keyof(r, bits):
    return data(r, bits // 8)


def c08(c):
    c.java()
    fm = c.pool.submit(c.model, "Check_Words")
    exe = build(c)
    r = c.rng
    scn = []
    for bits in (128, 256):
        nb = bits // 8
        # walking key bits and walking block bits exercise every S-box input and every key-schedule position
        for base in range(0, bits, 16):
            cmds = []
            for i in range(base, base + 16):
                k = bytearray(nb)
                k[i // 8] |= 0x80 >> (i % 8)
                cmds += ["AesKey 1 %d %s" % (bits, hx(k)), "AesEnc 1 " + hx(bytes(16))]
            scn.append(cmds)
        for base in range(0, 128, 16):
            cmds = ["AesKey 1 %d %s" % (bits, hx(bytes(nb)))]
            for i in range(base, base + 16):
                b = bytearray(16)
                b[i // 8] |= 0x80 >> (i % 8)
                cmds.append("AesEnc 1 " + hx(b))
            scn.append(cmds)
        # every byte value in key and block positions
        for v in range(0, 256, 8):
            scn.append([x for j in range(8) for x in ("AesKey 1 %d %s" % (bits, hx(bytes([v + j]) * nb)), "AesEnc 1 " + hx(bytes([255 - v - j]) * 16))])
        for _ in range(80 if c.quick else 1500):
            cmds = []
            for _ in range(6):
                cmds.append("AesKey %d %d %s" % (r.randrange(1, 3), bits, hx(keyof(r, bits))))
                for _ in range(r.randrange(1, 4)):
                    cmds.append("AesEnc %s %s" % (cmds[-1].split()[1] if cmds[-1].startswith("AesKey") else r.choice([x.split()[1] for x in cmds]), hx(data(r, 16))))
            scn.append(cmds)
        # several schedules interleaved
        cmds = ["AesKey %d %d %s" % (i, b, hx(keyof(r, b))) for i, b in ((1, 128), (2, 256), (3, bits), (4, bits))]
        for _ in range(40):
            cmds.append("AesEnc %d %s" % (r.randrange(1, 5), hx(data(r, 16))))
        scn.append(cmds)
        # keys (and blocks) that differ in one byte, one after the other, every position
        k = r.randbytes(nb)
        for o in (1, 2):
            scn.append(walk(r, lambda x: ["AesKey %d %d %s" % (o, bits, hx(x)), "AesEnc %d %s" % (o, "11" * 16)], k))
        scn.append(["AesKey 1 %d %s" % (bits, hx(k))] + walk(r, lambda x: ["AesEnc 1 " + hx(x)], r.randbytes(16)))
        # wrong key sizes
        bad = [n for n in range(0, 70) if n != nb] + [100, 128, 256, 1000]
        scn.append(["AesKey 1 %d %s" % (bits, hx(data(r, n))) for n in bad])
    c.conform(exe, "Trace_Cipher", scn, what="AES")
    fm.result()


GLENS = [0, 1, 2, 7, 8, 12, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257]


def spots(r, n, unit=16):
    """positions near the powers of two of the unit count, the ends, and anywhere"""
    w = {0, max(0, n - 40), max(0, n - 1)} | {r.randrange(n) for _ in range(4)}
    for e in range(8, 33, 4):
        w |= {x for x in ((unit << e) - 20, 1 << e, (1 << e) - 20) if 0 <= x < n}
    return " ".join(map(str, sorted(w)))


LONG = {"VH_LIMIT": "250"}


def gcm_long(c, r):
    """messages and additional data from megabytes to half a gigabyte, nearly all zeros; right and wrong tags"""
    scn = []
    sizes = [((1 << 20) + 5, 7, 0), ((1 << 16) * 16 * 2, 0, 0), (100, 1 << 20, 0), ((1 << 24) + 3, 0, 0), (33, (1 << 29) + 1, 0), ((1 << 29) + 17, 3, 0), ((1 << 20) + 70, 0, 0xffff0001), (3 << 20, 5, 0xfffffff0)]
    if not c.quick:
        sizes += [((1 << 28) + 1, 0, 0), (5, 1 << 28, 0), (1 << 20, 1 << 20, 0), ((1 << 25) - 1, 40, 0), ((3 << 29) + 2, 2, 0)]
    for i, (nt, na, low) in enumerate(sizes):
        bits = (128, 256)[(i + c.seed) % 2]
        k = r.randbytes(bits // 8)
        iv = solve_iv(k, r.randbytes(12) + low.to_bytes(4, "big")) if low else r.randbytes(12)
        t, a, n = r.randbytes(r.randrange(40)), r.randbytes(r.randrange(40)), r.choice([0, 3, 255])
        cmd = "GcmLong 1 %s %d %s %d %%s %s" % (hx(t), nt, hx(a), na, spots(r, nt + len(t)))
        scn.append(["GcmNew 1 %d %s %s" % (bits, hx(k), hx(iv)), cmd % hx(bytes(16))])
    return scn


def c09(c):
    exe = build(c)
    r = c.rng
    scn = []
    for bits in (128, 256):
        # message and additional data of every length class
        pairs = [(p, a) for p in GLENS[:20] for a in GLENS[:20]]
        r.shuffle(pairs)
        pairs = pairs[:120 if c.quick else 400] + [(p, r.choice(GLENS)) for p in range(0, 70)] + [(r.choice(GLENS), a) for a in range(0, 70)]
        pairs += [(1000, 77), (r.randrange(2000), r.randrange(3000)), (4096, 16), (4095, 1)]
        for p, a in pairs:
            k, iv, pt, ad = hx(keyof(r, bits)), hx(data(r, 12)), data(r, p), data(r, a)
            scn.append(["GcmNew 1 %d %s %s" % (bits, k, iv), "GcmEnc 1 %s %s" % (hx(pt), hx(ad))])
        # every IV length
        for n in list(range(0, 66)) + [80, 96, 127, 128, 129, 255, 256, 300, 1000]:
            for _ in range(1 if c.quick else 4):
                k, iv = hx(keyof(r, bits)), hx(data(r, n))
                scn.append(["GcmNew 1 %d %s %s" % (bits, k, iv), "GcmEnc 1 %s %s" % (hx(data(r, r.choice(GLENS[:14]))), hx(data(r, r.choice(GLENS[:14])))),
                            "GcmNew 2 %d %s %s" % (bits, k, iv), "GcmDec 2 %s %s %s" % (hx(data(r, r.choice(GLENS[:14]))), hx(data(r, 5)), hx(data(r, 16)))])
        # the 32-bit block counter wraps within a message: the initial counter block is
        # chosen, and the IV that GHASH maps to it is solved for
        for low in (0xffffffff, 0xfffffffe, 0xfffffff0, 0xfffffffb, 0x00ffffff, 0x0000ffff, 0x0000fffe, 0x000000ff, 0x7fffffff, 0x00fffffe):
            for _ in range(2 if c.quick else 6):
                key = r.randbytes(bits // 8)
                j0 = r.randbytes(12) + low.to_bytes(4, "big")
                iv = solve_iv(key, j0)
                scn.append(["GcmNew 1 %d %s %s" % (bits, hx(key), hx(iv)), "GcmEnc 1 %s %s" % (hx(data(r, r.choice([40, 64, 100, 96, 300]))), hx(data(r, r.randrange(30))))])
        # decryption of random data by a fresh context
        for _ in range(40 if c.quick else 400):
            scn.append(["GcmNew 1 %d %s %s" % (bits, hx(keyof(r, bits)), hx(data(r, 12))),
                        "GcmDec 1 %s %s %s" % (hx(data(r, r.choice(GLENS))), hx(data(r, r.choice(GLENS))), hx(r.randbytes(16)))])
        scn.append(["GcmNew 1 %d %s %s" % (bits, hx(data(r, n)), hx(data(r, 12))) for n in (0, 1, 15, 17, 24, 31, 33, 48)])
    c.notes["counter_wrap_ivs"] = "initial counter blocks ending in ffffffff, fffffffe, ... reached through 16-byte IVs"
    # large messages and large additional data
    for bits in (128, 256):
        for p, a in ((70000, 3), (5, 66000)) + (() if c.quick else ((65536, 65536), (65535, 0), (200000, 1))):
            scn.insert(0, ["GcmNew 1 %d %s %s" % (bits, hx(keyof(r, bits)), hx(data(r, 12))), "GcmEnc 1 %s %s" % (hx(r.randbytes(p)), hx(r.randbytes(a)))])
        for n in (12, 16, 33):
            k, iv = r.randbytes(bits // 8), r.randbytes(n)
            use = "GcmEnc 1 %s %s" % (hx(r.randbytes(20)), hx(r.randbytes(5)))
            scn.append(walk(r, lambda x: ["GcmNew 1 %d %s %s" % (bits, hx(x), hx(iv)), use], k, 3 if c.quick else 1))
            scn.append(walk(r, lambda x: ["GcmNew 1 %d %s %s" % (bits, hx(k), hx(x)), use], iv, 2 if c.quick else 1))
    scn += siblings(r, scn, 80 if c.quick else 800)
    long = gcm_long(c, r)
    # the tag the code gives in a first run is the one its decryption accepts
    first = c.execute(exe, long)
    for s, e in zip(long, first):
        tag = bytes(e[1]["outtag"]) if len(e) > 1 and "outtag" in e[1] else bytes(16)
        w = s[1].split()
        w[6] = hx(tag)
        s.insert(1, " ".join(w))
        if not c.quick or int(w[3]) + int(w[5]) < 1 << 22:
            w[6] = hx(flip(r, tag))
            s.append(" ".join(w))
    # ciphertext, and additional data, beyond 2^32 bytes; the right tag is computed here as a function of the lengths
    huge = [(0, (1 << 32) + 21), ((1 << 32) + 3, 9)]
    for i, (nt, na) in enumerate(huge):
        k, iv, t, a = r.randbytes(16), r.randbytes(12), r.randbytes(r.randrange(40)), r.randbytes(r.randrange(40))
        cmd = "GcmLong 1 %s %d %s %d %s %s" % (hx(t), nt, hx(a), na, hx(tag_py(k, iv, t, nt, a, na)), spots(r, len(t) + nt))
        long.insert(0, ["GcmNew 1 128 %s %s" % (hx(k), hx(iv)), cmd, "GcmEnc 1 %s -" % hx(data(r, 20))])
    ev = c.conform(exe, "Trace_Cipher", long + scn, what="GCM exactness", env=LONG)
    c.notes["long_messages_with_the_right_tag"] = sum(1 for t in ev for x in t if x["ev"] == "GcmLong" and x.get("ok"))


# --- GF(2^128) on integers (bit 0 of the standard = most significant), used only to choose inputs
def gfmul(x, y):
    z, v = 0, y
    for i in range(127, -1, -1):
        if (x >> i) & 1:
            z ^= v
        v = (v >> 1) ^ (0xe1 << 120) if v & 1 else v >> 1
    return z


def tag_py(k, iv, t, nt, a, na):
    """the tag of the first message with a 12-byte initial value: t and a followed by nt and na zero bytes"""
    e = lambda b: int.from_bytes(aes_encrypt_py(k, b), "big")
    h = e(bytes(16))
    y = 0
    for d, z in ((a, na), (t, nt)):
        blocks = -(-(len(d) + z) // 16)
        d += bytes(-len(d) % 16)
        for i in range(0, len(d), 16):
            y = gfmul(y ^ int.from_bytes(d[i:i + 16], "big"), h)
        n, p, q = blocks - len(d) // 16, 1 << 127, h
        while n:
            if n & 1:
                p = gfmul(p, q)
            q = gfmul(q, q)
            n >>= 1
        y = gfmul(y, p)
    y = gfmul(y ^ ((8 * (len(a) + na)) << 64 | 8 * (len(t) + nt)), h)
    return (y ^ e(iv + b"\0\0\0\1")).to_bytes(16, "big")


def gfinv(x):
    # x^(2^128 - 2)
    r, p = 1 << 127, x
    for _ in range(127):
        p = gfmul(p, p)
        r = gfmul(r, p)
    return r


def aes_encrypt_py(key, block):
    import os
    return _Aes(key).enc(block)


class _Aes:
    """Textbook AES, to pick inputs (never to judge outputs)."""
    sbox = None

    def __init__(self, key):
        if _Aes.sbox is None:
            p = q = 1
            s = [0] * 256
            while True:
                p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
                q ^= q << 1; q ^= q << 2; q ^= q << 4; q &= 0xff
                if q & 0x80:
                    q ^= 0x09
                rot = lambda x, n: ((x << n) | (x >> (8 - n))) & 0xff
                s[p] = q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63
                if p == 1:
                    break
            s[0] = 0x63
            _Aes.sbox = s
        s = _Aes.sbox
        nk = len(key) // 4
        w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
        rc = 1
        for i in range(nk, 4 * (nk + 7)):
            t = list(w[-1])
            if i % nk == 0:
                t = [s[x] for x in t[1:] + t[:1]]
                t[0] ^= rc
                rc = (rc << 1) ^ (0x11b if rc & 0x80 else 0)
            elif nk > 6 and i % nk == 4:
                t = [s[x] for x in t]
            w.append([a ^ b for a, b in zip(w[i - nk], t)])
        self.rk = [sum(w[4 * i:4 * i + 4], []) for i in range(nk + 7)]

    def enc(self, block):
        s = _Aes.sbox
        x2 = lambda b: ((b << 1) ^ (0x1b if b & 0x80 else 0)) & 0xff
        st = [a ^ b for a, b in zip(block, self.rk[0])]
        for rk in self.rk[1:-1]:
            st = [s[st[(i + 4 * (i % 4)) % 16]] for i in range(16)]
            n = []
            for c in range(0, 16, 4):
                col = st[c:c + 4]
                for i in range(4):
                    a, b, d, e = col[i], col[(i + 1) % 4], col[(i + 2) % 4], col[(i + 3) % 4]
                    n.append(x2(a) ^ x2(b) ^ b ^ d ^ e)
            st = [a ^ b for a, b in zip(n, rk)]
        st = [s[st[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        return bytes(a ^ b for a, b in zip(st, self.rk[-1]))


def solve_iv(key, j0):
    """16-byte IV with GHASH(IV || 0 || 128) = j0"""
    h = int.from_bytes(aes_encrypt_py(key, bytes(16)), "big")
    hi = gfinv(h)
    t = gfmul(int.from_bytes(j0, "big"), hi) ^ 128
    return gfmul(t, hi).to_bytes(16, "big")


# ------------------------------------------------------------------ sessions
def session(r, bits, beh, sealed):
    """beh of Gen_Gcm -> commands; sealed: function giving (ct, tag) of a sent message, from a first run"""
    return None


def flip(r, b):
    b = bytearray(b)
    i = r.choice([0, len(b) - 1, r.randrange(len(b))])
    b[i] ^= 1 << r.choice([0, 7, r.randrange(8)])
    return bytes(b)


def c10(c):
    fut = c.pool.submit(build, c)
    c.java()
    fm = c.pool.submit(c.model, "MC_Gcm", None if c.quick else "MC_Gcm_deep")
    beh = c.behaviours("Gen_Gcm", num=220 if c.quick else 2500, depth=12 if c.quick else 14)
    exe = fut.result()
    r = c.rng
    # first pass: what the sender seals
    plans = []
    for i, b in enumerate(beh):
        bits = (128, 256)[i % 2]
        ivlen = r.choice([12] * 6 + [16, 8, 13, 60])
        key, iv = r.randbytes(bits // 8), data(r, ivlen)
        start = r.choice([None] * 4 + [0, 1, 254, 255, 256, 65534, 65535, (1 << 24) - 2, (1 << 32) - 3, (1 << 32) - 1, (1 << 40) - 2, (1 << 48) - 1, (1 << 56) - 2, (1 << 63) - 1, (1 << 64) - 2])
        msgs = [(data(r, r.choice(GLENS[:17])), data(r, r.choice([0, 5, 13, 16, 20]))) for a in b if a["act"] == "Send"]
        plans.append((bits, key, iv, start, msgs))

    def head(p, ctx):
        cmds = ["GcmNew %d %d %s %s" % (ctx, p[0], hx(p[1]), hx(p[2]))]
        if p[3] is not None:
            cmds.append("GcmNum %d %s" % (ctx, p[3].to_bytes(8, "big").hex()))
        return cmds
    first = c.execute(exe, [head(p, 1) + ["GcmEnc 1 %s %s" % (hx(m), hx(a)) for m, a in p[4]] + ["GcmNew 3 128 %s %s" % (hx(bytes(16)), hx(bytes(12)))] for p in plans])
    scn = []
    for p, b, ev in zip(plans, beh, first):
        sent = [(bytes(e["out"]), bytes(e["aad"]), bytes(e["tag"])) for e in ev if e["ev"] == "GcmEnc" and "out" in e and "tag" in e]
        if len(sent) != len(p[4]):
            sent = [(m, a, bytes(16)) for m, a in p[4]]
        cmds = head(p, 1) + head(p, 2)
        k = 0
        for a in b:
            if a["act"] == "Send":
                m, ad = p[4][k]
                k += 1
                cmds.append("GcmEnc 1 %s %s" % (hx(m), hx(ad)))
            else:
                ct, ad, tag = sent[a["m"] - 1]
                ch = a["ch"]
                if ch == "ct" and ct:
                    ct = flip(r, ct)
                elif ch == "aad" and ad:
                    ad = flip(r, ad)
                elif ch in ("tag", "ct", "aad"):
                    tag = flip(r, tag)
                elif ch == "ctlen":
                    ct = ct[:-1] if ct and r.randrange(2) else ct + b"\0"
                elif ch == "aadlen":
                    ad = ad[:-1] if ad and r.randrange(2) else ad + b"\0"
                elif ch == "swap":
                    ct, ad = ad, ct
                cmds.append("GcmDec 2 %s %s %s" % (hx(ct), hx(ad), hx(tag)))
        scn.append(cmds)
    # every single-bit change of the tag, and of a short message and its additional data, is rejected
    for bits in (128, 256):
        key, iv, pt, ad = r.randbytes(bits // 8), r.randbytes(12), r.randbytes(21), r.randbytes(19)
        e = c.execute(exe, [["GcmNew 1 %d %s %s" % (bits, hx(key), hx(iv)), "GcmEnc 1 %s %s" % (hx(pt), hx(ad))]])[0][1]
        ct, tag = bytes(e["out"]), bytes(e["tag"])
        for what, val in (("tag", tag), ("ct", ct), ("aad", ad)):
            bad = []
            for i in range(len(val) * 8):
                v = bytearray(val)
                v[i // 8] ^= 1 << (i % 8)
                bad.append(bytes(v))
            for g in range(0, len(bad), 32):
                cmds = []
                for v in bad[g:g + 32]:
                    cmds += ["GcmNew 2 %d %s %s" % (bits, hx(key), hx(iv)),
                             "GcmDec 2 %s %s %s" % (hx(v if what == "ct" else ct), hx(v if what == "aad" else ad), hx(v if what == "tag" else tag))]
                scn.append(cmds)
    # copies of a context go on independently
    for _ in range(10):
        k, iv = hx(r.randbytes(16)), hx(r.randbytes(12))
        scn.append(["GcmNew 1 128 %s %s" % (k, iv), "GcmEnc 1 0102 03", "GcmCopy 1 2", "GcmEnc 1 0102 03", "GcmEnc 1 0102 03", "GcmEnc 2 0102 03", "GcmEnc 2 aabb -"])
    # refused IVs do not advance anything and never report success
    for n in (0, 1, 7, 9, 10, 11):
        k, iv = hx(r.randbytes(16)), hx(r.randbytes(n))
        scn.append(["GcmNew 1 128 %s %s" % (k, iv), "GcmEnc 1 0102 03", "GcmDec 1 0102 03 %s" % hx(bytes(16)), "GcmDec 1 - - %s" % hx(bytes(16)), "GcmEnc 1 - -"])
    # long sessions: the message number runs through many values
    k, iv = r.randbytes(16), r.randbytes(12)
    scn.append(["GcmNew 1 128 %s %s" % (hx(k), hx(iv))] + ["GcmEnc 1 %02x -" % (i & 255) for i in range(300 if c.quick else 3000)])
    scn += siblings(r, scn, 30 if c.quick else 300)
    c.conform(exe, "Trace_Cipher", scn, what="GCM sessions")
    # the receiver's verdicts really include both outcomes
    fm.result()


def c11(c):
    fut = c.pool.submit(build, c)
    c.java()
    fm = c.pool.submit(lambda: [c.model("MC_Gcm"), c.model("MC_Counter", None if c.quick else "MC_Counter_deep")] +
                       [c.model("MC_Counter", env={"FAULT": f}, expect_violation=("NoReuse", "Agree")) for f in ("carry", "add")])
    exe = fut.result()
    r = c.rng
    scn = []
    for bits in (128, 256):
        for n in list(range(0, 66)) + [100, 127, 128, 129, 500, 1600, 4097]:
            k, iv = hx(keyof(r, bits)), hx(data(r, 16))
            d = data(r, n)
            scn.append(["CtrNew 1 %d %s %s" % (bits, k, iv), "Ctr 1 0 " + hx(d), "Ctr 1 %d %s" % (r.randrange(2), hx(data(r, r.randrange(50)))),
                        "CtrNew 2 %d %s %s" % (bits, k, iv), "Ctr 2 1 " + hx(data(r, n)), "Ctr 2 0 " + hx(data(r, 33))])
        for low in (0xffffffff, 0xfffffffe, 0xfffffff9, 0x00ffffff, 0x0000ffff, 0x000000fe, 0x7fffffff, 0x00fffffd, 0):
            for num in (0, 1, 255, 256, 65535, (1 << 24) - 1, (1 << 32) - 1, (1 << 32), (1 << 40) - 1, (1 << 48) - 1, (1 << 56), (1 << 64) - 1):
                if c.quick and r.random() < 0.5:
                    continue
                iv = r.choice([r.randbytes(12), b"\xff" * 12, bytes(12)]) + low.to_bytes(4, "big")
                scn.append(["CtrNew 1 %d %s %s" % (bits, hx(keyof(r, bits)), hx(iv)), "CtrNum 1 " + num.to_bytes(8, "big").hex(),
                            "Ctr 1 %d %s" % (r.randrange(2), hx(data(r, r.choice([64, 80, 100, 160, 33])))), "Ctr 1 0 " + hx(data(r, 40)), "Ctr 1 1 -", "Ctr 1 0 " + hx(data(r, 17))])
        # long sessions
        for _ in range(3):
            scn.append(["CtrNew 1 %d %s %s" % (bits, hx(keyof(r, bits)), hx(data(r, 16)))] +
                       [r.choice(["Ctr 1 0 " + hx(data(r, r.randrange(0, 40))), "Ctr 1 1 " + hx(data(r, r.randrange(0, 40))), "CtrStream 1 %d" % r.randrange(70)])
                        for _ in range(80 if c.quick else 600)])
        for n in [x for x in range(0, 40) if x != 16] + [64, 128]:
            scn.append(["CtrNew 1 %d %s %s" % (bits, hx(keyof(r, bits)), hx(data(r, n)))])
        for n in [x for x in range(0, 40) if x != bits // 8] + [64]:
            scn.append(["CtrNew 1 %d %s %s" % (bits, hx(data(r, n)), hx(data(r, 16)))])
        # two contexts interleaved
        cmds = ["CtrNew %d %d %s %s" % (i, bits, hx(keyof(r, bits)), hx(data(r, 16))) for i in (1, 2)]
        for _ in range(30):
            cmds.append("Ctr %d %d %s" % (r.randrange(1, 3), r.randrange(2), hx(data(r, r.randrange(0, 50)))))
        scn.append(cmds)
    scn += siblings(r, scn, 60 if c.quick else 600)
    for bits in (128, 256):
        k, iv = r.randbytes(bits // 8), r.randbytes(16)
        use = "Ctr 1 0 " + hx(r.randbytes(40))
        scn.append(walk(r, lambda x: ["CtrNew 1 %d %s %s" % (bits, hx(x), hx(iv)), use], k))
        scn.append(walk(r, lambda x: ["CtrNew 1 %d %s %s" % (bits, hx(k), hx(x)), use], iv))
        for n in (1 << 20, (3 << 20) + 9, (1 << 24) + 50) + (() if c.quick else ((1 << 28) + 20, 1 << 29)):
            for iv2 in (r.randbytes(16), r.randbytes(12) + (0xffff0000).to_bytes(4, "big")):
                scn.insert(0, ["CtrNew 1 %d %s %s" % (bits, hx(k), hx(iv2)), "CtrLong 1 %d %d %s" % (r.randrange(2), n, spots(r, n)), "Ctr 1 0 " + hx(r.randbytes(33))])
        for n in (65536, 70003) if c.quick else (65536, 70003, 200001, 1 << 20):
            scn.insert(0, ["CtrNew 1 %d %s %s" % (bits, hx(k), hx(data(r, 16))), "Ctr 1 %d %s" % (r.randrange(2), hx(r.randbytes(n))), "Ctr 1 0 " + hx(r.randbytes(33))])
    # one message beyond 2^32 bytes
    n = (1 << 32) + 45
    scn.insert(0, ["CtrNew 1 128 %s %s" % (hx(r.randbytes(16)), hx(r.randbytes(16))), "CtrLong 1 %d %d %s" % (r.randrange(2), n, spots(r, n)), "Ctr 1 0 " + hx(r.randbytes(33))])
    ev = c.conform(exe, "Trace_Cipher", scn, what="CTR", env=LONG)
    # round trip as the specification demands it: what context 1 produced, context 2 restores
    scn2 = []
    for s, e in list(zip(scn, ev))[:140]:
        if s[0].startswith("CtrNew") and e and e[0]["exc"] == 0:
            outs = [bytes(x["out"]) for x in e if x["ev"] == "Ctr" and x["c"] == 1 and "out" in x]
            if any(x.startswith("CtrNum") for x in s):
                continue
            scn2.append([s[0].replace("CtrNew 1", "CtrNew 2")] + ["Ctr 2 1 " + hx(o) for o in outs])
    c.conform(exe, "Trace_Cipher", scn2, what="CTR decryption")
    fm.result()


def c12(c):
    fut = c.pool.submit(build, c)
    c.java()
    fm = c.pool.submit(lambda: [c.model("MC_Stream", None if c.quick else "MC_Stream_deep")] +
                       [c.model("MC_Stream", env={"FAULT": f}, expect_violation=("Same", "Abstraction")) for f in ("carry", "drop", "whole", "copy")])
    beh = c.behaviours("Gen_Stream", num=120 if c.quick else 1500, depth=9 if c.quick else 12)
    exe = fut.result()
    r = c.rng
    scn = []
    for b in beh:
        k, n = data(r, 32), data(r, 12)
        cmds = ["ChaNew 1 %s %s" % (hx(k), hx(n)), "ChaNew 2 %s %s" % (hx(k if r.randrange(2) else data(r, 32)), hx(data(r, 12)))]
        for a in b:
            cmds.append("Cha %d %d %s" % (a["c"], a["dec"], hx(data(r, a["n"]))) if a["act"] == "Use" else "ChaCopy %d %d" % (a["c"], 3 - a["c"]))
        scn.append(cmds)
    for _ in range(60 if c.quick else 600):
        cmds = ["ChaNew 1 %s %s" % (hx(data(r, 32)), hx(data(r, 12)))]
        total = 0
        for _ in range(r.randrange(3, 14)):
            n = r.choice([0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, r.randrange(300), (64 - total % 64), (64 - total % 64) + 64, max(0, 63 - total % 64)])
            cmds.append("Cha 1 %d %s" % (r.randrange(2), hx(data(r, n))))
            total += n
        scn.append(cmds)
    for n in range(0, 200, 1 if not c.quick else 3):
        scn.append(["ChaNew 1 %s %s" % (hx(data(r, 32)), hx(data(r, 12))), "Cha 1 0 " + hx(data(r, n)), "Cha 1 1 " + hx(data(r, 200 - n))])
    scn.append(["ChaNew 1 %s %s" % (hx(data(r, 32)), hx(data(r, 12)))] + ["Cha 1 %d %s" % (r.randrange(2), hx(r.randbytes(1))) for _ in range(200)])
    # copies and interleaving
    for _ in range(6):
        cmds = ["ChaNew 1 %s %s" % (hx(data(r, 32)), hx(data(r, 12))), "Cha 1 0 " + hx(data(r, r.randrange(150))), "ChaCopy 1 2"]
        for _ in range(12):
            cmds.append("Cha %d %d %s" % (r.randrange(1, 3), r.randrange(2), hx(data(r, r.randrange(100)))))
        scn.append(cmds)
    # block counters beyond 8, 16, 24 bits
    for blocks in ((254, 255, 65534, 65535, (1 << 24) - 2) if c.quick else (254, 255, 256, 65534, 65535, (1 << 20), (1 << 24) - 2, (1 << 24) - 1, (1 << 25) - 3)):
        n = blocks * 64 - 5
        scn.append(["ChaNew 1 %s %s" % (hx(data(r, 32)), hx(data(r, 12))), "ChaSkip 1 %d %d %s" % (n, r.choice([65536, 1000, n]), spots(r, n, 64)), "Cha 1 0 " + hx(data(r, 200)), "Cha 1 1 " + hx(data(r, 3))])
    # streams beyond 2^32 bytes, in one call and in several
    for n, piece in ((1 << 32) + 77, 1 << 33), ((1 << 32) - 100, (1 << 30) + 1):
        scn.insert(0, ["ChaNew 1 %s %s" % (hx(data(r, 32)), hx(data(r, 12))), "Cha 1 0 " + hx(data(r, 7)), "ChaSkip 1 %d %d %s" % (n, piece, spots(r, n, 64)), "Cha 1 0 " + hx(data(r, 200)), "Cha 1 1 " + hx(data(r, 3))])
    for n in [x for x in range(0, 66) if x != 32] + [128]:
        scn.append(["ChaNew 1 %s %s" % (hx(data(r, n)), hx(data(r, 12)))])
    for n in [x for x in range(0, 34) if x != 12]:
        scn.append(["ChaNew 1 %s %s" % (hx(data(r, 32)), hx(data(r, n)))])
    scn += siblings(r, scn, 40 if c.quick else 400)
    k, iv = r.randbytes(32), r.randbytes(12)
    use = "Cha 1 0 " + hx(r.randbytes(70))
    scn.append(walk(r, lambda x: ["ChaNew 1 %s %s" % (hx(x), hx(iv)), use], k))
    scn.append(walk(r, lambda x: ["ChaNew 1 %s %s" % (hx(k), hx(x)), use], iv))
    for n in (65536, 70003) if c.quick else (65536, 70003, 1 << 18):
        scn.insert(0, ["ChaNew 1 %s %s" % (hx(k), hx(data(r, 12))), "Cha 1 1 " + hx(r.randbytes(n)), "Cha 1 0 " + hx(r.randbytes(100))])
    c.conform(exe, "Trace_Cipher", scn, what="ChaCha20", env=LONG)
    fm.result()


def c30(c):
    exe = c.pool.submit(c.build, "h_modes", "h_modes.cpp", SRC)
    asan = c.pool.submit(c.build, "h_modes_asan", "h_modes.cpp", SRC, ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"))
    c.java()
    fm = c.pool.submit(c.model, "MC_Modes", None if c.quick else "MC_Modes_deep")
    r = c.rng
    kinds = [(0, 8), (0, 16), (0, 32), (1, 16)]
    make = lambda i, cbc, aes, b: "%s %d %d %d %s%s" % ("Cbc" if cbc else "Ecb", i, aes, b, hx(data(r, b)), " " + hx(data(r, b)) if cbc else "")
    scn = []
    for aes, b in kinds:
        for cbc in (0, 1):
            # every number of blocks; equal blocks; each direction first
            for n in list(range(0, 9)) + [16, 17, 33]:
                m = data(r, b) * n if r.randrange(2) else data(r, n * b)
                cmds = [make(1, cbc, aes, b), "Enc 1 " + hx(m), "Enc 1 " + hx(m)]
                if not aes:
                    cmds += ["Dec 1 " + hx(m), "Dec 1 " + hx(data(r, n * b)), "Enc 1 " + hx(data(r, b * r.randrange(4)))]
                scn.append(cmds)
    for _ in range(60 if c.quick else 800):
        # several contexts, calls interleaved
        ks = {i: r.choice(kinds) for i in range(1, 4)}
        cmds = [make(i, r.randrange(2), *ks[i]) for i in ks]
        for _ in range(12):
            i = r.randrange(1, 4)
            if r.random() < .1:
                cmds.append(make(i, r.randrange(2), *ks[i]))
            cmds.append("%s %d %s" % ("Enc" if ks[i][0] or r.randrange(2) else "Dec", i, hx(data(r, ks[i][1] * r.randrange(0, 7)))))
        scn.append(cmds)
    # long messages
    for aes, b in kinds:
        for cbc in (0, 1):
            for n in (255, 256, 257) + ((1000, 4097) if c.quick else (511, 512, 513, 1000, 4095, 4096, 4097, 65536)):
                m = hx(r.randbytes(n * b))
                scn.append([make(1, cbc, aes, b), "Enc 1 " + m] + ([] if aes else ["Dec 1 " + m, "Enc 1 " + hx(data(r, b))]))
    # contexts whose keys or initial values differ in one byte
    for aes, b in kinds:
        k, iv = r.randbytes(b), r.randbytes(b)
        use = "Enc 1 " + hx(r.randbytes(3 * b))
        scn.append(walk(r, lambda x: ["Ecb 1 %d %d %s" % (aes, b, hx(x)), use], k))
        scn.append(walk(r, lambda x: ["Cbc 1 %d %d %s %s" % (aes, b, hx(x), hx(iv)), use], k))
        scn.append(walk(r, lambda x: ["Cbc 1 %d %d %s %s" % (aes, b, hx(k), hx(x)), use], iv))
    # initial values of every wrong length are refused
    for aes, b in kinds:
        scn.append(["Cbc 1 %d %d %s %s" % (aes, b, hx(data(r, b)), hx(data(r, n))) for n in list(range(0, 2 * b + 2)) + [100, 1000]])
    ev = c.conform(exe.result(), "Trace_Modes", scn, what="modes")
    # what one context produced, another restores
    scn2 = []
    for s, e in zip(scn, ev):
        if not s[0].startswith(("Ecb 1 0", "Cbc 1 0")) or any(x.startswith(("Ecb", "Cbc")) for x in s[1:]):
            continue
        cmds = [s[0]]
        for x in e:
            if x["ev"] in ("Enc", "Dec") and "out" in x:
                cmds.append("%s 1 %s" % ("Dec" if x["ev"] == "Enc" else "Enc", hx(bytes(x["out"]))))
        scn2.append(cmds)
    c.conform(exe.result(), "Trace_Modes", scn2, what="modes, way back")
    c.conform(asan.result(), "Trace_Modes", scn[:20] + scn[-8:] + scn2[:20], what="modes, address sanitizer")
    fm.result()


CHECKS = {"C30": c30, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12}

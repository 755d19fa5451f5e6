"""C19 RSA PKCS#1 v1.5, C20 RSA-PSS.  Python only produces inputs (keys, forgeries); the verdict is the TLA+ specification's."""
import base64 as b64, hashlib
from vlib.core import hx
from checks.modular import mr

SRC = ["random.cpp", "X509Certificate.cpp", "Asn1.cpp", "Truststore.cpp", "base64.cpp", "sha1.cpp", "sha2.cpp", "sha3.cpp", "md5.cpp"]
MAINS = ["h_rsa.cpp"] + ["rsa_%d.cpp" % n for n in (512, 1024, 2048, 4096)]
OID = {"md5": "2a864886f70d0205", "sha1": "2b0e03021a", "sha224": "608648016503040204", "sha256": "608648016503040201", "sha384": "608648016503040202", "sha512": "608648016503040203"}


def prime(r, bits, e=65537):
    while True:
        v = r.getrandbits(bits) | 1 | 3 << (bits - 2)
        if v % e != 1 and mr(v):
            return v


class Key:
    def __init__(s, r, bits, e=65537):
        """a modulus of exactly that many bits"""
        while True:
            h = bits // 2
            p = prime(r, h, e)
            lo, hi = (1 << (bits - 1)) // p + 1, ((1 << bits) - 1) // p
            while True:
                q = r.randrange(lo, hi + 1) | 1
                if q <= hi and q % e != 1 and q != p and mr(q):
                    break
            s.n = p * q
            phi = (p - 1) * (q - 1)
            try:
                s.d = pow(e, -1, phi)
            except ValueError:
                continue
            s.p, s.q, s.e, s.bits, s.k = p, q, e, bits, (bits + 7) // 8
            break

    @classmethod
    def of(cls, p, q, e):
        s = cls.__new__(cls)
        s.d = pow(e, -1, (p - 1) * (q - 1))
        s.n, s.p, s.q, s.e, s.bits = p * q, p, q, e, (p * q).bit_length()
        s.k = (s.bits + 7) // 8
        return s

    def b(s, v):
        return v.to_bytes((v.bit_length() + 7) // 8 or 1, "big")

    def args(s):
        return "%s %s %s" % (hx(s.b(s.n)), hx(s.b(s.e)), hx(s.b(s.d)))

    def raw(s, v, size=None):
        return pow(v, s.d, s.n).to_bytes(size or s.k, "big")


def dlen(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([128 + len(b)]) + b


def tlv(t, c):
    return bytes([t]) + dlen(len(c)) + c


def der_int(v):
    b = v.to_bytes((v.bit_length() + 8) // 8 or 1, "big")
    return tlv(2, b)


def private_der(k):
    return tlv(0x30, b"".join(map(der_int, [0, k.n, k.e, k.d, k.p, k.q, k.d % (k.p - 1), k.d % (k.q - 1), pow(k.q, -1, k.p)])))


def pem(label, der):
    t = b64.b64encode(der).decode()
    return ("-----BEGIN %s-----\n" % label + "\n".join(t[i:i + 64] for i in range(0, len(t), 64)) + "\n-----END %s-----\n" % label).encode()


def H(a, m):
    return hashlib.new(a.replace("sha3-", "sha3_"), m).digest()


def info(a, h, null=True):
    o = bytes.fromhex(OID[a])
    return tlv(0x30, tlv(0x30, tlv(6, o) + (b"\5\0" if null else b"")) + tlv(4, h))


def em15(t, k):
    return b"\0\1" + b"\xff" * (k - len(t) - 3) + b"\0" + t


def forge15(r, key, a, m, f):
    """a signature-like byte string for message m: right, or wrong in one particular way"""
    k = key.k
    h = H(a, tlv(0x30, m))
    good = em15(info(a, h), k)
    if len(good) != k or k < len(info(a, h)) + 11:
        if f < 6 and len(info(a, h)) + 3 <= k:            # padding shorter than allowed
            return key.raw(int.from_bytes(good[-k:], "big") % key.n)
        return key.raw(r.randrange(key.n))
    S = lambda em: key.raw(int.from_bytes(em, "big") % key.n)
    if f in (1, 2):
        return S(good)
    if f == 3:
        s = bytearray(S(good))
        s[r.choice([0, k - 1, r.randrange(k)])] ^= 1 << r.randrange(8)
        return bytes(s)
    if f == 4:
        v = int.from_bytes(S(good), "big") + key.n
        return v.to_bytes(k + 1, "big")[-k:] if v < 256 ** k else v.to_bytes(k + 1, "big")
    if f == 5:
        s = S(good)
        return r.choice([s[1:], s[:-1], s[2:], b""])
    if f == 6:
        s = S(good)
        return r.choice([b"\0" + s, s + b"\0", b"\0\0\0\0" + s, b"\0" * (600) + s])
    if f == 7:
        b = bytearray(good)
        b[r.randrange(2, k - len(info(a, h)) - 1)] = r.choice([0, 0xfe, 0x7f, 1])
        return S(bytes(b))
    if f == 8:       # shorter padding, data after
        t = info(a, h)
        g = r.randrange(1, k - len(t) - 10) if k - len(t) > 12 else 0
        return S(b"\0\1" + b"\xff" * (k - len(t) - 3 - g) + b"\0" + t + r.randbytes(g))
    if f == 9:
        return S(b"\0" + bytes([r.choice([0, 2, 3, 0x81])]) + good[2:])
    if f == 10:
        b = bytearray(good)
        b[k - len(info(a, h)) - 1] = r.choice([1, 0xff, 0x30])
        return S(bytes(b))
    if f == 11:
        return S(em15(info(a, h, False), k))
    if f == 12:
        hb = bytearray(h)
        hb[r.choice([0, len(hb) - 1, r.randrange(len(hb))])] ^= 1 << r.randrange(8)
        return S(em15(info(a, bytes(hb)), k))
    if f == 13:
        o = r.choice([x for x in ("sha1", "sha224", "sha256", "sha384", "sha512") if x != a])
        return S(em15(info(o, h), k)[-k:])
    if f == 14:
        t = info(a, h) + r.randbytes(r.randrange(1, 3))
        return S(em15(t, k)[-k:])
    if f == 15:
        return S(em15(h, k))
    if f == 16:
        return S(em15(info(a, H(a, m)), k))
    if f == 17:
        return S(good)[::-1]
    if f == 18:
        return r.choice([0, 1, key.n - 1]).to_bytes(k, "big")
    if f == 19:
        return key.n.to_bytes(k, "big")
    b = bytearray(good)
    b[0] = 1 if key.bits % 8 != 1 else 0
    return S(bytes(b))


def mgf(a, seed, n):
    t = b""
    c = 0
    while len(t) < n:
        t += H(a, seed + c.to_bytes(4, "big"))
        c += 1
    return t[:n]


def empss(r, a, mh, salt, bits, ps=None, sep=1, trailer=0xbc, top=0, mga=None, flip_h=False, zeros=8, emlen=None):
    eb = bits - 1
    el = emlen or (eb + 7) // 8
    z = 8 * ((eb + 7) // 8) - eb
    h = H(a, b"\0" * zeros + mh + salt)
    n = el - len(h) - 1 - len(salt) - 1
    if n < 0:
        return None
    p = bytearray(n)
    if ps is not None and n:
        p[ps % n] |= 1 << r.randrange(8)
    db = bytes(p) + bytes([sep]) + salt
    if flip_h:
        hb = bytearray(h)
        hb[r.randrange(len(hb))] ^= 1 << r.randrange(8)
        x = bytes(u ^ v for u, v in zip(db, mgf(mga or a, h, len(db))))
        h = bytes(hb)
    else:
        x = bytes(u ^ v for u, v in zip(db, mgf(mga or a, h, len(db))))
    e = bytearray(x + h + bytes([trailer]))
    e[0] &= 0xff >> z
    if top and z:
        e[0] |= 0x80 >> r.randrange(z)
    return bytes(e)


def forgepss(r, key, a, m, f):
    k, bits = key.k, key.bits
    hl = len(H(a, b""))
    mh = H(a, m)
    salt = r.choice([r.randbytes(hl), r.randbytes(hl), bytes(hl), b"\0" * (hl - 1) + b"\1", b"\1" + b"\0" * (hl - 1)])
    good = empss(r, a, mh, salt, bits)

    def S(em):
        v = int.from_bytes(em, "big")
        return key.raw(v % key.n)
    if good is None:
        return key.raw(r.randrange(key.n))
    if f in (1, 2):
        return S(good)
    if f == 3:
        s = bytearray(S(good))
        s[r.choice([0, k - 1, r.randrange(k)])] ^= 1 << r.randrange(8)
        return bytes(s)
    if f == 4:
        v = int.from_bytes(S(good), "big") + key.n
        return v.to_bytes(k + 1, "big")[-k:] if v < 256 ** k else v.to_bytes(k + 1, "big")
    if f == 5:
        s = S(good)
        return r.choice([s[1:], s[:-1], s[2:], b""])
    if f == 6:
        s = S(good)
        return r.choice([b"\0" + s, s + b"\0", b"\0" * 600 + s])
    if f == 7:
        n = len(good) - 2 * hl - 2
        return S(empss(r, a, mh, salt, bits, ps=r.choice([0, n - 1, r.randrange(max(1, n))]) if n > 0 else None))
    if f == 8:
        return S(empss(r, a, mh, salt, bits, sep=r.choice([0, 2, 3, 0x81, 0xff])))
    if f == 9:
        return S(empss(r, a, mh, r.randbytes(hl + 1), bits) or good[:-1] + b"\0")
    if f == 10:
        return S(empss(r, a, mh, r.choice([b"", r.randbytes(hl - 1), r.randbytes(20)]), bits))
    if f == 11:
        return S(empss(r, a, mh, salt, bits, trailer=r.choice([0, 0xcc, 0xbd, 0x3c])))
    if f == 12:
        z = 8 * len(good) - (bits - 1)
        if z == 0:
            return S(good) if False else (int.from_bytes(S(good), "big") ^ 1).to_bytes(k, "big")
        for _ in range(40):
            e = empss(r, a, mh, r.randbytes(hl), bits, top=1)
            if int.from_bytes(e, "big") < key.n:
                return S(e)
        return S(empss(r, a, mh, salt, bits, trailer=0))
    if f == 13:
        return S(empss(r, a, mh, salt, bits, flip_h=True))
    if f == 14:
        return S(empss(r, a, mh, salt, bits, mga=r.choice([x for x in ("sha1", "sha256", "sha384", "sha512") if x != a])))
    if f == 15:
        return S(empss(r, a, r.choice([m[:hl], H(a, mh)]), salt, bits))
    if f == 16:
        return S(empss(r, a, mh, salt, bits, zeros=r.choice([0, 7, 9])))
    if f == 17:
        return S(good)[::-1]
    if f == 18:
        return r.choice([0, 1, key.n - 1]).to_bytes(k, "big")
    if f == 19:
        return key.n.to_bytes(k, "big")
    # an encoded message with a bit above the encoding length (only for 8m+1 bit moduli it is even possible)
    v = int.from_bytes(good, "big") + (1 << (8 * len(good)))
    return key.raw(v) if v < key.n else forge15(r, key, a, m, 1)


def zeros_digest(h, n):
    """the digest given to the signing call; the specification has its own"""
    import hashlib
    x, z = hashlib.new(h), bytes(1 << 24)
    while n:
        x.update(z[:min(n, 1 << 24)])
        n -= min(n, 1 << 24)
    return x.digest()


def messages(r, pss):
    sizes = [0, 1, 2, 31, 55, 56, 63, 64, 100, 111, 112, 119, 120, 127, 128, 129, 200, 255, 256, 257, 300]
    return [r.choice([r.randbytes(r.choice(sizes)), r.randbytes(r.choice(sizes)), bytes(r.choice(sizes))]) for _ in range(3)]


def keyring(c, pss):
    r = c.rng
    # bit lengths around every boundary: whole bytes, one bit more and less, smallest that fit each hash and one byte less
    need = {"sha256": 62, "sha384": 78, "sha512": 94} if not pss else {"sha256": 66, "sha384": 98, "sha512": 130}
    bits = set()
    for v in need.values():
        bits |= {8 * v, 8 * v - 7, 8 * v - 8, 8 * v + 1, 8 * v + 2}
    bits |= {512, 511, 1024, 1023, 1017, 1016, 1021}
    if not c.quick:
        bits |= set(range(8 * max(need.values()) - 9, 8 * max(need.values()) + 9)) | {2048, 2047, 2041, 2040, 1536, 1537}
    res = []
    for b in sorted(bits):
        res.append(Key(r, b, r.choice([3, 17, 65537, 65537]) if b < 1100 else 65537))
    res.append(Key(r, 1024, 0x10000000f))           # exponents that are not a machine word or very long
    res.append(Key(r, 900, r.getrandbits(700) | 1))
    return res


def sessions(c, pss, beh, ring):
    r = c.rng
    scn = []
    forge = forgepss if pss else forge15
    sfx = "Pss" if pss else ""
    for i, b in enumerate(beh):
        ks = [ring[i % len(ring)], r.choice(ring)]
        msgs = messages(r, pss)
        cmds = []
        for k in ks:
            w = r.choice([x for x in (512, 1024, 2048) if x >= k.bits][:2]) if k.bits <= 1024 else 2048 if k.bits <= 2048 else 4096
            cmds.append("Key %d %s" % (w, k.args()))
        pool = []
        for a in b:
            if a["op"] in ("Sign", "Forge"):
                ki, m, h = a["k"], msgs[a["m"] - 1], a["h"]
                k = ks[ki - 1]
                if a["op"] == "Sign":
                    if pss:
                        hl = len(H(h, b""))
                        salt = r.choice([r.randbytes(hl), bytes(hl), b"\xff" * hl])
                        cmds.append("SignPss %d %s %s %s" % (ki, h, hx(H(h, m)), hx(salt)))
                        e = empss(r, h, H(h, m), salt, k.bits)
                        sig = key_raw(k, e)
                    else:
                        cmds.append("Sign %d %s %s" % (ki, h, hx(m)))
                        sig = forge15(r, k, h, m, 1)
                else:
                    sig = forge(r, k, h, m, a["f"])
                pool.append((ki, h, m, sig))
                if r.random() < .7:
                    cmds.append("Verify%s %d %s %s %s" % (sfx, ki, h, hx(m), hx(sig)))
            elif pool:
                ki, h, m, sig = r.choice(pool)
                if a["w"] == "other":
                    x = r.randrange(3)
                    if x == 0:
                        ki = 3 - ki
                    elif x == 1:
                        h = a["h"]
                    else:
                        m = r.choice([msgs[a["m"] - 1], m + b"\0", m[:-1], flip(r, m)])
                cmds.append("Verify%s %d %s %s %s" % (sfx, ki, h, hx(m), hx(sig)))
        scn.append(cmds)
    return scn


def twins(r, bits):
    """keys that agree with the first in much: the low words of the modulus, the high ones, all of it"""
    from checks.modular import mr
    k = Key(r, bits)
    res = []
    while True:             # the low 64 bits of the modulus (and its length)
        p = prime(r, bits // 2, 65537)
        q = (k.n * pow(p, -1, 1 << 64)) % (1 << 64) | r.getrandbits(bits // 2 - 64) << 64
        for _ in range(2000):
            if (p * q).bit_length() == bits and mr(q, (2,)) and mr(q) and q % 65537 != 1:
                break
            q = (q & ((1 << 64) - 1)) | r.getrandbits(bits // 2 - 64) << 64
        else:
            continue
        res.append(Key.of(p, q, 65537))
        break
    while True:             # the high 64 bits
        p = prime(r, bits // 2, 65537)
        q = k.n // p | 1
        for j in range(0, 20000, 2):
            if mr(q + j, (2,)) and mr(q + j) and (q + j) % 65537 != 1:
                break
        else:
            continue
        if (p * (q + j)).bit_length() == bits:
            res.append(Key.of(p, q + j, 65537))
            break
    for e in (3, 17, 257, 65539, 5, 7):
        try:
            res.append(Key.of(k.p, k.q, e))
        except ValueError:
            continue
        if len(res) == 4:
            break
    # exponents that agree in their low words with a usual one, or in their high ones
    while True:
        e = r.choice([65537 + (r.randrange(1, 1 << 12) << 32), 65537 + (r.randrange(1, 1 << 12) << 64), 3 + (1 << 32), 65537 | r.getrandbits(60) << 17,
                      65537 + (1 << 32), 65537 << 32 | 1, 17 + (r.randrange(1, 1 << 40) << 64), (1 << 64) + 1, (1 << 128) + 3, (1 << 32) - 1, (1 << 32) + 1])
        try:
            res.append(Key.of(k.p, k.q, e))
        except ValueError:
            continue
        if len(res) >= 6:
            break
    return [k] + res


def salts(c):
    """other hashes, and salts of a length of their own"""
    r = c.rng
    scn = []
    keys = [Key(r, b) for b in ((1024, 1017, 777, 521) if c.quick else (1024, 1023, 1022, 1018, 1017, 1016, 1001, 900, 777, 700, 640, 521, 520, 512, 400))]
    for k in keys:
        for a in ("sha1", "sha224", "sha3-256", "md5", "sha256+sha1", "sha256+sha224", "sha256+sha512", "sha1+sha224", "sha1+sha512", "sha1+sha1"):
            h, g = a.split("+") if "+" in a else (a, a)
            sl, m = len(H(g, b"")), r.randbytes(r.randrange(60))
            mh = H(h, m)
            cmds = ["Key 1024 %s" % k.args()]
            for n in {sl, r.choice([0, 8, sl, 20, 32, 64]), len(mh)}:
                cmds.append("SignPss 1 %s %s %s" % (a, hx(mh), hx(r.randbytes(n))))
            good = empss(r, h, mh, r.randbytes(sl), k.bits)
            if good is None:
                cmds.append("VerifyPss 1 %s %s %s" % (a, hx(m), hx(k.raw(r.randrange(k.n)))))
            else:
                ems = [good, good] + [empss(r, h, mh, r.randbytes(n), k.bits) for n in (sl - 1, sl + 1, len(mh), 20, 0)]
                ems += [empss(r, h, mh, r.randbytes(sl), k.bits, **kw) for kw in ({"ps": 0}, {"ps": -1}, {"sep": 0}, {"sep": 0x81}, {"trailer": 0xcc}, {"flip_h": True}, {"zeros": 7}, {"mga": "sha1" if h != "sha1" else "sha256"}, {"mga": g})]
                for e in ems:
                    if e is not None:
                        cmds.append("VerifyPss 1 %s %s %s" % (a, hx(m), hx(k.raw(int.from_bytes(e, "big") % k.n))))
                s = k.raw(int.from_bytes(good, "big"))
                cmds += ["VerifyPss 1 %s %s %s" % (b, hx(m), hx(s)) for b in ("sha256", "sha1", "sha256+sha1", "sha1+sha224")]
                cmds += ["VerifyPss 1 %s %s %s" % (a, hx(x), hx(y)) for x, y in ((m + b"\0", s), (m, s[:-1]), (m, s + b"\0"), (m, flip(r, s)))]
            scn.append(cmds)
    return scn


def masks(c):
    """the mask generation function alone, also far beyond what a signature needs"""
    r = c.rng
    scn = []
    for h, hl in (("sha1", 20), ("sha224", 28), ("sha256", 32), ("sha384", 48), ("sha512", 64)):
        cmds = []
        for n in [0, 1, hl - 1, hl, hl + 1, 2 * hl, r.randrange(600), r.randrange(600)]:
            cmds.append("Mgf %s %s %d 0 %d" % (h, hx(r.randbytes(r.choice([0, 1, hl, hl, 51, 52, 55, 56, 60, 64, 107, 108, 124, 200]))), n, n))
        for blocks in (255, 256, 257, 300, 512, 513, r.randrange(500, 2000)) + ((65535, 65536, 65537, 65536 + 257) if not c.quick or h in ("sha1", "sha256") else (65537,)):
            n = blocks * hl - r.choice([0, 0, 1, hl - 1])
            seed = r.randbytes(r.choice([hl, hl, 1, 0, 60]))
            o = max(0, n - 3 * hl)
            cmds.append("Mgf %s %s %d %d %d" % (h, hx(seed), n, o, n - o))
            for o in (254 * hl, r.randrange(n), 511 * hl):
                if o < n:
                    cmds.append("Mgf %s %s %d %d %d" % (h, hx(seed), n, o, min(n - o, 4 * hl + 3)))
        r.shuffle(cmds)
        scn += [cmds[i:i + 8] for i in range(0, len(cmds), 8)]
    if True:
        for h, hl in (("sha1", 20),) if c.quick else (("sha1", 20), ("sha256", 32)):
            n = ((1 << 24) + 3) * hl - 1
            scn.append(["Mgf %s %s %d %d %d" % (h, hx(r.randbytes(hl)), n, n - 6 * hl, 6 * hl)])
    return scn


def twin_sessions(r, pss, bits, n):
    """keys that agree in part, used in turn"""
    scn = []
    for _ in range(n):
        ks = twins(r, bits)
        w = min(x for x in (512, 1024, 2048) if x >= bits)
        cmds = ["Key %d %s" % (w, k.args()) for k in ks]
        m = messages(r, pss)[0]
        for _ in range(12):
            i, j = r.randrange(len(ks)), r.randrange(len(ks))
            if r.random() < .4:
                h = "sha256"
                cmds.append("SignPss %d %s %s %s" % (i + 1, h, hx(H(h, m)), hx(r.randbytes(32))) if pss else "Sign %d %s %s" % (i + 1, h, hx(m)))
            else:
                sig = (forgepss if pss else forge15)(r, ks[j], "sha256", m, 1)
                cmds.append("Verify%s %d sha256 %s %s" % ("Pss" if pss else "", r.choice([i, j]) + 1, hx(m), hx(sig)))
                if r.random() < .5:     # the same question with a small change, then again
                    cmds += [cmds[-1].rsplit(" ", 2)[0] + " %s %s" % (hx(flip(r, m)), hx(sig)), cmds[-1], cmds[-1].rsplit(" ", 1)[0] + " " + hx(flip(r, sig)), cmds[-1]]
        scn.append(cmds)
    return scn


def key_raw(k, e):
    return k.raw(int.from_bytes(e, "big")) if e is not None else k.raw(5)


def flip(r, m):
    if not m:
        return b"\0"
    b = bytearray(m)
    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b)


SCHEMES = {"v15": {0x0401: "sha256", 0x0501: "sha384", 0x0601: "sha512"},
           "pss": {0x0804: "sha256", 0x0805: "sha384", 0x0806: "sha512", 0x0809: "sha256", 0x080a: "sha384", 0x080b: "sha512"}}
OTHERS = [0, 0x0403, 0x0503, 0x0603, 0x0807, 0x0808, 0x0201, 0x0402, 0x080c, 0x0701, 1, 0xffff]


def objects(c, pss, n):
    """the key objects: parsed private keys, TLS schemes"""
    r = c.rng
    scn = []
    mine = SCHEMES["pss" if pss else "v15"]
    allof = {**SCHEMES["v15"], **SCHEMES["pss"]}
    for i in range(n):
        k = Key(r, r.choice([520, 1023, 1024, 1040, 2047, 2048] if not pss else [1023, 1024, 1040, 1041, 1033, 600]))
        d = private_der(k)
        ispem = r.random() < .4
        cmds = ["Object %d %s %s" % (ispem, hx(pem("RSA PRIVATE KEY", d) if ispem else d), k.args())]
        m = messages(r, pss)[0]
        t = sorted(mine)[i % len(mine)]
        cmds.append("SchemeSign 1 %d %s" % (t, hx(m)))
        cmds.append("SchemeSign 1 %d %s" % (r.choice(OTHERS), hx(m)))
        for f in (1, r.randrange(2, 21), r.randrange(2, 21)):
            sig = (forgepss if pss else forge15)(r, k, mine[t], m, f)
            for t2 in {t, r.choice(sorted(allof)), r.choice(OTHERS)}:
                cmds.append("SchemeVerify 1 %d %s %s" % (t2, hx(m), hx(sig)))
        scn.append(cmds)
    return scn


def run(c, pss):
    fut = c.pool.submit(c.build, "h_rsa", MAINS, SRC)
    c.java()
    fm = c.pool.submit(c.model, "MC_RsaSig", None if c.quick else "MC_RsaSig_deep")
    beh = c.behaviours("Gen_Rsa", num=110 if c.quick else 1500, depth=12)
    ring = keyring(c, pss)
    c.notes["modulus_bits"] = sorted({k.bits for k in ring})
    scn = sessions(c, pss, beh, ring)
    r = c.rng
    # every kind of forgery for every hash on a few keys
    for f in range(1, 21):
        for h in ("sha256", "sha384", "sha512"):
            for k in r.sample(ring, 2 if c.quick else 6) + [x for x in ring if x.bits in (1017, 1023, 1024)][:1]:
                w = 1024 if k.bits <= 1024 else 2048
                m = messages(r, pss)[0]
                s = (forgepss if pss else forge15)(r, k, h, m, f)
                scn.append(["Key %d %s" % (w, k.args()), "Verify%s 1 %s %s %s" % ("Pss" if pss else "", h, hx(m), hx(s))])
    if not pss:
        k = [x for x in ring if x.bits == 1024][0]
        for h in ("md5", "sha1", "sha224"):
            for f in range(1, 21):
                m = messages(r, pss)[0]
                scn.append(["Key 1024 " + k.args(), "Sign 1 %s %s" % (h, hx(m)), "Verify 1 %s %s %s" % (h, hx(m), hx(forge15(r, k, h, m, f)))])
        for h in ("sha3-256", "sha3-512"):
            scn.append(["Key 1024 " + k.args(), "Sign 1 %s %s" % (h, hx(r.randbytes(40)))])
        for n in (65535, 65536, 16777215, 16777216, 16777216 + 70000):
            for h in (("sha256",) if c.quick else ("sha256", "sha384", "sha512")):
                scn.append(["Key 1024 " + k.args(), "SignZeros 1 %s %d" % (h, n)])
        for n in (0x12345678, 2 ** 32 + 70000):
            scn.append(["Key 1024 " + k.args(), "SignZeros 1 sha256 %d" % n])
    # several messages per mask length: every message size up to two blocks
    scn += objects(c, pss, 10 if c.quick else 80)
    scn += twin_sessions(r, pss, 1024, 4 if c.quick else 40) + twin_sessions(r, pss, 536 if pss else 512, 4 if c.quick else 40)
    if pss:
        k = [x for x in ring if x.bits == 1024][0] if any(x.bits == 1024 for x in ring) else ring[-1]
        for h in ("sha256", "sha384", "sha512"):
            hl = len(H(h, b""))
            for n in (65536, (1 << 24) + 70000) + (((1 << 29) + 13, (1 << 32) + 77) if h == "sha256" or not c.quick and h == "sha512" else ()):
                if (k.bits - 1 + 7) // 8 >= 2 * hl + 2:
                    scn.insert(0, ["Key 1024 " + k.args(), "PssZeros 1 %s %d %s %s" % (h, n, hx(zeros_digest(h, n)), hx(r.randbytes(hl)))])
        scn += masks(c) + salts(c)
        # salts of every length that fits, and longer ones
        for i in range(12 if c.quick else 60):
            k = ring[i % len(ring)]
            h = ("sha256", "sha384", "sha512")[i % 3]
            room = (k.bits - 1 + 7) // 8 - len(H(h, b"")) - 2
            m = r.randbytes(r.randrange(60))
            ls = [0, 1, max(room, 0), max(room - 1, 0), room + 1, room + 2, r.randrange(max(room, 1) + 4)]
            scn.append(["Key %d %s" % (min(x for x in (512, 1024, 2048) if x >= k.bits), k.args())] +
                       ["SignPss 1 %s %s %s" % (h, hx(H(h, m)), hx(r.randbytes(n))) for n in r.sample(ls, 4) if n >= 0])
    big = Key(r, 4096 if not c.quick else r.choice([3000, 4096, 4095]))
    m = messages(r, pss)[0]
    for h in ("sha256", "sha512"):
        s = (forgepss if pss else forge15)(r, big, h, m, 1)
        cmds = ["Key 4096 " + big.args(), "Verify%s 1 %s %s %s" % ("Pss" if pss else "", h, hx(m), hx(s))]
        cmds.append("SignPss 1 %s %s %s" % (h, hx(H(h, m)), hx(r.randbytes(len(H(h, b""))))) if pss else "Sign 1 %s %s" % (h, hx(m)))
        scn.append(cmds)
    ev = c.conform(fut.result(), "Trace_Rsa", scn, what="RSA-PSS" if pss else "RSA PKCS#1 v1.5", env={"VH_LIMIT": "250"})
    yes = sum(e.get("out") is True for t in ev for e in t)
    no = sum(e.get("out") is False for t in ev for e in t)
    c.notes["validations"] = {"accepted": yes, "rejected": no}
    if yes < 50 or no < 50:
        if not c.violations:
            from vlib.core import CheckError
            raise CheckError("validation coverage too small: %d accepted, %d rejected" % (yes, no))
    fm.result()


CHECKS = {"C19": lambda c: run(c, False), "C20": lambda c: run(c, True)}

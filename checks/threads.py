"""C26 the random source, C27 independent objects in independent threads."""
import json, os, subprocess
from vlib.core import hx, CheckError
from checks.hashes import data

TSAN = ("-O1", "-fsanitize=thread", "-fno-omit-frame-pointer")
TENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4"}


def tsan_works(c):
    """thread sanitizer cannot start on every kernel configuration; without it only results are judged"""
    src = os.path.join(c.work, "probe.cpp")
    with open(src, "w") as f:
        f.write("#include <thread>\n#include <mutex>\nint x; std::mutex m; int main(){ std::thread t([]{ std::lock_guard<std::mutex> l(m); x++; }); { std::lock_guard<std::mutex> l(m); x++; } t.join(); return x - 2; }\n")
    exe = os.path.join(c.work, "probe")
    try:
        subprocess.run(["clang++", "-fsanitize=thread", src, "-o", exe, "-lpthread"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ok = subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
    except (subprocess.SubprocessError, OSError):
        ok = False
    c.notes["thread_sanitizer"] = "used" if ok else "could not start here"
    return ok


def randoms(c):
    r = c.rng
    exe = c.pool.submit(c.build, "h_random", "h_random.cpp", ["random.cpp"])
    ts = c.pool.submit(lambda: c.build("h_random_tsan", "h_random.cpp", ["random.cpp"], TSAN) if tsan_works(c) else None)
    c.java()
    fm = c.pool.submit(c.model, "MC_Random", None if c.quick else "MC_Random_deep")
    scn = [["Draw 1"] * 5 + ["Draw 20"], ["Draw 1200" if c.quick else "Draw 40000"]]
    scn += [["Fill %d %d" % (b, n)] for b, n in ((8, 4096), (8, 65537 if not c.quick else 9001), (16, 5003), (32, 3001), (64, 1100))]
    # every buffer length at every element size
    for bits in (8, 16, 32, 64):
        k = 64 // bits
        ls = list(range(0, 5 * k + 2)) + [8 * k - 1, 8 * k, 8 * k + 1, 100, 255, 256, 257]
        for i in range(0, len(ls), 12):
            scn.append(["Fill %d %d" % (bits, n) for n in ls[i:i + 12]])
        scn.append(["Fill %d %d" % (bits, n) for n in (r.sample(range(4 * k + 3), min(12, 4 * k + 3)))] + ["Draw 2"])
    beh = c.behaviours("Gen_Random", num=150 if c.quick else 3000, depth=14)
    for b in beh:
        cmds = []
        for a in b:
            if a["op"] == "Inject":
                vals = [r.choice([0, 1, 2**64 - 1, r.getrandbits(64), r.getrandbits(64), 0x0102030405060708]) for _ in range(a["n"])]
                cmds.append(("Inject " + " ".join(map(str, vals))).strip())
            elif a["op"] == "Draw":
                cmds.append("Draw %d" % a["n"])
            elif a["op"] == "Fill":
                cmds.append("Fill %d %d" % (a["bits"], r.choice([a["n"], a["n"], a["n"] + 64 // a["bits"], 0, 64 // a["bits"]])))
            else:
                if any(x.startswith("Inject") for x in cmds[-1:]):
                    cmds[-1] = "Inject " + " ".join(str(v) for v in r.sample(range(1, 2**63), a["n"] + 3))
                else:
                    cmds.append("Inject")
                cmds.append("Threads %d %d %d" % (a["n"] % 3 + 2, r.choice([3, 10, 30]), r.choice([0, a["bits"]])))
        scn.append(cmds)
    # long runs: positions near powers of two, and what comes after
    for bits in (0, 8, 16, 32, 64):
        for n in ((1 << 17) + 3, (1 << 21) + 1) + (() if c.quick else ((1 << 24) + 5, (1 << 27) + 1)):
            w = {0, 1, n - 1} | {r.randrange(n) for _ in range(5)} | {x for e in range(7, 28) for x in ((1 << e) - 1, 1 << e, (1 << e) + 1) if x < n}
            scn.insert(0, ["Long %d %d %s" % (bits, n, " ".join(map(str, sorted(w)))), "Draw 2"])
    scn.insert(0, ["Draw 1", "Long 0 %d %d" % ((1 << 24) if c.quick else (1 << 30), 12345), "Fill 8 20"])
    c.conform(exe.result(), "Trace_Random", scn, what="random source")
    # contention: many short draws by many threads
    scn = []
    for i in range(24 if c.quick else 200):
        inj = ["Inject " + " ".join(str(v) for v in r.sample(range(1, 2**63), r.choice([50, 300])))] if i % 3 == 0 else []
        scn.append(inj + ["Threads %d %d %d" % (r.choice([2, 4, 8]), r.choice([60, 150]), r.choice([0, 0, 8, 16, 32, 64]))] + ["Draw 2"])
    c.conform(exe.result(), "Trace_Random", scn, what="draws by several threads")
    if ts.result():
        scn = [["Inject " + " ".join(map(str, range(1, 40))), "Threads 4 30 %d" % b, "Draw 1"] for b in (0, 8, 16, 32, 64)]
        c.conform(ts.result(), "Trace_Random", scn, what="draws by several threads, race detector", env=TENV)
    fm.result()



# ------------------------------------------------------------------ C27
MAINS = ["h_threads.cpp"] + ["h_%s.cpp" % m for m in "base64 calc cipher field hash kdf mont rsa x509".split()] + ["rsa_%d.cpp" % n for n in (512, 1024, 2048, 4096)]
SRC = ["md5.cpp", "sha1.cpp", "sha2.cpp", "sha3.cpp", "crc.cpp", "hash.cpp", "aes.cpp", "base64.cpp", "random.cpp", "X509Certificate.cpp", "Asn1.cpp", "Truststore.cpp"]
SPEC = {"hash": "Trace_Hash", "kdf": "Trace_KDF", "cipher": "Trace_Cipher", "base64": "Trace_Base64", "calc": "Trace_Calc", "mont": "Trace_Mont",
        "prime": "Trace_Prime", "field": "Trace_X25519", "rsa": "Trace_Rsa", "x509": "Trace_X509"}
ALGS = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sha3-224", "sha3-256", "sha3-384", "sha3-512"]


KINDS = {"hash": ALGS + ["crc32"], "kdf": [(a, b) for a in ALGS for b in (0, 1)], "cipher": [(k, b) for k in range(4) for b in (128, 256)],
         "prime": [32, 64, 128, 256], "rsa": [0, 1], "x509": [0, 1]}


def use(r, m, slow, pki, kind=None, big=1):
    """what one thread does with its own objects of a module (of one kind, on larger data)"""
    from checks import kdf, x509, numbers, modular, rsa
    d = lambda n: hx(data(r, n))
    if m == "hash":
        a = kind or r.choice(ALGS + ["crc32"])
        cmds = ["New 1 %s %s" % (a, d(r.randrange(100)))]
        named = a != "crc32" and r.random() < .5
        if named:
            cmds = ["Named 1 %s" % hx(a.encode())]
        for _ in range(r.randrange(3, 9)):
            cmds.append(r.choice(["Add 1 %s %d" % (d(r.choice([0, 1, 55, 63, 64, 100, 200]) * big), r.randrange(2)), "Read 1", "Read 1" if named else "Copy 1 2", "Add 1 %s 0" % d(r.randrange(300) * big)]))
        return cmds + ["Read 1"]
    if m == "kdf":
        a, full = kind or (r.choice(ALGS), r.randrange(2))
        h = kdf.HLEN[a]
        if full:
            t = d(h)
            return ["Handshake 1 %s %s" % (a, d(32)), "Traffic 1 %s %d %d" % (t, r.randrange(2), r.randrange(2)), "KeyIv 1 %s %d 0 %d %d" % (t, r.randrange(2), r.choice([128, 256]), r.randrange(2)),
                    "Finished 1 %s 1" % t, "Master 1 2", "Exporter 2 %s" % t, "Update 2 3", "Secret 3", "Secret 1"]
        return ["Hmac %s %s %s" % (a, d(r.randrange(200)), d(r.randrange(300))), "Extract %s %s %s" % (a, d(h), d(r.randrange(100))),
                "Expand %s %s %s %d" % (a, d(h), d(r.randrange(30)), r.randrange(3 * h)), "ExpandLabel %s %s 6b6579 %s %d" % (a, d(h), d(h), r.randrange(2 * h))]
    if m == "cipher":
        k, bits = kind or (r.randrange(4), r.choice([128, 256]))
        key = d(bits // 8)
        if k == 0:
            return ["AesKey 1 %d %s" % (bits, key)] + ["AesEnc 1 %s" % d(16) for _ in range(6)]
        if k == 1:
            iv = d(12)
            return ["GcmNew 1 %d %s %s" % (bits, key, iv)] + ["GcmEnc 1 %s %s" % (d(r.randrange(100)), d(r.randrange(30))) for _ in range(5)] + ["GcmNew 2 %d %s %s" % (bits, key, iv), "GcmDec 2 %s %s %s" % (d(20), d(4), d(16))]
        if k == 2:
            return ["CtrNew 1 %d %s %s" % (bits, key, d(16))] + ["Ctr 1 %d %s" % (r.randrange(2), d(r.randrange(100))) for _ in range(6)]
        return ["ChaNew 1 %s %s" % (d(32), d(12))] + ["Cha 1 %d %s" % (r.randrange(2), d(r.randrange(200))) for _ in range(6)]
    if m == "base64":
        return ["Round %d %d %d %d %s" % (r.randrange(2), r.randrange(2), r.randrange(2), r.randrange(10**6), d(r.randrange(200))) for _ in range(5)]
    if m == "calc":
        return None
    if m == "prime":
        w = kind or r.choice([32, 64, 128, 256])
        ns = [modular.prime_near(r, w, r.randrange(2)), r.getrandbits(w) | 1, r.choice([561, 2047, 3215031751 % 2**w, 65537, 1, 0, 4])]
        return ["IsPrime %d %s" % (w, n.to_bytes(w // 8, "little").hex()) for n in ns]
    if m == "field":
        return ["X %s %s" % (d(32), d(32)) for _ in range(1 if slow else 2)]
    if m == "rsa":
        k = r.choice(pki[:3])
        cmds = ["Key %d %s" % (1024 if k.bits > 512 else 512, k.args())]
        h = r.choice(["sha256", "sha384"]) if k.bits > 700 else "sha256"
        msg = r.randbytes(r.randrange(100))
        if r.random() < .3 if kind is None else kind:
            der = rsa.private_der(k)
            return ["Object 0 %s %s" % (hx(der), k.args()), "SchemeVerify 1 1025 %s %s" % (hx(msg), hx(rsa.forge15(r, k, "sha256", msg, r.choice([1, 3]))))]
        return cmds + ["Sign 1 %s %s" % (h, hx(msg)), "Verify 1 %s %s %s" % (h, hx(msg), hx(rsa.forge15(r, k, h, msg, r.choice([1, 1, 3, 7])))),
                       "SignPss 1 sha256 %s %s" % (hx(rsa.H("sha256", msg)), d(32)), "VerifyPss 1 sha256 %s %s" % (hx(msg), hx(rsa.forgepss(r, k, "sha256", msg, r.choice([1, 1, 3, 8]))))]
    if m == "x509":
        if r.random() < .5 if kind is None else kind:
            c, _ = x509.anycert(r)
            while len(c) > 900:
                c, _ = x509.anycert(r)
            return ["Parse 1 1 %s" % hx(c), "ParsePem 2 1 %s %s" % (hx(c), hx(x509.anypem(r, c)))]
        k, k2 = r.sample(pki, 2)
        ca = x509.make(r, k, 1, 1, x509.BASE, x509.BASE + 9 * x509.DAY, k)[1]
        leaf = x509.make(r, k2, 2, 1, x509.BASE, x509.BASE + x509.DAY, r.choice([k, k, k2]), r.choice(["sha256", "sha384", "sha512"]), spki=x509.spki_ec(r) if slow else None)[1]
        return ["Parse 1 1 %s" % hx(ca), "Parse 2 1 %s" % hx(leaf), "Verify 2 1"]


def independent(c):
    from checks import numbers, modular
    from checks.rsa import Key
    r = c.rng
    exe = c.pool.submit(c.build, "h_threads", MAINS, SRC, ("-O2",), ("-DVH_LIB",))
    c.java()
    fm = c.pool.submit(c.model, "MC_Threads", None if c.quick else "MC_Threads_deep")
    calc = c.behaviours("Gen_Calc", num=30, depth=12)
    mont = c.behaviours("Gen_Mont", num=30, depth=8)
    pki = [Key(r, b) for b in (768, 1024, 776, 800)]
    mods = sorted(SPEC)

    def thread(slow):
        out = []
        for m in r.sample(mods, r.randrange(2, 5)):
            if m == "calc":
                cmds = numbers.program(r, r.choice([32, 64, 128, 256]), r.choice(calc))
            elif m == "mont":
                w = r.choice([32, 64, 128, 256])
                cmds = modular.program(r, w, r.choice(modular.mods(r, w)), r.choice(mont))
            else:
                cmds = use(r, m, slow, pki)
            out.append((m, cmds))
        return out

    def trace(n, slow, same=None, kind=None, big=1):
        cmds = []
        for t in range(1, n + 1):
            seen = set()
            for m, cs in (thread(slow) if same is None else [(same, use(r, same, slow, pki, kind, big))]):
                cmds += ["%d %s %s" % (t, m, x) for x in cs]
        return cmds

    def plan(n, slow):
        scn = [trace(r.choice([2, 4, 8]) if not slow else r.choice([2, 3, 4]), slow) for _ in range(n)]
        # every thread the same kind of object, where shared state would hurt most
        for m in mods:
            if m not in ("calc", "mont"):
                for _ in range(2 if c.quick else 10):
                    scn.append(trace(4, slow, m))
        # every thread the same function of it
        for m in KINDS:
            for kind in KINDS[m]:
                for _ in range(1 if c.quick else 5):
                    scn.append(trace(4 if slow else 6, slow, m, kind, 1 if slow else 8))
        return scn

    def judge(exe, scn, what, env=None):
        """each thread's events of a module, on their own, must be a behaviour of the sequential specification"""
        def group(ev):
            g = {}
            for i, t in enumerate(ev):
                for e in t:
                    e = dict(e)
                    k = (i, e.pop("_th"), e.pop("_mod"))
                    if k[2] == "any":
                        g.setdefault((i, 0, "hash"), []).append(e)      # RACE, CRASH, TIMEOUT: accepted by no specification
                    else:
                        g.setdefault(k, []).append(e)
            return g

        def rejected(g):
            bad = []
            fs = {m: c.pool.submit(c.validate, SPEC[m], [g[k] for k in sorted(g) if k[2] == m], tag=m, workers=2) for m in mods}
            for m in mods:
                ks = [k for k in sorted(g) if k[2] == m]
                bad += [(ks[i], n) for i, n in fs[m].result().items()]
            return bad
        ev = c.execute(exe, scn, env=env, jobs=4)
        g = group(ev)
        bad = rejected(g)
        ok = len(g) - len(bad)
        c.traces_ok += ok
        c.events_ok += sum(map(len, g.values()))
        c.log("%s: %d runs, %d threads' histories, %d rejected" % (what, len(scn), len(g), len(bad)))
        c.samples.append({"trace_spec": "per thread and module", "scenario": scn[0][:12]})
        if not bad:
            return
        idx = sorted({k[0] for k, _ in bad})[:6]
        for _ in range(6):              # a schedule is not repeatable: run the same scenarios until one fails again
            again = [scn[i] for i in idx] * 2
            g2 = group(c.execute(exe, again, env=env, jobs=4))
            b2 = rejected(g2)
            if b2:
                k, n = b2[0]
                c.violation(what, {"trace_spec": SPEC[k[2]], "scenario": again[k[0]], "thread": k[1], "events": g2[k], "events_accepted": n, "rejected_event": g2[k][n] if n < len(g2[k]) else None, "library_output": c.stderr[-3000:]})
                return
        # not seen again: the recorded histories are evidence all the same
        k, n = bad[0]
        c.violation(what, {"trace_spec": SPEC[k[2]], "scenario": scn[k[0]], "thread": k[1], "events": g[k], "events_accepted": n, "rejected_event": g[k][n] if n < len(g[k]) else None})
    judge(exe.result(), plan(60 if c.quick else 800, False), "independent threads")
    if tsan_works(c):
        ts = c.build("h_threads_tsan", MAINS, SRC, TSAN, ("-DVH_LIB",))
        judge(ts, plan(16 if c.quick else 150, True), "independent threads, race detector", TENV)
    fm.result()


CHECKS = {"C26": randoms, "C27": independent}

"""Runner shared by all checks: builds the Java evaluators and the C++ harness
from /repo's working tree, runs TLC on models and on recorded traces, decides,
and writes the evidence file.  Python standard library only."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
JOBS = max(2, min(8, os.cpu_count() or 2))

PRE = []
for h in ("cstring", "algorithm", "memory", "variant", "filesystem", "stdexcept", "functional",
          "array", "cstdint", "span", "string", "vector", "chrono", "map", "mutex", "optional"):
    PRE += ["-include", h]
BASEFLAGS = ["-std=gnu++20", "-g1", "-maes", "-mpclmul", "-Wno-everything"]


class CheckError(Exception):
    """The check could not reach a verdict (not a violation)."""


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.quick = self.tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.states = self.transitions = 0
        self.traces_ok = self.events_ok = 0
        self.samples = []
        self.models = []
        self.notes = {}
        self.violations = []
        self.assumptions = []
        self._java = None
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def java(self):
        if self._java is None:
            out = os.path.join(self.work, "classes")
            os.makedirs(out, exist_ok=True)
            src = sorted(os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java"))
            r = subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "-d", out] + src,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("javac failed:\n" + r.stdout)
            self._java = out
        return self._java

    def build(self, name, main, sources=(), flags=("-O2",), extra=(), libs=()):
        """Compile harness/<main> and the given files of /repo/src into one program."""
        objdir = os.path.join(self.work, "obj-" + name)
        os.makedirs(objdir, exist_ok=True)
        cmd = ["clang++"] + BASEFLAGS + list(flags) + PRE + ["-I" + REPO + "/include", "-I" + VERIF + "/harness"] + list(extra)
        mains = [main] if isinstance(main, str) else list(main)
        jobs = [(os.path.join(VERIF, "harness", m), os.path.join(objdir, m + ".o")) for m in mains]
        jobs += [(os.path.join(REPO, "src", s), os.path.join(objdir, s + ".o")) for s in sources]

        def one(j):
            r = subprocess.run(cmd + ["-c", j[0], "-o", j[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return j, r
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for j, r in ex.map(one, jobs):
                if r.returncode:
                    raise CheckError("compiling %s failed:\n%s" % (j[0], r.stdout[-4000:]))
        exe = os.path.join(self.work, name)

        def link():
            return subprocess.run(["clang++"] + list(flags) + [o for _, o in jobs] + ["-o", exe, "-lpthread"] + list(libs),
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = link()
        if r.returncode:
            # code may have moved between the library's source files: take all of them
            more = [(os.path.join(d, f), os.path.join(objdir, os.path.relpath(os.path.join(d, f), REPO + "/src").replace("/", "_") + ".o"))
                    for d, _, fs in os.walk(REPO + "/src") for f in sorted(fs) if f.endswith((".cpp", ".cc", ".cxx")) and os.path.join(d, f) not in [j[0] for j in jobs]]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                jobs += [j for j, r2 in ex.map(one, more) if r2.returncode == 0]
            r = link()
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        return exe

    # --------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=None, timeout=1500, heap="3g", tag=""):
        classes = self.java()
        mdir = os.path.join(self.work, "tlc-%s%s-%d" % (module, tag, random.getrandbits(30)))
        os.makedirs(mdir)
        path = None
        for d in ("spec", "spec/models", "spec/traces"):
            p = os.path.join(VERIF, d, module + ".tla")
            if os.path.exists(p):
                path = p
        if path is None:
            raise CheckError("no module " + module)
        cfgp = os.path.join(os.path.dirname(path), (cfg or module) + ".cfg")
        lib = ":".join(os.path.join(VERIF, d) for d in ("spec/lib", "spec", "spec/models", "spec/traces"))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
               classes + ":" + TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
               "-DTLA-Library=" + lib, "tlc2.TLC", "-metadir", mdir, "-workers", str(workers or JOBS),
               "-config", cfgp, "-noGenerateSpecTE"] + list(args) + [path]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=mdir)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        shutil.rmtree(mdir, ignore_errors=True)
        out = r.stdout
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        gen = int(m.group(1).replace(",", "")) if m else 0
        dist = int(m.group(2).replace(",", "")) if m else 0
        return r.returncode, out, gen, dist

    def model(self, module, cfg=None, env=None, args=(), expect_violation=None, **kw):
        """Exhaustive model check; a failure here is a failure of the specification.
        With expect_violation the model describes a mistake, which one of these invariants must expose."""
        rc, out, gen, dist = self.tlc(module, cfg, env, args, **kw)
        if expect_violation:
            if not any("Invariant %s is violated" % x in out for x in expect_violation):
                raise CheckError("the mistake in %s (%s) was not found, rc=%d:\n%s" % (module, env or cfg or module, rc, out[-3000:]))
            self.models.append({"model": (cfg or module) + " " + " ".join("%s" % v for v in (env or {}).values()), "mistake_found": True})
            return out
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model %s (%s) failed, rc=%d:\n%s" % (module, cfg or module, rc, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"model": cfg or module, "distinct_states": dist, "states_generated": gen})
        return out

    def behaviours(self, module, cfg=None, num=100, depth=10, env=None, exhaustive=False, seed=None, **kw):
        """Behaviours of a model (lists of actions) that it prints as SCN lines."""
        args = [] if exhaustive else ["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(self.seed if seed is None else seed)]
        rc, out, gen, dist = self.tlc(module, cfg, dict(env or {}, DEPTH=depth if exhaustive else depth + 1), args, workers=None if exhaustive else 1, **kw)
        if "Error:" in out:
            raise CheckError("behaviours of %s failed:\n%s" % (cfg or module, out[-3000:]))
        res = []
        for line in out.splitlines():
            if line.startswith('"SCN '):
                res.append(json.loads(json.loads(line)[4:]))
        if not exhaustive:
            # the simulator evaluates the printing invariant on every candidate for the last
            # step; keep one behaviour per run, without that step
            seen = {}
            for b in res:
                seen.setdefault(json.dumps(b[:-1]), b[:-1])
            res = list(seen.values())
        if not res:
            raise CheckError("no behaviours from %s:\n%s" % (cfg or module, out[-2000:]))
        if exhaustive:
            self.states += dist
            self.transitions += gen
        self.models.append({"model": cfg or module, "behaviours": len(res)})
        return res

    # ----------------------------------------------------------------- harness
    def execute(self, exe, scenarios, jobs=None, timeout=600, env=None, args=()):
        """scenarios: list of lists of command lines -> list of event lists (same order)."""
        jobs = jobs or JOBS
        n = len(scenarios)
        chunks = [list(range(i, n, jobs)) for i in range(min(jobs, n))]

        def one(c):
            f = os.path.join(self.work, "scn-%d" % random.getrandbits(40))
            with open(f, "w") as fh:
                for i in c:
                    fh.write("T %d\n" % i)
                    for cmd in scenarios[i]:
                        fh.write(cmd + "\n")
            try:
                r = subprocess.run([exe, f] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=timeout, env=dict(os.environ, **dict({"VH_LIMIT": "100"} if self.quick else {}, **(env or {}))), cwd=self.work)
            except subprocess.TimeoutExpired:
                raise CheckError("harness did not finish")
            os.unlink(f)
            if r.returncode:
                raise CheckError("harness failed rc=%d: %s" % (r.returncode, r.stderr[-2000:].decode(errors="replace")))
            return r.stdout.decode(), r.stderr.decode(errors="replace")
        events = [[] for _ in range(n)]
        self.stderr = ""
        with cf.ThreadPoolExecutor(jobs) as ex:
            for out, err in ex.map(one, chunks):
                self.stderr += err
                for line in out.splitlines():
                    try:
                        d = json.loads(line)
                    except ValueError:
                        raise CheckError("bad harness line: " + line[:300])
                    t = d.pop("tid")
                    events[t].append(d)
        return events

    # ------------------------------------------------------------- trace check
    def validate(self, module, traces, env=None, cfg=None, **kw):
        """-> {trace index: number of events matched} for rejected traces."""
        # what one run of TLC can hold
        parts, size = [[]], 0
        for i, t in enumerate(traces):
            n = len(json.dumps(t))
            if parts[-1] and size + n > 24 << 20:
                parts.append([])
                size = 0
            parts[-1].append(i)
            size += n
        if len(parts) > 1:
            rej = {}
            for p in parts:
                rej.update({p[i]: n for i, n in self.validate(module, [traces[i] for i in p], env, cfg, **kw).items()})
                if len(rej) >= 6:
                    break
            return rej
        rej, left = {}, list(range(len(traces)))
        while left:
            f = os.path.join(self.work, "traces-%d.ndjson" % random.getrandbits(40))
            with open(f, "w") as fh:
                for i in left:
                    fh.write(json.dumps(traces[i]) + "\n")
            rc, out, gen, dist = self.tlc(module, cfg, dict(env or {}, TRACES=f), ["-deadlock"], **kw)
            os.unlink(f)
            self.states += dist
            self.transitions += gen
            if rc != 0 or "No error has been found" not in out:
                # an event the specification cannot even evaluate (a field missing, too few bytes)
                # is rejected; anything else is a failure of the machinery
                m = re.findall(r"^/\\ tid = (\d+)$", out, re.M)
                n = re.findall(r"^/\\ l = (\d+)$", out, re.M)
                if len(rej) < 6 and m and n and re.search(r"threw an unexpected exception|Evaluating|Attempted to|evaluat", out) \
                        and not re.search(r"OutOfMemory|heap space|StackOverflow|java.lang.Error|GC overhead|IOException", out):
                    i = left[int(m[-1]) - 1]
                    rej[i] = int(n[-1]) - 1
                    self.notes.setdefault("unevaluable_events", []).append(out[out.find("Error:"):][:300])
                    left.remove(i)
                    continue
                if rej:
                    return rej
                raise CheckError("trace validation %s did not finish, rc=%d:\n%s" % (module, rc, out[-3500:]))
            reached = {}
            for m in re.finditer(r'<<"AT", (\d+), (\d+)>>', out):
                t, l = int(m.group(1)), int(m.group(2))
                reached[t] = max(reached.get(t, 0), l)
            if len(reached) != len(left):
                raise CheckError("trace validation %s lost traces: %d of %d\n%s" % (module, len(reached), len(left), out[-2000:]))
            for j, i in enumerate(left):
                if reached[j + 1] != len(traces[i]) + 1:
                    rej[i] = reached[j + 1] - 1
            break
        return rej

    def conform(self, exe, module, scenarios, env=None, what="", runs=None, trace_env=None, post=None, harness_args=(), **kw):
        """Run scenarios on the real code, validate the traces; confirm and report rejections."""
        ev = self.execute(exe, scenarios, env=env, args=harness_args)
        if post:
            ev = post(ev)
        if any(e and e[-1].get("ev") == "TIMEOUT" for e in ev):
            # a hang ends the run of its share of the scenarios; judge what was recorded
            keep = [i for i, e in enumerate(ev) if e]
            scenarios, ev = [scenarios[i] for i in keep], [ev[i] for i in keep]
        for i, e in enumerate(ev):
            if not e:
                raise CheckError("scenario %d produced no events: %s" % (i, scenarios[i][:3]))
        rej = self.validate(module, ev, env=trace_env, **kw)
        ok = len(ev) - len(rej)
        self.traces_ok += ok
        self.events_ok += sum(len(e) for i, e in enumerate(ev) if i not in rej)
        self.log("%s: %d traces, %d events, %d rejected" % (what or module, len(ev), sum(map(len, ev)), len(rej)))
        if len(self.samples) < 6:
            k = min(range(len(ev)), key=lambda i: (i in rej, abs(len(json.dumps(ev[i])) - 600)))
            self.samples.append({"trace_spec": module, "scenario": clip(scenarios[k]), "events": clip(ev[k])})
        if rej:
            idx = sorted(rej, key=lambda i: (any("Long" in x.split(" ", 1)[0] for x in scenarios[i]), i))[:8]    # short ones first
            scn2 = [scenarios[i] for i in idx]
            for attempt in range(5):        # what depends on uninitialized memory or timing may need several runs
                ev2 = self.execute(exe, scn2, env=env, args=harness_args)
                if post:
                    ev2 = post(ev2)
                have = [j for j, e in enumerate(ev2) if e]
                r2 = self.validate(module, [ev2[j] for j in have], env=trace_env, **kw)
                conf = [(idx[have[j]], ev2[have[j]], r2[j]) for j in sorted(r2)]
                if conf:
                    break
            if not conf:
                raise CheckError("rejected traces were accepted when run again: %s" % idx)
            for i, e, n in conf[:3]:
                self.violation(what or module, {"trace_spec": module, "scenario": scenarios[i], "events": e,
                                                "events_accepted": n, "rejected_event": e[n] if n < len(e) else None})
        return ev

    # ------------------------------------------------------------------ result
    def violation(self, what, detail):
        os.makedirs(self.replay_dir, exist_ok=True)
        p = os.path.join(self.replay_dir, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "detail": detail}, f)
        self.violations.append(p)
        self.log("VIOLATION in", what, json.dumps(clip(detail))[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)

    def finish(self, level="model_checking", exhaustive=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces_ok, "events_validated": self.events_ok,
               "models": self.models, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("done: %d traces accepted, %d violations" % (self.traces_ok, len(self.violations)))
        return 1 if self.violations else 0

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)


def clip(x, n=48):
    if isinstance(x, list):
        y = [clip(v, n) for v in x[:n]]
        return y + ["... %d more" % (len(x) - n)] if len(x) > n else y
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + "...(%d)" % len(x)
    return x


def hx(b):
    b = bytes(b)
    return b.hex() if b else "-"

"""Runs TLC and the conformance driver; judges nothing itself.

A check generates behaviours with TLC from a specification in spec/, replays them in the code of
/repo's working tree with the driver in harness/, and has TLC validate what was recorded against
the specification. Besides the recorded runs, every validation gets a few canaries (records with a
field corrupted) which TLC must reject.
"""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
    env["PATH"] = env.get("PATH", "") + ":/usr/local/bin:/root/.cargo/bin"
    return env


def build(html=False, cli=False):
    """The driver (and the command line) from /repo's current tree."""
    target = os.path.join(BUILD, "target-html" if html else "target")
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = target
    # cargo decides by mtime: forget what it knows of the crate under test.
    for d in ("debug",):
        fp = os.path.join(target, d, ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(("minifier-", "conform-")):
                    shutil.rmtree(os.path.join(fp, n))
    cmd = ["cargo", "build", "--offline"] + (["--features", "html"] if html else [])
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building the driver failed:\n" + r.stdout[-3000:])
    return os.path.join(target, "debug", "conform")


def build_cli():
    """The command line from a copy of /repo's current tree (nothing is written in /repo)."""
    src = os.path.join(BUILD, "cli-src")
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns("target", ".git", "fuzz"))
    env = cargo_env()
    target = os.path.join(BUILD, "target-cli")
    env["CARGO_TARGET_DIR"] = target
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("minifier-"):
                shutil.rmtree(os.path.join(fp, n))
    r = subprocess.run(["cargo", "build", "--offline", "--bin", "minifier"], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building the command line failed:\n" + r.stdout[-3000:])
    return os.path.join(target, "debug", "minifier")


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.parts = []
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.rng = random.Random(seed)
        self.driver = None
        self.n = 0
        self.distinct = set()

    def note(self, msg):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s] {msg}", file=sys.stderr, flush=True)

    def fresh(self, name):
        self.n += 1
        d = os.path.join(self.dir, f"{self.n:03d}-{name}")
        os.makedirs(d)
        return d

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env, workdir, args=(), workers=1, heap="3g", timeout=3000, serial=True):
        e = dict(os.environ)
        e.update({k: str(v) for k, v in env.items()})
        e["JAVA_TOOL_OPTIONS"] = "-Dfile.encoding=UTF-8"
        meta = os.path.join(workdir, "meta")
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m",
               "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={meta}",
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               *args, "-config", cfg, module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, encoding="utf-8", errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC ran out of time on {module}")
        with open(os.path.join(workdir, "tlc.log"), "w") as f:
            f.write(r.stdout)
        m = re.findall(r"([\d,]+) states generated(?:, ([\d,]+) distinct)?", r.stdout)
        sim = re.findall(r"The number of states generated: ([\d,]+)", r.stdout)
        gen = dist = 0
        if m:
            gen = int(m[-1][0].replace(",", ""))
            dist = int((m[-1][1] or m[-1][0]).replace(",", ""))
        elif sim:
            gen = dist = int(sim[-1].replace(",", ""))
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout, gen, dist

    def tlc_ok(self, *a, **k):
        rc, out, gen, dist = self.tlc(*a, **k)
        if rc != 0:
            raise ToolError(f"TLC failed on {a[0]} (exit {rc}):\n" + out[-3000:])
        self.transitions += gen
        self.states += dist
        return gen, dist

    def model(self, name, module, cfg, env=None, workers=CORES, heap="8g", timeout=3000, expect=None):
        """Model checking of a specification alone (its own invariants)."""
        d = self.fresh(name)
        rc, out, gen, dist = self.tlc(module, cfg, env or {}, d, workers=workers, heap=heap, timeout=timeout, serial=False)
        if expect:  # a deliberately broken specification must be caught
            if expect not in out:
                raise ToolError(f"{name}: TLC was expected to report {expect!r}:\n" + out[-2000:])
        elif rc != 0:
            raise ToolError(f"{name}: TLC failed (exit {rc}):\n" + out[-3000:])
        self.states += dist
        self.transitions += gen
        self.parts.append({"part": name, "kind": "specification model-checked" if not expect else "broken specification rejected",
                           "module": module, "states": dist, "transitions": gen})
        self.note(f"{name}: {dist} states")

    def generate(self, name, module, env=None, mode="sim", num=1000, procs=CORES, depth=100000, cfg="Gen.cfg", timeout=3000, limit=None):
        """Behaviours of a specification, as the JSON values it wrote."""
        d = self.fresh("gen-" + name)
        env = dict(env or {})
        env["VF_MODE"] = mode
        if mode == "bfs":
            jobs = [(0, 0)]
        else:
            procs = max(1, min(procs, num // 50 or 1))
            jobs = [(k, num // procs) for k in range(procs)]
        tot = [0, 0]

        def one(job):
            k, n = job
            w = os.path.join(d, str(k))
            os.makedirs(w)
            out = os.path.join(w, "out.txt")
            ee = dict(env, VF_OUT=out)
            if mode == "bfs":
                args, workers, heap = [], CORES, "10g"
            else:
                s = int(hashlib.sha256(f"{self.seed}/{self.prop}/{name}/{k}".encode()).hexdigest()[:12], 16)
                args, workers, heap = ["-simulate", f"num={n}", "-depth", str(depth), "-seed", str(s)], 1, "2g"
            rc, log, gen, dist = self.tlc(module, cfg, ee, w, args, workers=workers, heap=heap, timeout=timeout)
            if rc != 0:
                raise ToolError(f"generating {name} failed (exit {rc}):\n" + log[-3000:])
            if os.path.exists(out):
                with open(out, encoding="utf-8") as f:
                    lines = [json.loads(l) for l in f if l.strip()]
            else:
                lines = []
            return lines, gen, dist

        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(one, jobs))
        seen, items = set(), []
        for lines, gen, dist in res:
            tot[0] += gen
            tot[1] += dist
            for l in lines:
                if l not in seen:
                    seen.add(l)
                    items.append(json.loads(l))
        if not items:
            raise ToolError(f"{name}: the specification generated nothing")
        self.transitions += tot[0]
        self.states += tot[1]
        if limit and len(items) > limit:
            items = random.Random(f"{self.seed}/{name}").sample(items, limit)
        self.parts.append({"part": name, "kind": "behaviours enumerated exhaustively" if mode == "bfs" else "behaviours simulated",
                           "module": module, "states": tot[1], "transitions": tot[0], "behaviours": len(items),
                           **{k: env[k] for k in env if k in ("VF_START", "VF_FUEL", "VF_REPS", "VF_N")}})
        self.note(f"generated {len(items)} ({name})")
        return items

    # --------------------------------------------------------------- driver
    def replay(self, name, items, cmd, args=(), stall=30, procs=CORES):
        """Runs the driver on the items; records one JSON value per item (crashes and hangs too)."""
        d = self.fresh("replay-" + name)
        procs = max(1, min(procs, len(items) // 20 or 1))
        per = (len(items) + procs - 1) // procs
        chunks = [(k * per, items[k * per:(k + 1) * per]) for k in range(procs) if items[k * per:(k + 1) * per]]

        def one(chunk):
            base, its = chunk
            inp = os.path.join(d, f"{base}.in")
            out = os.path.join(d, f"{base}.out")
            with open(inp, "w", encoding="utf-8") as f:
                for it in its:
                    f.write(json.dumps(it, ensure_ascii=True) + "\n")
            open(out, "w").close()
            done, recs, hangs = 0, [], 0
            while done < len(its):
                p = subprocess.Popen([self.driver, cmd, "--in", inp, "--out", out, "--from", str(done),
                                      "--seed", str((self.seed * 1000003 + base) % (1 << 63)), *map(str, args)],
                                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                     preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)))
                size, last, hung = -1, time.time(), False
                while True:
                    try:
                        p.wait(timeout=0.05 if size < 0 else 0.5)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    now = os.path.getsize(out)
                    if now != size:
                        size, last = now, time.time()
                    elif time.time() - last > stall:
                        hung = True
                        p.kill()
                        p.wait()
                        break
                err = p.stderr.read().decode("utf-8", "replace")[-400:]
                p.stderr.close()
                with open(out, encoding="utf-8") as f:
                    text = f.read()
                if text and not text.endswith("\n"):
                    text = text[:text.rfind("\n") + 1]
                recs = text.split("\n")[:-1]
                if p.returncode == 0 and not hung:
                    if len(recs) != len(its):
                        raise ToolError(f"{name}: the driver recorded {len(recs)} of {len(its)}")
                    break
                if p.returncode == 2 or (p.returncode == 101 and not hung):
                    raise ToolError(f"{name}: the driver failed: {err}")
                # The code under test took the process down: that is what this behaviour does.
                k = len(recs)
                it = its[k]
                crash = dict(it, i=k, crash="hang" if hung else f"signal {-p.returncode}" if p.returncode < 0 else f"exit {p.returncode}")
                with open(out, "w", encoding="utf-8") as f:
                    f.write(text + json.dumps(crash) + "\n")
                done = k + 1
                recs = text.split("\n")[:-1] + [json.dumps(crash)]
                hangs += 10 if hung else 1
                if hangs >= 30:  # enough to know
                    break
            return [json.loads(r) for r in recs]

        with ThreadPoolExecutor(CORES) as ex:
            recs = [r for part in ex.map(one, chunks) for r in part]
        self.note(f"replayed {len(recs)} ({name})")
        return recs

    # ----------------------------------------------------------- validation
    def validate(self, name, module, recs, env=None, canaries=(), cfg="Trace.cfg", procs=CORES, ctx=None, timeout=3000):
        """TLC on the recorded runs. canaries: corrupted records, which must be rejected."""
        if not recs:
            raise ToolError(f"{name}: nothing to validate")
        d = self.fresh("val-" + name)
        procs = max(1, min(procs, len(recs) // 40 or 1))
        jobs = [[] for _ in range(procs)]
        for i, r in enumerate(recs):
            jobs[i % procs].append((i, r))
        for i, c in enumerate(canaries):
            jobs[i % procs].append((-1 - i, c))

        def one(kj):
            k, job = kj
            w = os.path.join(d, str(k))
            os.makedirs(w)
            inp, bad = os.path.join(w, "in.ndjson"), os.path.join(w, "bad.txt")
            with open(inp, "w", encoding="utf-8") as f:
                for _, r in job:
                    f.write(json.dumps(r, ensure_ascii=False) + "\n")
            rc, log, gen, dist = self.tlc(module, cfg, dict(env or {}, VF_IN=inp, VF_BAD=bad, VF_PROP=self.prop), w, timeout=timeout)
            if rc != 0:
                raise ToolError(f"validating {name} failed (exit {rc}):\n" + log[-3000:])
            res = {}
            if os.path.exists(bad):
                with open(bad, encoding="utf-8") as f:
                    for l in f:
                        v = json.loads(json.loads(l))
                        res[job[v["rec"] - 1][0]] = v["bad"]
            return res, gen, dist

        bads, gen, dist = {}, 0, 0
        with ThreadPoolExecutor(CORES) as ex:
            for res, g, s in ex.map(one, enumerate(jobs)):
                bads.update(res)
                gen += g
                dist += s
        self.transitions += gen
        self.states += dist
        for i in range(len(canaries)):
            if -1 - i not in bads:
                with open(os.path.join(d, "missed-canary.json"), "w") as f:
                    json.dump(canaries[i], f)
                raise ToolError(f"{name}: a corrupted record was accepted ({d}/missed-canary.json)")
        for i in sorted(k for k in bads if k >= 0):
            if any(b and b[0] == "TOOL" for b in bads[i]):
                raise ToolError(f"{name}: {bads[i]}: {json.dumps(recs[i])[:1500]}")
            self.violations.append({"property": self.prop, "part": name, "module": module, "verdict": bads[i],
                                    "record": recs[i], "ctx": ctx or {}})
        self.validated += len(recs)
        for r in recs:
            self.distinct.add(hashlib.sha1(json.dumps(r, sort_keys=True).encode()).digest()[:8])
        self.parts.append({"part": name, "kind": "recorded runs validated", "module": module, "records": len(recs),
                           "canaries_rejected": len(canaries), "states": dist, "transitions": gen})
        if recs:
            s = self.rng.choice(recs)
            if len(json.dumps(s)) < 6000:
                self.samples.append({"part": name, "record": s})
        self.note(f"validated {len(recs)} ({name}), {sum(1 for k in bads if k >= 0)} rejected")

    # --------------------------------------------------------------- report
    def finish(self, technique_note=""):
        known = load_known(self.prop)
        new, seen_known = [], {}
        for v in self.violations:
            blob = json.dumps(v["record"], ensure_ascii=False)
            k = next((k for k in known if k["input"] in blob), None)
            if k:
                seen_known[k["input"]] = k
            else:
                new.append(v)
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "distinct_records": len(self.distinct),
                           "parts": self.parts, "samples": self.samples[:4]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if not new:
            self.note(f"held on {self.validated} recorded runs, {self.states} states")
            shutil.rmtree(self.dir, ignore_errors=True)
            return 0
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        new.sort(key=lambda v: len(json.dumps(v["record"])))
        path = os.path.join(ROOT, "replay", f"{self.prop}-{self.tier}-{self.seed}.json")
        with open(path, "w") as f:
            json.dump({"violations": new[:20], "count": len(new)}, f, indent=1, ensure_ascii=False)
        self.note(f"{len(new)} rejected; the smallest: {new[0]['verdict']} {json.dumps(new[0]['record'], ensure_ascii=False)[:1200]}")
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return 1


def load_known(prop):
    """Lines `known: property=<id> input=<json string> <what fails>` of known-findings.txt."""
    res = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for l in f:
                m = re.match(r'known: property=(\S+) input=("(?:[^"\\]|\\.)*") (.*)', l)
                if m and m.group(1) == prop:
                    res.append({"input": m.group(2)[1:-1], "what": m.group(3)})
    return res

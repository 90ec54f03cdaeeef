"""Shared machinery of the checks: build the driver from /repo, run TLC, run
and validate cases, report."""
import collections, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SHARDS = 8


class CheckError(Exception):
    """Something that is not a verdict: ends the check with exit code 2."""


def go_env():
    env = dict(os.environ)
    env.update(
        HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
        GOFLAGS="-mod=mod -buildvcs=false", GOCACHE="/root/.cache/go-build",
        GOMODCACHE="/root/go/pkg/mod",
        PATH="/opt/veriftools/go1.27.3/bin:" + env.get("PATH", ""))
    return env


class Enough(CheckError):
    """Violations were found, and looking for more would take too long."""


ENOUGH_AFTER = 300  # seconds


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.violations = [], [], []
        self.stats = collections.Counter()
        self.notes = {}
        self.n = 0
        self.driver = self.race_driver = None
        self.env = go_env()  # of the driver

    def path(self, name):
        self.n += 1
        return os.path.join(self.scratch, f"{self.n:04d}-{name}")

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def enough(self):
        if self.violations and time.time() - self.t0 > ENOUGH_AFTER:
            raise Enough("enough violations")

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- building -----------------------------------------------------------

    def build(self, race=False):
        src = os.path.join(self.scratch, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            gm = os.path.join(src, "go.mod")
            text = open(gm).read()
            open(gm, "w").write(text.replace("=> /repo", "=> " + REPO))
        out = os.path.join(self.scratch, "drv-race" if race else "drv")
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        r = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("the driver does not build against " + REPO + "\n" + r.stdout + r.stderr)
        if race:
            self.race_driver = out
        else:
            self.driver = out
        return out

    def build_example(self, name):
        out = os.path.join(self.scratch, "example-" + name)
        r = subprocess.run(["go", "build", "-o", out, "./examples/" + name], cwd=REPO,
                           env=go_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"example {name} does not build\n" + r.stdout + r.stderr)
        self.env["EXAMPLE_" + {"json": "JSON", "parseownsyntax": "SELF"}[name]] = out
        self.env["EXAMPLE_BNF"] = os.path.join(REPO, "examples", "json", "json.bnf")
        return out

    # -- TLC ----------------------------------------------------------------

    def tlc(self, cfg, module=None, env=None, workers=8, heap="8g", out=None,
            deadlock_ok=False, expect_error=False, extra=()):
        """Runs TLC. Returns (completed, states, generated, output path)."""
        module = module or cfg.split("_")[0]
        md = self.path("md")
        os.makedirs(md)
        out = out or self.path("tlc.log")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Djava.io.tmpdir=" + md,
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
               "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg + ".cfg")]
        if deadlock_ok:
            cmd.append("-deadlock")
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        with open(out, "w") as f:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
        shutil.rmtree(md, ignore_errors=True)
        done, st, gen = False, 0, 0
        with open(out) as f:
            for line in f:
                if line.startswith("Model checking completed. No error"):
                    done = True
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    gen, st = int(m.group(1)), int(m.group(2))
        if not done and not expect_error:
            tail = [l for l in open(out, errors="replace").read().splitlines()
                    if not l.startswith(("\"MISMATCH", "\"REPLAY"))][-40:]
            raise CheckError(f"TLC on {cfg} ended without completing (exit {r.returncode})\n" + "\n".join(tail))
        return done, st, gen, out

    def model(self, cfg, **kw):
        """A design-level model: must hold, else the specification is wrong."""
        t = time.time()
        _, st, gen, _ = self.tlc(cfg, **kw)
        self.states += st
        self.transitions += gen
        self.models.append({"model": cfg, "states": st, "transitions": gen,
                            "seconds": round(time.time() - t, 1)})
        self.log(f"model {cfg}: {st} states")

    def refuted(self, cfg, **kw):
        """A variant of a model that has a defect: TLC must find it."""
        t = time.time()
        done, st, gen, out = self.tlc(cfg, expect_error=True, **kw)
        if done or "is violated" not in open(out, errors="replace").read():
            raise CheckError(f"TLC does not find the defect built into {cfg}")
        self.states += st
        self.transitions += gen
        self.models.append({"model": cfg + " (must be refuted)", "states": st, "transitions": gen,
                            "seconds": round(time.time() - t, 1)})
        self.log(f"model {cfg}: refuted as it should be")

    # -- traces -------------------------------------------------------------

    def drive(self, infile, outfile, driver=None, only=None):
        """Runs the driver over a file of cases; survives hangs and crashes of
        single cases, which become their results. Returns number of those."""
        driver = driver or self.driver
        lost = deaths = 0
        total = sum(1 for _ in open(infile))
        open(outfile, "w").close()
        while True:
            done = sum(1 for _ in open(outfile))
            if done >= total:
                return lost
            r = subprocess.run([driver, "run", "-in", infile, "-out", outfile, "-skip", str(done)],
                               env=self.env, capture_output=True, text=True, errors="replace")
            now = sum(1 for _ in open(outfile))
            if r.returncode == 0:
                if now < total:
                    raise CheckError("driver lost cases")
                return lost
            if r.returncode == 4:
                raise CheckError("driver: " + r.stderr[-2000:])
            if r.returncode != 3:
                # died without writing the case: again, logging before each call
                cl = self.path("crash")
                r2 = subprocess.run([driver, "run", "-in", infile, "-out", self.path("x"),
                                     "-only", str(now), "-crashlog", cl],
                                    env=self.env, capture_output=True, text=True, errors="replace")
                if r2.returncode in (0, 3, 4) or not os.path.exists(cl):
                    # not again; perhaps memory ran out
                    deaths += 1
                    if deaths < 3:
                        continue
                    raise CheckError(f"driver died (exit {r.returncode}), not reproducible\n" + r.stderr[-2000:])
                with open(outfile, "a") as f:
                    f.write(open(cl).read())
                now += 1
            lost += 1
            if lost >= 2:
                # enough to judge; leave out the rest
                lines = open(infile).read().splitlines(True)[:now]
                open(infile, "w").writelines(lines)
                return lost

    def validate(self, spec, outfile, workers=2, heap="3g", extra_env=None):
        """TLC on observed cases. Returns the mismatches."""
        env = {"CASES": outfile}
        env.update(extra_env or {})
        _, st, gen, log = self.tlc(spec, module=spec, env=env, workers=workers, heap=heap)
        self.states += st
        self.transitions += gen
        bad = []
        for line in open(log, errors="replace"):
            if line.startswith('"MISMATCH '):
                bad.append(json.loads(json.loads(line)[len("MISMATCH "):]))
        os.remove(log)
        return bad

    def generate(self, plan, seed, n, size):
        cases = self.path(plan + ".in")
        r = subprocess.run([self.driver, "gen", "-plan", plan, "-seed", str(seed), "-n", str(n),
                            "-size", str(size), "-out", cases], env=self.env, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("generator: " + r.stderr[-2000:])
        return cases

    def shard(self, plan, n, spec, i, driver, size, part):
        """Runs and validates cases: the given ones or generated ones."""
        cases = part or self.generate(plan, self.seed * 1000 + i, n, size)
        obs = self.path(plan + ".obs")
        self.drive(cases, obs, driver=driver)
        return plan, spec, cases, obs, self.validate(spec, obs)

    def traces_of(self, jobs, stat=None, race=False):
        """jobs: list of (plan, n, spec[, size]), n cases in all; n = 0 for a
        plan that lists all cases of its size."""
        todo = []
        for job in jobs:
            plan, n, spec = job[:3]
            size = job[3] if len(job) > 3 else 0
            if n == 0:
                whole = self.generate(plan, self.seed, 1, size)
                lines = open(whole).read().splitlines(True)
                os.remove(whole)
                for i in range(SHARDS):
                    if lines[i::SHARDS]:
                        part = self.path(plan + ".in")
                        open(part, "w").writelines(lines[i::SHARDS])
                        todo.append((plan, 0, spec, i, size, part))
                continue
            # no shard so big that its cases do not fit in TLC's memory
            k = max(min(SHARDS, n), -(-n // 2500))
            for i in range(k):
                todo.append((plan, n // k + (1 if i < n % k else 0), spec, i, size, None))
        todo.sort(key=lambda t: not t[0].startswith("huge"))  # the longest first
        drv = self.race_driver if race else self.driver
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            futs = [ex.submit(self.shard, p, n, s, i, drv, size, part) for p, n, s, i, size, part in todo]
            try:
                for f in futs:
                    self.enough()
                    plan, spec, cases, obs, bad = f.result()
                    self.account(plan, obs, stat)
                    for b in bad:
                        if len(self.violations) < 20:
                            self.suspect(plan, spec, cases, obs, b, drv)
                    os.remove(cases)
                    os.remove(obs)
            except BaseException:
                for f in futs:
                    f.cancel()
                raise
        for job in jobs:
            self.log(f"plan {job[0]}: done")

    def account(self, plan, obs, stat):
        first = True
        for line in open(obs):
            c = json.loads(line)
            self.traces += 1
            self.stats["cases " + plan] += 1
            if stat:
                stat(self.stats, c)
            if first and len(self.samples) < 6 and len(line) < 6000:
                self.samples.append({"plan": plan, "case": slim(c)})
                first = False

    def suspect(self, plan, spec, cases, obs, bad, driver):
        """A mismatch: run the case again by itself, then report."""
        self.enough()
        if bad.get("dev"):
            # exactly what a known defect does: not worth a second run
            if self.known(bad["dev"]):
                return
        line = open(cases).read().splitlines()[bad["c"] - 1]
        seen = open(obs).read().splitlines()[bad["c"] - 1]
        again = None
        for _ in range(5):
            one, o1 = self.path("one.in"), self.path("one.obs")
            open(one, "w").write(line + "\n")
            self.drive(one, o1, driver=driver)
            again = self.validate(spec, o1, workers=1)
            if again:
                break
        sc = json.loads(seen)
        if not again and sc["kind"] != "conc" and any(x in seen for x in ('"hang"', '"crash"')):
            raise CheckError("a hang or crash was not reproduced: " + json.dumps(bad))
        rep = {"property": self.prop, "plan": plan, "spec": spec, "mismatch": bad,
               "reproduced": bool(again), "race": driver == self.race_driver,
               "case": json.loads(line), "observed": sc,
               "how": f"bin/replay.py FILE  (runs the case against {REPO} and validates it with spec/{spec}.tla)"}
        self.violation(f"{bad.get('aspect')}: {bad.get('what')}", rep)

    def known(self, key):
        """Whether it is a listed finding; says so, once."""
        for prop, k, text in open_findings():
            if prop == self.prop and k == key:
                line = f"KNOWN-FINDING: property={prop} {text}"
                if line not in self.notes.setdefault("known", []):
                    self.notes["known"].append(line)
                    print(line, flush=True)
                self.stats["known finding " + key] += 1
                return True
        return False

    def violation(self, what, rep):
        key = finding_key(rep)
        if self.known(key):
            return
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, f"{self.prop}-{len(self.violations) + 1}.json")
        rep["key"] = key
        json.dump(rep, open(path, "w"), indent=1)
        self.violations.append((what, path))
        self.log("mismatch:", what if isinstance(what, str) else json.dumps(what))

    # -- from the specification to the code ---------------------------------

    def replay_scope(self, cfg, check, workers=8, heap="12g"):
        """TLC enumerates a scope of grammars with their outcome; the driver
        replays all of them; disagreements go through TraceParse."""
        self.enough()
        t = time.time()
        _, st, gen, log = self.tlc(cfg, module="Enumerate", workers=workers, heap=heap)
        self.states += st
        self.transitions += gen

        def part(i):
            out, cl = self.path("replay"), self.path("crash")
            cmd = [self.driver, "replay", "-in", log, "-out", out, "-seed", str(self.seed),
                   "-shard", str(i), "-shards", str(SHARDS)]
            r = subprocess.run(cmd, env=self.env, capture_output=True, text=True)
            if r.returncode == 4:
                raise CheckError("replay: " + r.stderr[-2000:])
            if r.returncode not in (0, 3):
                subprocess.run(cmd + ["-crashlog", cl], env=go_env(), capture_output=True)
                if not os.path.exists(cl):
                    raise CheckError("replay died: " + r.stderr[-2000:])
                with open(out, "a") as f:
                    f.write(open(cl).read())
            return (json.loads(r.stdout) if r.returncode == 0 else {}), out

        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            parts = list(ex.map(part, range(SHARDS)))
        os.remove(log)
        tot = collections.Counter()
        cand = []
        for s, out in parts:
            tot.update(s)
            cand += open(out).read().splitlines()
        self.models.append({"model": cfg, "states": st, "transitions": gen, "replayed": dict(tot),
                            "seconds": round(time.time() - t, 1)})
        self.traces += tot["grammars"]
        for k, v in tot.items():
            self.stats["replayed " + k] += v
        self.log(f"replay {cfg}: {dict(tot)}")
        if cand:
            f, o = self.path("cand.in"), self.path("cand.obs")
            with open(f, "w") as w:
                for line in cand[:40]:
                    c = json.loads(line)
                    c["check"] = check
                    w.write(json.dumps(c) + "\n")
            self.drive(f, o)
            for b in self.validate("TraceParse", o):
                if len(self.violations) < 20:
                    self.suspect("replay of " + cfg, "TraceParse", f, o, b, self.driver)

    def replay_cases(self, cfg, spec, module=None, check=(), workers=8, heap="12g"):
        """TLC enumerates cases with what has to come out of them; the driver
        replays all of them; what differs goes through spec."""
        self.enough()
        t = time.time()
        _, st, gen, log = self.tlc(cfg, module=module, workers=workers, heap=heap, deadlock_ok=True)
        self.states += st
        self.transitions += gen

        def part(i):
            out, cl = self.path("replay"), self.path("crash")
            cmd = [self.driver, "replaycases", "-in", log, "-out", out, "-seed", str(self.seed),
                   "-shard", str(i), "-shards", str(SHARDS), "-aspects", ",".join(check)]
            r = subprocess.run(cmd, env=self.env, capture_output=True, text=True, errors="replace")
            if r.returncode == 4:
                raise CheckError("replay: " + r.stderr[-2000:])
            if r.returncode not in (0, 3):
                subprocess.run(cmd + ["-crashlog", cl], env=self.env, capture_output=True)
                if not os.path.exists(cl):
                    raise CheckError("replay died: " + r.stderr[-2000:])
                for end in ("", ".in"):
                    with open(out + end, "a") as f:
                        f.write(open(cl + end).read())
            return (json.loads(r.stdout) if r.returncode == 0 else {}), out

        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            parts = list(ex.map(part, range(SHARDS)))
        os.remove(log)
        tot = collections.Counter()
        cand = []
        for s, out in parts:
            tot.update(s)
            cand += zip(open(out + ".in").read().splitlines(), open(out).read().splitlines())
        self.models.append({"model": cfg, "states": st, "transitions": gen, "replayed": dict(tot),
                            "seconds": round(time.time() - t, 1)})
        self.traces += tot["cases"]
        for k, v in tot.items():
            self.stats[f"{cfg} replayed {k}"] += v
        self.log(f"replay {cfg}: {dict(tot)}")
        if cand:
            f, o = self.path("cand.in"), self.path("cand.obs")
            cand = cand[::max(1, len(cand) // 40)]
            open(f, "w").writelines(a + "\n" for a, _ in cand)
            open(o, "w").writelines(b + "\n" for _, b in cand)
            for b in self.validate(spec, o):
                if len(self.violations) < 20:
                    self.suspect("replay of " + cfg, spec, f, o, b, self.driver)

    # -- the end ------------------------------------------------------------

    def finish(self, level="model_checking", assumptions=(), floors=()):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "models": self.models, "counts": dict(sorted(self.stats.items())),
                           "samples": self.samples},
              "assumptions": list(assumptions), "wall_s": round(wall, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        self.log(f"{self.states} states, {self.traces} traces, {len(self.violations)} violations")
        if self.violations:
            for what, path in self.violations[:5]:
                print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1
        for key, least in floors:
            if self.stats[key] < least:
                raise CheckError(f"explored too little: {key} = {self.stats[key]}, expected {least}")
        return 0


def slim(c):
    """A case without the fields that are empty."""
    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items() if v not in ([], "", None, 0, False) or k in ("res", "s", "x", "i")}
        if isinstance(x, list):
            return [go(v) for v in x[:40]]
        return x
    return go(c)


def finding_key(rep):
    """Identifies a violation by the input that fails."""
    c = rep.get("case")
    if c is None:
        return hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:16]
    m = rep.get("mismatch", {})
    if m.get("dev"):
        return m["dev"]
    return hashlib.sha256(json.dumps([c, m.get("aspect"), m.get("p")], sort_keys=True).encode()).hexdigest()[:16]


def open_findings():
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res

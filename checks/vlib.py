"""Infrastructure of the checks: builds drivers, runs TLC, judges, writes evidence."""
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.update(
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        HOME=env.get("HOME", "/root"),
    )
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    return env


# the thorough tier also explores the designs with these constants
FOUR = dict(Base=4, Sync1=3, Bytes="{0, 1, 2, 3}", MaxPayload=2)
DEEPER = {
    "MCParser.cfg": (dict(MaxStream=11), dict(FOUR, MaxStream=8), dict(IdLen=1, MaxStream=10), dict(MaxPayload=2, MaxStream=10)),
    "MCBounded.cfg": tuple(dict(Cap=c, MaxStream=10) for c in (5, 6, 7)) + (dict(FOUR, Cap=6, MaxStream=8),),
    "MCDual.cfg": tuple(dict(Cap=c, MaxStream=9) for c in (5, 6, 7)) + (dict(FOUR, Cap=6, MaxStream=7),),
    "MCLossy.cfg": tuple(dict(Cap=c, MaxStream=9) for c in (3, 5, 6)),
    "MCQueue.cfg": (dict(MaxOps=7),),
    "MCAid.cfg": (dict(MaxOps=6),),
    "MCDevice.cfg": (dict(MaxToks=7),),
}


class Tlc:
    """Result of one TLC run."""

    def __init__(self, rc, text, wall):
        self.rc, self.text, self.wall = rc, text, wall
        m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct", text, re.M)
        self.generated, self.distinct = (
            (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        )
        self.ok = rc == 0 and "No error has been found" in text

    def last_state(self):
        """variables of the last state of the printed behaviour"""
        parts = re.split(r"^State \d+:.*$|^The behavior up to this point is:$", self.text, flags=re.M)
        out = {}
        for m in re.finditer(r"^/\\ (\w+) = (.*)$", parts[-1], re.M):
            out[m.group(1)] = m.group(2)
        if not out:
            for m in re.finditer(r"^(?:/\\ )?(\w+) = (.*)$", self.text, re.M):
                out[m.group(1)] = m.group(2)
        return out

    def errors(self, n=12):
        lines = [l for l in self.text.splitlines() if l.startswith("Error") or "Exception" in l]
        return "\n".join(lines[:n])


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.out = os.path.join(VERIF, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)

    def path(self, name):
        return os.path.join(self.out, name)

    def log(self, *a):
        print(f"[{time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), timeout=None, heap="10g", stack="512m", workers=8):
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        meta = self.path("tlc-" + module)
        cmd = ["java", f"-Xss{stack}", f"-Xmx{heap}", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), *args,
               module if os.path.isabs(module) else os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout or (3000 if self.thorough else 600))
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        text = p.stdout.decode("utf-8", "replace")
        r = Tlc(p.returncode, text, time.time() - t)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def design(self, module, cfg, **kw):
        """Checks the specification itself; a failure is a fault of the spec."""
        if self.thorough:
            for n, change in enumerate(DEEPER.get(cfg, ())):
                text = open(os.path.join(SPEC, cfg)).read()
                for k, v in change.items():
                    text, m = re.subn(rf"\b{k} = .*", f"{k} = {v}", text)
                    assert m == 1, (cfg, k)
                deep = self.path(f"{cfg[:-4]}-deep{n}.cfg")
                open(deep, "w").write(text)
                self.design(module, deep, **kw)
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            open(self.path(module + ".log"), "w").write(r.text)
            raise ToolError(f"design check {module}/{cfg} failed: {r.errors()} (log {self.path(module + '.log')})")
        self.log(f"design {module} {cfg}: {r.distinct} states, {r.generated} transitions, {r.wall:.1f}s")
        self.extra.setdefault("design", []).append(
            {"module": module, "cfg": os.path.basename(cfg), "distinct_states": r.distinct, "transitions": r.generated})
        return r

    def generate(self, module, cfg, env, **kw):
        """Runs TLC to enumerate scenarios into a file (via ASSUME/IOEnv.OUT)."""
        r = self.tlc(module, cfg, env=env, **kw)
        if not r.ok:
            open(self.path(module + ".log"), "w").write(r.text)
            raise ToolError(f"generator {module} failed: {r.errors()}")
        return r

    def judge(self, module, cfg, trace, env=None, describe=None, **kw):
        """Trace validation: TLC decides whether every recorded run is a
        behaviour of the specification."""
        records = sum(1 for _ in open(trace))
        if records == 0:
            raise ToolError("no records in " + trace)
        ev = {"TRACE": trace}
        ev.update(env or {})
        r = self.tlc(module, cfg, env=ev, **kw)
        self.traces += records
        if r.ok:
            self.log(f"trace validation {module} {env or ''}: {records} records accepted, {r.distinct} states, {r.wall:.1f}s")
            return r
        log = self.path(f"{module}-rejected.log")
        open(log, "w").write(r.text)
        if "is violated" in r.text or r.rc == 12:
            st = r.last_state()
            t = int(st.get("t", "0") or 0)
            rec = read_line(trace, t)
            why = f"{st.get('st', '?')} at event {st.get('l', '?')} of record {t}"
            self.violation(why, {"trace_spec": module, "mode": ev, "state": st, "record": rec}, log)
            return r
        if any(x in r.text for x in ("OutOfMemoryError", "StackOverflow", "Parsing", "parse", "Semantic error")):
            raise ToolError(f"TLC failed on {module}: {r.errors()} (log {log})")
        if "rror: " in r.text and r.rc in (75, 76, 77, 10, 11):
            # a recorded value has a shape the specification has no meaning for
            st = r.last_state()
            t = int(re.sub(r"\D", "", st.get("t", "0")) or 0)
            self.violation(f"trace not interpretable: {r.errors(3)}",
                           {"trace_spec": module, "mode": ev, "state": st, "record": read_line(trace, t)}, log)
            return r
        raise ToolError(f"TLC failed on {module} rc={r.rc}: {r.errors()} (log {log})")

    # ---------------------------------------------------------------- code
    def build(self, binary, crate=None, features=None, target=None, args=()):
        crate = crate or HARNESS
        cmd = ["cargo", "build", "--offline", "--quiet", "--bin", binary, *args]
        if features is not None:
            cmd += ["--no-default-features", "--features", features]
        env = cargo_env()
        env["CARGO_TARGET_DIR"] = target or os.path.join(crate, "target")
        t = time.time()
        p = subprocess.run(cmd, cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text = p.stdout.decode("utf-8", "replace")
        if p.returncode != 0:
            log = self.path("build.log")
            open(log, "w").write(text)
            err = [l for l in text.splitlines() if l.startswith("error")]
            # does the library itself still build?
            q = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "ublox"], cwd=crate, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if q.returncode == 0 and err and not re.search(r"could not (find|resolve|download)|no matching package|lock file", text):
                self.violation("the library no longer offers the interface the property speaks of: "
                               + "; ".join(err[:3]), {"build": text[-4000:]}, log)
                return None
            raise ToolError(f"cargo build failed (log {log}): {err[:3]}")
        self.log(f"built {binary} in {time.time()-t:.1f}s")
        return os.path.join(env["CARGO_TARGET_DIR"], "debug", binary)

    def drive(self, exe, args, out, timeout=None, mem=12 << 30):
        """Runs a driver which writes its NDJSON records to `out`.  A driver that
        is killed by a signal or exits badly shows a crash of the code."""
        cmd = [exe, "--prop", self.prop, "--seed", str(self.seed), "--tier", self.tier, "--out", out, *args]

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit,
                               timeout=timeout or (2400 if self.thorough else 300))
        except subprocess.TimeoutExpired:
            self.violation("the code under test does not terminate", {"cmd": cmd}, None)
            return None
        text = p.stdout.decode("utf-8", "replace")
        err = p.stderr.decode("utf-8", "replace")
        if p.returncode != 0:
            open(self.path("driver.log"), "w").write(text + err)
            if p.returncode < 0:
                self.violation(f"the code under test crashed (signal {-p.returncode})",
                               {"cmd": cmd, "stderr": err[-3000:]}, self.path("driver.log"))
                return None
            raise ToolError(f"driver failed rc={p.returncode}: {err[-500:]}")
        self.log(f"driver {os.path.basename(exe)}: {text.strip()[:200]} in {time.time()-t:.1f}s")
        return text

    # ---------------------------------------------------------------- verdict
    def violation(self, why, detail, log):
        n = len(self.violations) + 1
        path = os.path.join(VERIF, "out", self.prop, f"replay-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "why": why, "seed": self.seed, "tier": self.tier,
                       "log": log, "detail": detail}, f, indent=1)
        self.violations.append((why, path))
        self.log(f"violation: {why[:400]}")

    def sample(self, trace, n=3, limit=1500):
        with open(trace) as f:
            for i, line in enumerate(f):
                if len(line) <= limit and i % 17 == 3:
                    try:
                        self.samples.append(json.loads(line))
                    except ValueError:
                        self.samples.append(line.strip())
                    n -= 1
                if n <= 0:
                    break

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:6] or ["none recorded"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for why, path in self.violations:
            print(f"VIOLATION property={self.prop} replay={path}")
        return 1 if self.violations else 0


def read_line(path, n):
    """n-th line (1-based) of an NDJSON file"""
    with open(path) as f:
        for i, line in enumerate(f, 1):
            if i == n:
                try:
                    return json.loads(line)
                except ValueError:
                    return line
    return None


def split_file(path, parts):
    """Deals the lines of a file onto `parts` files; returns the paths."""
    outs = [f"{path}.{i}" for i in range(parts)]
    fs = [open(p, "w") for p in outs]
    with open(path) as f:
        for i, line in enumerate(f):
            fs[i % parts].write(line)
    for f in fs:
        f.close()
    return outs

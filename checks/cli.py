"""C22, C29: the command line program against a pseudo terminal.

The program is built from /repo's examples; TLC enumerates options and what the
receiver sends (spec/GenCli, spec/GenShow), this module plays the receiver and records, and
TLC judges the record (spec/TraceCli, spec/TraceShow)."""
import concurrent.futures, json, os, pty, re, select, signal, subprocess, termios, time, tty
import vlib

CRATE = os.path.join(vlib.VERIF, "harness-cli")
KEYS = {"parity": ("parity=odd", "parity=even"), "baud": ("configure=baud",), "panic": ("configure=debug",)}
LONG = 20.0     # s, within which the host must react
SHORT = 0.12    # s, in which it may


def build(c, shipped):
    env = vlib.cargo_env()
    target = env["CARGO_TARGET_DIR"] = os.path.join(CRATE, "target")
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--profile", "shipped"] if shipped else [])
    p = subprocess.run(cmd, cwd=CRATE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        text = p.stdout.decode("utf-8", "replace")
        log = c.path("build.log")
        open(log, "w").write(text)
        err = [l for l in text.splitlines() if l.startswith("error")]
        raise vlib.ToolError(f"cargo build of ublox-cli failed (log {log}): {err[:3]}")
    return os.path.join(target, "shipped" if shipped else "debug", "ublox-cli")


def build_shim(c):
    shim = c.path("shim.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(CRATE, "shim.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise vlib.ToolError("gcc: " + p.stdout.decode()[:300])
    return shim


def listed(prop):
    known = {}
    for l in open(os.path.join(vlib.VERIF, "known-findings.txt")):
        m = re.match(rf"known: property={prop} (\S+) (.*)", l)
        if m:
            known[m.group(1)] = m.group(2)
    return known


def options(o, dev):
    a = ["-p", dev]

    def common(o):
        r = []
        for flag, v in (("--baud", o["baud"]), ("--data-bits", o["data"]), ("--stop-bits", o["stop"]), ("--parity", o["par"])):
            if v:
                r += [flag, str(v)]
        return r

    a += common(o)
    for g in o["cfg"]:
        a += ["configure"] + (["--select", g["sel"]] if g["sel"] else []) + common(g)
        a += ["--in-" + n for n, on in zip(("ublox", "nmea", "rtcm", "rtcm3"), g["in"]) if on]
        a += ["--out-" + n for n, on in zip(("ublox", "nmea", "rtcm3"), g["out"]) if on]
    return a


class Host:
    """the program and the terminal it talks to"""

    def __init__(self, exe, o, shim, log, out=subprocess.DEVNULL):
        self.master, slave = pty.openpty()
        tty.setraw(slave)
        self.log = log
        env = dict(os.environ, LD_PRELOAD=shim, VERIF_SHIM=log, RUST_BACKTRACE="0")
        self.p = subprocess.Popen([exe] + options(o, os.ttyname(slave)), stdin=subprocess.DEVNULL,
                                  stdout=out, stderr=subprocess.DEVNULL, env=env)
        self.slave = slave      # kept open, so that the terminal outlives the program
        self.ev, self.s, self.lines = [], [], 0

    def settings(self):
        try:
            ls = open(self.log).read().splitlines()
        except FileNotFoundError:
            return
        for l in ls[self.lines:]:
            cflag, ispeed, ospeed = (int(x) for x in l.split())
            self.ev.append(["l", cflag, ospeed if ispeed in (0, ospeed) else -1])
        self.lines = len(ls)

    def frame(self, seconds):
        """one message of the host: by its own length, or what came"""
        got, end = b"", time.time() + seconds
        while True:
            r, _, _ = select.select([self.master], [], [], 0.02)
            if r:
                got += os.read(self.master, 1)
                if len(got) >= 8 and got[:2] == b"\xb5b" and len(got) == 8 + got[4] + 256 * got[5]:
                    self.settings()
                    self.ev.append(["w", list(got)])
                    return "w"
                continue
            if self.p.poll() is not None or time.time() > end:
                r, _, _ = select.select([self.master], [], [], 0)
                if r:
                    continue
                self.settings()
                if got:
                    self.ev.append(["w", list(got)])
                    return "w"
                if self.p.poll() is not None:
                    self.ev.append(["x", self.p.returncode])
                    return "x"
                return None

    def close(self):
        self.p.kill()
        self.p.wait()
        os.close(self.master)
        os.close(self.slave)


def run(exe, shim, job, log):
    h = Host(exe, job["o"], shim, log)
    try:
        for st in job["sc"]:
            if st[0] == "g":
                time.sleep(st[1] / 1000)
            elif st[0] == "d":
                if st[1]:
                    h.ev.append(["d", len(st[1])])
                    h.s += st[1]
                    b = bytes(st[1])
                    while b:
                        b = b[os.write(h.master, b):]
            else:
                r = h.frame(LONG if st[0] == "w" else SHORT)
                if r == "x":
                    break
                if st[0] == "w" and r is None:
                    h.ev.append(["t"])
                    break
    finally:
        h.close()
        if os.path.exists(log):
            os.remove(log)
    return {"o": job["o"], "s": h.s, "ev": h.ev}


def show(exe, shim, job, log):
    """one run of C29: configured, then shown what is in the script"""
    with open(log + ".out", "w+b") as out:
        h = Host(exe, {"baud": 0, "data": 0, "stop": 0, "par": "", "cfg": []}, shim, log, out)
        sent, end, x = [], None, "runs"

        def lines():
            return open(log + ".out", "rb").read().decode("utf-8", "replace").splitlines()

        def write(b):
            while b:
                if not select.select([], [h.master], [], LONG)[1]:
                    return
                b = b[os.write(h.master, b[:512]):]

        try:
            if h.frame(LONG) == "w":
                write(bytes(job["ack"]))
                h.frame(LONG)
            for st in job["sc"]:
                if st[0] == "g":
                    time.sleep(st[1] / 1000)
                else:
                    sent += st[1]
                    write(bytes(st[1]))
            end = time.time() + LONG
            while h.p.poll() is None and time.time() < end and job["b"] not in lines():
                time.sleep(0.05)
            time.sleep(0.1)
            if h.p.poll() is not None:
                x = f"status {h.p.returncode}"
        finally:
            h.close()
        ls = lines()
    for f in (log, log + ".out"):
        if os.path.exists(f):
            os.remove(f)
    first = ls.index(job["a"]) if job["a"] in ls else len(ls)
    return {"s": sent, "out": ls[first:], "x": x}


def shown(c):
    exes = [build(c, True), build(c, False)]
    shim = build_shim(c)
    c.log("built ublox-cli twice")
    scripts, trace = c.path("scripts.ndjson"), c.path("runs.ndjson")
    c.generate("GenShow", "GenShow.cfg", {"OUT": scripts, "TIER": c.tier})
    jobs = [json.loads(l) for l in open(scripts)]
    with concurrent.futures.ThreadPoolExecutor(12) as pool, open(trace, "w") as f:
        for r in pool.map(lambda x: show(exes[x[1]["dbg"]], shim, x[1], c.path(f"show{x[0]}")), enumerate(jobs)):
            f.write(json.dumps(r) + "\n")
    c.log(f"{len(jobs)} runs")
    c.sample(trace)
    known = listed("C29")
    r = c.judge("TraceShow", "TraceShow.cfg", trace, env={"LIST_TIME": "1" if "time" in known else "0"})
    if '<<"KNOWN", "time">>' in r.text:
        print(f"KNOWN-FINDING: property=C29 time {known['time']}")
    c.assumptions += ["the pseudo terminal stands for the serial line",
                      f"a program which has not shown a packet within {LONG:.0f} s never will"]


def check(c):
    if c.prop == "C29":
        return shown(c)
    known = listed("C22")
    c.design("MCDevice", "MCDevice.cfg")
    exes = [build(c, True), build(c, False)]
    shim = build_shim(c)
    c.log("built ublox-cli twice")
    scripts = c.path("scripts.ndjson")
    c.generate("GenCli", "GenCli.cfg", {"OUT": scripts, "TIER": c.tier})
    jobs = [json.loads(l) for l in open(scripts)]
    trace = c.path("runs.ndjson")
    silent = []

    def one(x):
        if len(silent) > 20:    # enough to judge; each costs LONG
            return None
        r = run(exes[x[1]["dbg"]], shim, x[1], c.path(f"line{x[0]}"))
        if r["ev"] and r["ev"][-1] == ["t"]:
            silent.append(x[0])
        return r

    with concurrent.futures.ThreadPoolExecutor(16) as pool, open(trace, "w") as f:
        for r in pool.map(one, enumerate(jobs)):
            if r:
                f.write(json.dumps(r) + "\n")
    c.log(f"{len(jobs)} runs")
    c.sample(trace)
    env = {"LIST_" + k: "1" if all(x in known for x in v) else "0" for k, v in KEYS.items()}
    r = c.judge("TraceCli", "TraceCli.cfg", trace, env=env)
    found = set()
    for m in re.finditer(r'<<"KNOWN", \{(.*?)\}, "(\w*)", "(\w*)">>', r.text):
        keys = re.findall(r'"(\w+)"', m.group(1))
        for k in keys:
            found |= {"parity=" + x for x in m.groups()[1:] if x} if k == "parity" else set(KEYS[k])
    for k in sorted(found):
        print(f"KNOWN-FINDING: property=C22 {k} {known[k]}")
    c.assumptions += ["the pseudo terminal stands for the serial line; line settings are those handed to the kernel",
                      f"a host which has not written within {LONG:.0f} s never will"]

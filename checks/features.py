"""C23: the crate with every set of its features.

The same driver is built with each of the eight sets, run on the same inputs,
and TLC judges the lines put side by side (spec/TraceFeatures)."""
import concurrent.futures, itertools, json, os, subprocess
import vlib

NAMES = ("std", "alloc", "serde")
SETS = [s for n in range(4) for s in itertools.combinations(NAMES, n)]
TARGET = os.path.join(vlib.HARNESS, "target-features")


def build(s):
    """the driver with this set of features, or what the compiler says"""
    target = os.path.join(TARGET, "-".join(s) or "none")
    env = vlib.cargo_env()
    cmd = ["cargo", "build", "--offline", "--quiet", "-j", "4", "--bin", "drv_features", "--no-default-features",
           "--features", ",".join(s), "--target-dir", target]
    p = subprocess.run(cmd, cwd=vlib.HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return s, os.path.join(target, "debug", "drv_features"), p.returncode, p.stdout.decode("utf-8", "replace")


def build_all():
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        return list(pool.map(build, SETS))


def check(c):
    exes = []
    failed = []
    for s, exe, rc, text in build_all():
        exes.append((s, exe))
        if rc != 0:
            failed.append((s, text))
    if len(failed) == len(SETS):
        open(c.path("build.log"), "w").write(failed[0][1])
        raise vlib.ToolError("no build compiles (log build.log)")
    if failed:
        log = c.path("build.log")
        open(log, "w").write("\n".join(f"features {s}:\n{t}" for s, t in failed))
        s, text = failed[0]
        err = [l for l in text.splitlines() if l.startswith("error")]
        c.violation(f"with features {list(s)} the crate does not build or offer the same operations: " + "; ".join(err[:3]),
                    {"features": list(s), "build": text[-4000:]}, log)
        return
    c.log(f"{len(exes)} builds")
    frames, builds, sets, streams = (c.path(x) for x in ("frames.ndjson", "builds.ndjson", "sets.ndjson", "streams.ndjson"))
    c.generate("GenPackets", "GenPackets.cfg", {"OUT": frames, "OUT2": c.path("sweeps.ndjson"), "OUT3": "", "TIER": "quick"})
    c.generate("GenBuild", "GenBuild.cfg", {"OUT": builds, "OUT2": ""})
    c.generate("GenConfig", "GenConfig.cfg", {"OUT": c.path("items.ndjson"), "OUT2": sets})
    c.generate("GenStreams", "GenStreams.cfg", {"OUT": streams})
    seed = c.seed
    for i in range(4 if c.thorough else 1):
        c.seed = seed + 1000 * i
        table = {}
        for s, exe in exes:
            out = c.path("lines-" + ("-".join(s) or "none"))
            if c.drive(exe, ["--frames", frames, "--builds", builds, "--sets", sets, "--streams", streams], out) is None:
                return
            seen = {}
            for l in open(out):
                key, res = l.rstrip("\n").split("\t")
                seen[key] = seen.get(key, -1) + 1
                table.setdefault((key, seen[key]), {}).setdefault(res, []).append(list(s))
            os.remove(out)
        trace = c.path(f"features{i}.ndjson")
        with open(trace, "w") as f:
            for (key, _), res in table.items():
                op, given = json.loads(key)
                f.write(json.dumps({"op": op, "given": given, "res": [{"by": by, "out": json.loads(out)} for out, by in res.items()]}) + "\n")
        c.sample(trace)
        c.judge("TraceFeatures", "TraceFeatures.cfg", trace, env={"MODE": "build"})
        if c.violations:
            break
    c.seed = seed
    c.assumptions += ["the driver records truthfully", "inputs are those enumerated by TLC plus seeded mutations of them"]

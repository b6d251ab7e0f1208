"""C11, C12, C13, C14, C19, C21, C24, C25: builders, configuration items, requests, typed values."""
from vlib import split_file


def scenarios(c, module):
    f, g = c.path("scenarios.ndjson"), c.path("sets.ndjson")
    r = c.generate(module, module + ".cfg", {"OUT": f, "OUT2": g})
    c.log(f"{module}: {sum(1 for _ in open(f))} scenarios, {r.wall:.1f}s")
    return f, g


def build(c, mode):
    exe = c.build("drv_build")
    if not exe:
        return
    f, _ = scenarios(c, "GenBuild")
    seed = c.seed
    for i in range(10 if c.thorough else 1):
        c.seed = seed + 1000 * i
        trace = c.path(f"built{i}.ndjson")
        args = ["--kind", "build", "--scenarios", f, "--random", "400" if c.thorough else "100",
                "--failures", ("60" if c.thorough else "8") if mode == "sink" else "0"]
        if c.drive(exe, args, trace) is None:
            return
        c.sample(trace)
        c.judge("TraceBuild", "TraceBuild.cfg", trace, env={"MODE": mode})
        if c.violations:
            break
    c.seed = seed


def requests(c):
    exe = c.build("drv_build")
    if not exe:
        return
    trace = c.path("requests.ndjson")
    if c.drive(exe, ["--kind", "requests"], trace) is None:
        return
    c.sample(trace)
    c.judge("TraceBuild", "TraceBuild.cfg", trace, env={"MODE": "build"})


def config(c, kind):
    exe = c.build("drv_config")
    if not exe:
        return
    f, g = scenarios(c, "GenConfig")
    seed = c.seed
    for i in range(6 if c.thorough else 1):
        c.seed = seed + 1000 * i
        trace = c.path(f"{kind}{i}.ndjson")
        args = ["--kind", kind, "--scenarios", f if kind == "items" else g,
                "--random", "3000" if c.thorough else "600"]
        if c.drive(exe, args, trace) is None:
            return
        c.sample(trace)
        c.judge("TraceConfig", "TraceConfig.cfg", trace)
        if c.violations:
            break
    c.seed = seed


def typed(c):
    exe = c.build("drv_packet")
    if not exe:
        return
    f, g, h = (c.path(n) for n in ("frames.ndjson", "sweeps.ndjson", "typed.ndjson"))
    r = c.generate("GenPackets", "GenPackets.cfg", {"OUT": f, "OUT2": g, "OUT3": h, "TIER": "quick"})
    c.log(f"GenPackets: {sum(1 for _ in open(h))} typed frames, {r.wall:.1f}s")
    seed = c.seed
    for i in range(4 if c.thorough else 1):
        c.seed = seed + 1000 * i
        trace = c.path(f"typed{i}.ndjson")
        if c.drive(exe, ["--kind", "records", "--frames", h, "--random", "20000" if c.thorough else "1000"], trace) is None:
            return
        c.sample(trace)
        c.judge("TracePacket", "TracePacket.cfg", trace, env={"MODE": "typed"})
        if c.violations:
            break
    c.seed = seed
    # from typed to raw
    if not c.violations:
        build(c, "back")


def aid(c):
    exe = c.build("drv_build")
    if not exe:
        return
    c.design("MCAid", "MCAid.cfg")
    f = c.path("scenarios.ndjson")
    r = c.generate("GenAid", "GenAid.cfg", {"OUT": f, "TIER": "thorough" if c.thorough else "quick"})
    c.log(f"GenAid: {sum(1 for _ in open(f))} scenarios, {r.wall:.1f}s")
    trace = c.path("aid.ndjson")
    if c.drive(exe, ["--kind", "aid", "--scenarios", f], trace) is None:
        return
    c.sample(trace)
    c.judge("TraceAid", "TraceAid.cfg", trace)


def check(c):
    p = c.prop
    if p == "C11":
        build(c, "build")
        if not c.violations:
            requests(c)
    elif p == "C12":
        build(c, "back")
    elif p == "C13":
        config(c, "sets")
    elif p == "C14":
        config(c, "items")
    elif p == "C19":
        requests(c)
    elif p == "C21":
        typed(c)
    elif p == "C24":
        build(c, "sink")
    elif p == "C25":
        aid(c)
    c.assumptions += ["the driver records results truthfully",
                      "inputs are those enumerated by TLC plus seeded combinations of them"]

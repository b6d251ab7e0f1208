"""C17: positions, velocities and times derived from packets; C28: values serialized and read back."""


def check(c):
    if c.prop == "C28":
        return kept(c)
    exe = c.build("drv_convert")
    if not exe:
        return
    frames = c.path("frames.ndjson")
    r = c.generate("GenConvert", "GenConvert.cfg", {"OUT": frames})
    c.log(f"GenConvert: {sum(1 for _ in open(frames))} frames, {r.wall:.1f}s")
    seed = c.seed
    for i in range(8 if c.thorough else 1):
        c.seed = seed + 1000 * i
        trace = c.path(f"converted{i}.ndjson")
        if c.drive(exe, ["--frames", frames, "--random", "40000" if c.thorough else "6000"], trace) is None:
            return
        c.sample(trace)
        c.judge("TraceConvert", "TraceConvert.cfg", trace)
        if c.violations:
            break
    c.seed = seed
    c.assumptions += ["the driver records the nearest whole number of units of each quantity truthfully",
                      "frames are those enumerated by GenConvert plus seeded ones"]


def kept(c):
    exe = c.build("drv_kept")
    if not exe:
        return
    values = c.path("values.ndjson")
    r = c.generate("GenKept", "GenKept.cfg", {"OUT": values})
    c.log(f"GenKept: {sum(1 for _ in open(values))} values, {r.wall:.1f}s")
    seed = c.seed
    for i in range(8 if c.thorough else 1):
        c.seed = seed + 1000 * i
        trace = c.path(f"kept{i}.ndjson")
        if c.drive(exe, ["--frames", values, "--random", "60000" if c.thorough else "3000"], trace) is None:
            return
        c.sample(trace)
        c.judge("TraceKept", "TraceKept.cfg", trace)
        if c.violations:
            break
    c.seed = seed
    c.assumptions += ["the driver records values truthfully", "serde_json keeps values faithfully (floats as a tree, not as text)"]

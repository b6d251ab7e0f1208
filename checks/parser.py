"""C01-C07: the stream parser."""
MODE = {"C01": "inv", "C02": "sound", "C03": "results", "C04": "errors", "C05": "bounded",
        "C06": "total", "C07": "kept"}


def check(c):
    exe = c.build("drv_parser")
    if not exe:
        return
    # the specification itself
    if c.prop == "C26":
        c.design("MCLossy", "MCLossy.cfg")
    if c.prop not in ("C05", "C26"):
        c.design("UbxParser", "MCParser.cfg")
    if c.prop in ("C02", "C04", "C05", "C06", "C07"):
        c.design("UbxBoundedParser", "MCBounded.cfg")
    if c.prop in ("C01", "C05", "C06", "C07") or c.thorough:
        c.design("UbxDual", "MCDual.cfg")
    # scenarios enumerated from the specification's vocabulary
    streams = c.path("streams.ndjson")
    c.generate("GenStreams", "GenStreams3.cfg" if c.thorough or c.prop == "C01" else "GenStreams.cfg", {"OUT": streams})
    rounds = 6 if c.thorough else 1
    seed = c.seed
    for i in range(rounds):
        c.seed = seed + 1000 * i
        trace = c.path(f"trace{i}.ndjson")
        if c.drive(exe, ["--streams", streams], trace) is None:
            return
        c.sample(trace)
        if c.prop == "C26":
            c.judge("TraceLossy", "TraceLossy.cfg", trace)
        else:
            c.judge("TraceParser", "TraceParser.cfg", trace, env={"MODE": MODE[c.prop]})
        if c.violations:
            break
    c.seed = seed
    c.assumptions += ["the driver records calls, arguments, results and buffer_len truthfully",
                      "streams, chunkings, schedules and capacities are those enumerated or drawn by the driver"]

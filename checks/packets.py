"""C08, C09, C10, C15, C16, C27: what a delivered packet is and says."""
VARIABLE = "1:53,2:21,2:19,16:2,16:3,10:4,4:0,4:1,4:2,4:3,4:4"
MODE = {"C08": "dispatch", "C09": "access", "C10": "total", "C15": "blocks", "C16": "json"}


def check(c):
    exe = c.build("drv_packet")
    if not exe:
        return
    frames, sweeps = c.path("frames.ndjson"), c.path("sweeps.ndjson")
    # the assumptions of UbxPacket (a consistent catalogue) are checked here too
    r = c.generate("GenPackets", "GenPackets.cfg", {"OUT": frames, "OUT2": sweeps, "OUT3": "", "TIER": c.tier})
    c.log(f"GenPackets: {sum(1 for _ in open(frames))} frames, {sum(1 for _ in open(sweeps))} sweeps, {r.wall:.1f}s")
    if c.prop == "C27":
        return printed(c, exe, frames)
    mode = MODE[c.prop]
    seed = c.seed
    for i in range(8 if c.thorough else 1):
        c.seed = seed + 1000 * i
        trace = c.path(f"records{i}.ndjson")
        args = ["--kind", "records", "--frames", frames, "--random", "6000" if c.thorough else "2000"]
        if c.prop == "C15":
            args += ["--only", VARIABLE]
        if c.prop == "C08" and i == 0:
            args += ["--pairs", "1"]
        if c.drive(exe, args, trace) is None:
            return
        c.sample(trace)
        c.judge("TracePacket", "TracePacket.cfg", trace, env={"MODE": mode})
        if c.prop == "C08" and i == 0:
            trace = c.path("sweeps-out.ndjson")
            if c.drive(exe, ["--kind", "sweep", "--sweeps", sweeps], trace) is None:
                return
            c.judge("TracePacket", "TracePacket.cfg", trace, env={"MODE": mode})
        if c.prop == "C10":
            trace = c.path(f"bulk{i}.ndjson")
            if c.drive(exe, ["--kind", "bulk", "--frames", frames, "--per", "60" if c.thorough else "12"], trace) is None:
                return
            c.judge("TracePacket", "TracePacket.cfg", trace, env={"MODE": mode})
        if c.violations:
            break
    c.seed = seed
    c.assumptions += ["the driver records accessor results, Debug and Serialize outcomes truthfully",
                      "payloads are those enumerated by GenPackets plus seeded mutations",
                      "the catalogue in spec/UbxCatalogue.tla is the documented message layout"]


def printed(c, exe, frames):
    seed = c.seed
    for i in range(8 if c.thorough else 1):
        c.seed = seed + 1000 * i
        trace = c.path(f"printed{i}.ndjson")
        if c.drive(exe, ["--kind", "printed", "--frames", frames, "--random", "6000" if c.thorough else "1500"], trace) is None:
            return
        c.sample(trace)
        c.judge("TracePrint", "TracePrint.cfg", trace)
        if c.violations:
            break
    c.seed = seed
    c.assumptions += ["the driver records texts truthfully",
                      "floats and strings print as the standard library prints them on their own"]

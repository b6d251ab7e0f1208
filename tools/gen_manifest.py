#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
TV = "TLA+ specification checked with TLC; trace validation of the real code by TLC"
N = {
 "C01": ("spec/UbxParser (every chunking, polling and drop of every small stream) and UbxDual (implementation-shaped, refines it) checked exhaustively at small constants; all chunkings of short real streams plus TLC-enumerated token streams and random schedules recorded from the code and accepted by TLC (spec/TraceParser)",),
 "C02": ("every packet yielded by recorded runs over all buffer types is judged by TLC to be a well-formed occurrence of the stream, in order; the specification's own soundness is model-checked",),
 "C03": ("every recorded result sequence on a growable buffer equals the specification's left-to-right scan; NoneMissed and OnlyWellFormed model-checked",),
 "C04": ("errors in recorded runs are those of the specification, with their two checksums / required size, once each",),
 "C05": ("recorded runs over bounded buffers (FixedLinearBuffer and two other conforming types) are behaviours of UbxBounded; UbxDual shown to refine it",),
 "C06": ("panics, hangs (watchdog) and runaway iterators are recorded as events no behaviour has; progress bound judged by TLC",),
 "C07": ("buffer_len after every exhausted iterator judged by TLC against the unfinished candidate",),
}
try:
    exec(open(V + "/tools/manifest_more.py").read())
except FileNotFoundError:
    pass
checks = []
for p in props:
    if p in N:
        note = N[p] if isinstance(N[p], tuple) else (N[p],)
        checks.append({
            "property": p,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {p} quick",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p} thorough",
            "technique": note[1] if len(note) > 1 else TV,
            "level": "model_checking",
            "level_note": note[0] + ". Bounded: holds on the scenarios enumerated; trusts TLC, rustc and the recording driver.",
        })
m = {"version": 1,
     "setup_cmd": "cd harness && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true cargo build --offline --quiet",
     "hooks": {"guard": "cfg(ublox_verif)",
               "enable": "RUSTFLAGS='--cfg ublox_verif' UBLOX_VERIF_DEFS=<file of definitions> (checks/derive.py); off in every other build",
               "source_commits": ["49dad9a"]},
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in N]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")

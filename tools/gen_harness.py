#!/usr/bin/env python3
"""Generates harness/src/gen_*.rs from spec/UbxCatalogue.tla (exported by TLC)."""
import json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = tempfile.mkdtemp()


def export(module):
    out = T + f"/{module}.json"
    subprocess.run(["tlc", "-metadir", T + "/st", "-config", module + ".cfg", module + ".tla"],
                   cwd=V + "/spec", env={**os.environ, "OUT": out}, check=True, stdout=subprocess.DEVNULL)
    return json.load(open(out))


cat = export("ExportCatalogue")
cfg = export("ExportConfig")
subprocess.run(["/bin/rm", "-r", T])
enums = {e["n"]: e for e in cat["enums"]}
flags = {f["n"]: f for f in cat["flags"]}
SUBS = {
    "FixStatusInfo": ["has_pr_prr_correction", "map_matching"],
    "NavSatSvFlags": ["quality_ind", "sv_used", "health", "differential_correction_available", "smoothed",
                      "orbit_source", "ephemeris_available", "almanac_available", "an_offline_available",
                      "an_auto_available", "sbas_corr", "rtcm_corr", "slas_corr", "spartn_corr", "pr_corr",
                      "cr_corr", "do_corr"],
    "TimTpFlags": ["time_base", "utc_available", "raim_active", "q_err_valid"],
    "TimTpRefInfo": ["time_ref_gnss", "utc_standard"],
    "TimTm2Flags": ["mode", "run", "new_falling_edge", "time_base", "utc_available", "time_valid", "new_rising_edge"],
}
# types without Debug
MATCH = {
    ("TimTm2Flags", "mode"): ("TimTm2Mode", ["Single", "Running"]),
    ("TimTm2Flags", "run"): ("TimTm2Run", ["Armed", "Stopped"]),
    ("TimTm2Flags", "time_base"): ("TimTm2TimeBase", ["Receiver", "Gnss", "Utc"]),
}
ITEM = {
    "NavSatIter": "|v, o| obs_NavSatSvInfo(&v, o)",
    "RxmRawxInfoIter": "|v, o| obs_RxmRawxInfo(&v, o)",
    "EsfMeasDataIter": '|v, o| { o.plain("data_type", || v.data_type); o.plain("data_field", || v.data_field); }',
    "EsfRawDataIter": '|v, o| { o.plain("data_type", || v.data_type); o.plain("data_field", || v.data_field); '
                      'o.plain("sensor_time_tag", || v.sensor_time_tag); }',
    "DwrdIter": '|v, o| o.plain("word", || v)',
    "MonVerExtensionIter": '|v, o| o.text("text", || v.to_string())',
}
FUSED = set(ITEM)


def obs_fn(m):
    r = [f"#[allow(non_snake_case, unused_variables)]\npub fn obs_{m['n']}(x: &{m['n']}Ref<'_>, o: &mut Obs) {{"]
    for f in m["f"]:
        a, u, w = f["a"], f["u"], f["w"]
        k = f["k"]
        if k == "plain":
            r.append(f'    o.plain("{a}", || x.{a}());')
            continue
        if k == "scaled":
            r.append(f'    o.scaled("{a}", || x.{a}(), {f["s"]}f64, {w});')
        elif k == "flags":
            r.append(f'    o.flags("{a}", || {{ let v = x.{a}(); let t = short_type(&v); '
                     f'(v.bits().to_le_bytes().to_vec(), v.iter_names().map(|n| n.0.to_string()).collect(), t) }});')
        elif k == "enum":
            r.append(f'    o.coded("{a}", || {{ let v = x.{a}(); let t = short_type(&v); let d = format!("{{:?}}", v); '
                     f'(vec![v as u8], d, t) }});')
        elif u in SUBS:
            subs = []
            for s in SUBS[u]:
                if (u, s) in MATCH:
                    ty, vs = MATCH[u, s]
                    arms = ", ".join(f'{ty}::{v} => "{v}"' for v in vs)
                    subs.append(f'("{s}", match v.{s}() {{ {arms} }}.to_string())')
                else:
                    subs.append(f'("{s}", format!("{{:?}}", v.{s}()))')
            r.append(f'    o.subs("{a}", || {{ let v = x.{a}(); (short_type(&v), vec![\n        '
                     + ",\n        ".join(subs) + "]) });")
        elif u in ("UartMode", "CfgItfmConfig", "CfgItfmConfig2"):
            r.append(f'    o.word("{a}", || x.{a}());')
        elif u in ITEM:
            r.append(f'    o.iter("{a}", || x.{a}(), {ITEM[u]});')
        elif u == "&str":
            r.append(f'    o.text("{a}", || x.{a}().to_string());')
        elif u == "Option<&str>":
            r.append(f'    o.opt("{a}", || x.{a}().map(|s| s.as_bytes().to_vec()));')
        elif u == "Option<u32>":
            r.append(f'    o.opt("{a}", || x.{a}().map(|v| v.to_le_bytes().to_vec()));')
        else:
            raise SystemExit(f"no observation for {u}")
        if w:
            r.append(f'    o.plain("{a}_raw", || x.{a}_raw());')
    r.append("}")
    return "\n".join(r)


def write(name, text):
    p = f"{V}/harness/src/{name}"
    open(p, "w").write("// Generated by tools/gen_harness.py from spec/UbxCatalogue.tla\n" + text)
    subprocess.run(["rustfmt", "--edition", "2021", p], check=True)


recv = [m for m in cat["messages"] if m["n"] in cat["order"]]
t = "use crate::obs::*;\nuse ublox::*;\n\n"
t += "\n".join(obs_fn(m) for m in recv + cat["blocks"])
t += "\n\npub fn observe(p: &PacketRef<'_>, o: &mut Obs) {\n    match p {\n"
for m in recv:
    t += f"        PacketRef::{m['n']}(x) => obs_{m['n']}(x, o),\n"
t += "        PacketRef::Unknown(_) => {},\n    }\n}\n"
t += """
fn deb<T: std::fmt::Debug>(v: T) -> usize {
    format!("{:?}", v).len()
}

/// formats what the accessors return, as far as it can be
pub fn debug_parts(p: &PacketRef<'_>) -> usize {
    match p {
"""
blocks = {b["n"]: b for b in cat["blocks"]}
BLOCK = {"NavSatIter": "NavSatSvInfo", "RxmRawxInfoIter": "RxmRawxInfo"}


def parts(m, x):
    r = []
    for f in m["f"]:
        if f["u"] in BLOCK:
            inner = parts(blocks[BLOCK[f["u"]]], "v")
            inner = " + ".join([f"deb(&v)"] + inner)
            r.append(f"{x}.{f['a']}().take(5000).map(|v| {inner}).sum::<usize>()")
        elif f["u"] in ITEM:
            r.append(f"{x}.{f['a']}().take(5000).map(deb).sum::<usize>()")
        elif f["k"] != "plain" and f["k"] != "scaled":
            r.append(f"deb({x}.{f['a']}())")
    return r


for m in recv:
    e = " + ".join(parts(m, "x"))
    if e:
        t += f"        PacketRef::{m['n']}(x) => {e},\n"
t += "        _ => 0,\n    }\n}\n"
t += """
fn dbg<T: std::fmt::Debug>(v: T) -> String {
    format!("{:?}", v)
}

/// the Debug text of what each accessor returns
pub fn debug_texts(p: &PacketRef<'_>) -> Vec<String> {
    match p {
"""


def texts(m, x):
    return "vec![" + ", ".join(f"dbg({x}.{f['a']}())" for f in m["f"]) + "]"


PIECE = {"NavSatIter": 12, "RxmRawxInfoIter": 32, "EsfMeasDataIter": 4, "EsfRawDataIter": 8}
for m in recv:
    t += f"        PacketRef::{m['n']}(x) => {texts(m, 'x')},\n"
t += """        PacketRef::Unknown(_) => vec![],
    }
}

/// the Debug text of each block, and of what its accessors return
pub fn debug_blocks(p: &PacketRef<'_>) -> (&'static str, Vec<(String, Vec<String>)>) {
    match p {
"""
for m in recv:
    for f in m["f"]:
        if f["u"] in PIECE:
            inner = texts(blocks[BLOCK[f["u"]]], "v") if f["u"] in BLOCK else "vec![]"
            t += f'        PacketRef::{m["n"]}(x) => ("{f["u"]}", x.{f["a"]}().map(|v| (dbg(&v), {inner})).collect()),\n'
t += '        _ => ("", vec![]),\n    }\n}\n'
t += "\npub fn meta() -> Vec<(&'static str, u8, u8, Option<u16>, u16)> {\n    vec![\n"
for m in cat["messages"] + cat["blocks"]:
    n = m["n"]
    t += f'        ("{n}", {n}::CLASS, {n}::ID, {n}::FIXED_PAYLOAD_LEN, {n}::MAX_PAYLOAD_LEN),\n'
t += "    ]\n}\n"
write("gen_obs.rs", t)

# ---------------------------------------------------------------- builders
SPECIAL = {
    "UartMode": "UartMode::new([DataBits::Seven, DataBits::Eight][code(v, 0)], "
                "[Parity::Even, Parity::Odd, Parity::None][code(v, 1)], "
                "[StopBits::One, StopBits::OneHalf, StopBits::Two, StopBits::Half][code(v, 2)])",
    "CfgItfmConfig": "CfgItfmConfig::new(code(v, 0) == 1, code(v, 1) as u32, code(v, 2) as u32)",
    "CfgItfmConfig2": "CfgItfmConfig2::new([CfgItfmAntennaSettings::Unknown, CfgItfmAntennaSettings::Active, "
                      "CfgItfmAntennaSettings::Passive][code(v, 0)], code(v, 1) == 1)",
    "ResetMode": "match code(v, 0) { 0 => ResetMode::HardwareResetImmediately, 1 => ResetMode::ControlledSoftwareReset, "
                 "2 => ResetMode::ControlledSoftwareResetGpsOnly, 4 => ResetMode::HardwareResetAfterShutdown, "
                 "8 => ResetMode::ControlledGpsStop, _ => ResetMode::ControlledGpsStart }",
    "AlignmentToReferenceTime": "match code(v, 0) { 0 => AlignmentToReferenceTime::Utc, 1 => AlignmentToReferenceTime::Gps, "
                                "2 => AlignmentToReferenceTime::Glo, 3 => AlignmentToReferenceTime::Bds, _ => AlignmentToReferenceTime::Gal }",
}
builders = [m for m in cat["messages"] if m["d"] in ("s", "rs") and m["rule"] == "fixed"]


def field_value(f):
    if f["k"] == "plain":
        return "arr(v)" if f["t"] == "bytes" else f"{f['t']}::read_le(v)"
    if f["k"] == "scaled":
        return f"real{f['u'][1:]}(v, {f['s']})"
    if f["k"] == "flags":
        return f"{f['u']}::from_bits_retain({f['t']}::read_le(v))"
    if f["k"] == "enum":
        e = enums[f["u"]]
        names = dict((c, n) for c, n in e["v"])
        if e["rest"] == "reserved":
            for c in range(256):
                names.setdefault(c, f"Reserved{c}")
        arms = " ".join(f"{c} => {f['u']}::{n}," for c, n in sorted(names.items()))
        return f"match code(v, 0) {{ {arms} _ => unreachable!() }}"
    return SPECIAL[f["u"]]


t = "use crate::build::*;\nuse ublox::*;\n\n"
for m in builders:
    n = m["n"]
    t += f"#[allow(non_snake_case, unused_variables)]\nfn mk_{n}(i: &[In]) -> {n}Builder {{\n    {n}Builder {{\n"
    for k, f in enumerate(m["f"]):
        t += f"        {f['a']}: {{ let v = &i[{k}]; {field_value(f)} }},\n"
    t += "    }\n}\n"
t += "pub fn build(name: &str, i: &[In], o: &mut Built) -> bool {\n    match name {\n"
for m in builders:
    n = m["n"]
    t += (f'        "{n}" => o.run({n}Builder::PACKET_LEN, || mk_{n}(i).into_packet_bytes().to_vec(), '
          f'|| {{ let a: [u8; {n}Builder::PACKET_LEN] = mk_{n}(i).into(); a.to_vec() }}, '
          f'|| mk_{n}(i)),\n')
t += "        _ => return false,\n    }\n    true\n}\n"
t += "pub fn rebuild(p: &PacketRef<'_>) -> Vec<u8> {\n    match p {\n"
for m in builders:
    n = m["n"]
    if n not in cat["order"]:
        continue
    fs = []
    for f in m["f"]:
        a = f["a"]
        fs.append(f"{a}: arr_of(&x.{a}())" if f["t"] == "bytes" else f"{a}: x.{a}()")
    t += f"        PacketRef::{n}(x) => {n}Builder {{ {', '.join(fs)} }}.into_packet_bytes().to_vec(),\n"
t += "        _ => vec![],\n    }\n}\n"
t += "pub fn defaults() -> Vec<(&'static str, Vec<u8>)> {\n    vec![\n"
for m in builders:
    if m["dflt"]:
        t += f'        ("{m["n"]}", {m["n"]}Builder::default().into_packet_bytes().to_vec()),\n'
t += "    ]\n}\n"
t += """pub fn requests() -> Vec<(&'static str, u8, u8, Vec<u8>, Vec<u8>, Vec<u8>)> {
    vec![
"""
for m in cat["messages"]:
    n = m["n"]
    t += (f'        ("{n}", {n}::CLASS, {n}::ID, UbxPacketRequest::request_for::<{n}>().into_packet_bytes().to_vec(), '
          f'CfgMsgSinglePortBuilder::set_rate_for::<{n}>(RATE).into_packet_bytes().to_vec(), '
          f'CfgMsgAllPortsBuilder::set_rate_for::<{n}>(RATES).into_packet_bytes().to_vec()),\n')
t += "    ]\n}\npub fn acks(p: &PacketRef<'_>) -> Vec<(&'static str, bool)> {\n    match p {\n"
for v, fn in (("AckAck", "is_ack_for"), ("AckNak", "is_nak_for")):
    t += f"        PacketRef::{v}(a) => vec![\n"
    for m in cat["messages"]:
        t += f'            ("{m["n"]}", a.{fn}::<{m["n"]}>()),\n'
    t += "        ],\n"
t += "        _ => vec![],\n    }\n}\n"
write("gen_build.rs", t)

# ---------------------------------------------------------------- configuration items
var = cfg["variants"]
t = "use crate::config::*;\nuse ublox::cfg_val::*;\nuse ublox::*;\n\n"
for ty, vs in var.items():
    path = ty
    t += f"impl Value for {path} {{\n    fn make(_b: &[u8], v: &str) -> Self {{ match v {{\n"
    for v in vs:
        t += f'        "{v}" => {path}::{v},\n'
    t += "        _ => panic!(\"variant\"),\n    } }\n    fn show(&self) -> (Vec<u8>, &'static str) { (vec![], match self {\n"
    for v in vs:
        t += f'        {path}::{v} => "{v}",\n'
    t += "    }) }\n}\n"
t += "pub fn make(name: &str, b: &[u8], v: &str) -> CfgVal {\n    match name {\n"
for i in cfg["items"]:
    t += f'        "{i["n"]}" => CfgVal::{i["n"]}(Value::make(b, v)),\n'
t += '        _ => panic!("no item {}", name),\n    }\n}\n'
t += "pub fn show(x: &CfgVal) -> (&'static str, Vec<u8>, &'static str) {\n    let (n, (b, v)) = match x {\n"
for i in cfg["items"]:
    t += f'        CfgVal::{i["n"]}(x) => ("{i["n"]}", x.show()),\n'
t += '        _ => ("?", (vec![], "")),\n    };\n    (n, b, v)\n}\n'
write("gen_config.rs", t)

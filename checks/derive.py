"""C20: the definition language of the derive macros.

Definitions enumerated by TLC (spec/GenDerive) are written as Rust, expanded by
the real macros within the real crate (the module guarded by cfg(ublox_verif)),
and TLC judges which of them compile and what the accepted ones do."""
import json, os, re, shutil, subprocess
import vlib

CRATE = os.path.join(vlib.VERIF, "harness-derive")
WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "f64": 8}


def literal(a):
    key, kind, n, s = a
    if kind == "int":
        return f"{key} = " + (hex(n) if n > 0 and n % 3 == 0 else str(n))
    if kind == "str":
        return f'{key} = "{s}"'
    if kind == "float":
        return f"{key} = {n}.0"
    return key


def keys(items, order):
    return "#[ubx(" + ", ".join(reversed(items) if order else items) + ")] "


def field_attr(x):
    n, t, m, o = x["n"], x["t"], x["m"], x["o"]
    wrap = f"map_type = Wrap<{t}>"
    return {
        "-": "",
        "alias": keys([f"alias = a_{n}"], 0),
        "wrap": keys([wrap], 0),
        "fail": keys([wrap, "may_fail"], o),
        "scale": keys(["map_type = f64", "scale = 0.5", f"alias = a_{n}"], o),
        "asref": keys(["map_type = View", "from = View::new", "get_as_ref"], o),
        "iter": keys(["map_type = View", "from = View::new"], o),
        "iterfail": keys(["map_type = View", "from = View::new", "is_valid = View::is_valid", "may_fail"], o),
        "sized": keys(["map_type = View", "from = View::new", f"size_fn = len_{n}"], o),
        "unknownkey": keys([wrap, "mapping = 3"], 0),
        "badkey": keys([f"map_typ = Wrap<{t}>"], 0),
        "sametype": keys([f"map_type = {t}"], 0),
        "two": keys([wrap], 0) + keys(["alias = other"], 0),
        "twofirst": keys(["may_fail"], 0) + keys([wrap], 0),
        "dupmap": keys([wrap, wrap], 0),
        "dupalias": keys(["alias = other", "alias = another"], 0),
        "duplate": keys([wrap, "may_fail", "alias = other", "may_fail"], 0),
        "noargs": "#[ubx] ",
    }[m]


def name_of(x):
    return ("a_" if x["m"] in ("alias", "scale") else "") + x["n"]


def packet(d, name="P"):
    macro = {"recv": "ubx_packet_recv", "send": "ubx_packet_send", "both": "ubx_packet_recv_send"}[d["m"]]
    out = f"#[{macro}] "
    head = ", ".join(literal(a) for a in d["attrs"])
    if d["ubx"] >= 1:
        out += f"#[ubx({head})] "
    if d["ubx"] >= 2:
        out += "#[ubx(id = 99)] "
    lt = "<'a>" if any("'a" in x["t"] for x in d["f"]) else ""
    if d["shape"] == "named":
        return out + f"struct {name}{lt} {{ " + " ".join(f"{field_attr(x)}{x['n']}: {x['t']}," for x in d["f"]) + " }"
    if d["shape"] == "tuple":
        return out + f"struct {name}(" + ", ".join(x["t"] for x in d["f"]) + ");"
    if d["shape"] == "unit":
        return out + f"struct {name};"
    return out + f"enum {name} {{ A = 1, B = 2 }}"


def extend_attr(d):
    if d["ubx"] == ["-"]:
        return ""
    if d["ubx"] == ["="]:
        return '#[ubx = "from"] '
    return "#[ubx(" + ", ".join(d["ubx"]) + ")] "


def enum(d):
    out = "#[ubx_extend] " + extend_attr(d)
    if d["repr"] == "=":
        out += '#[repr = "u8"] '
    elif d["repr"] != "-":
        out += f"#[repr({d['repr']})] "
    vs = []
    for n, k, v in d["v"]:
        vs.append({"int": f"{n} = {v}", "none": n, "str": f'{n} = "{v}"', "const": f"{n} = SOME",
                   "tuple": f"{n}(u8) = {v}", "named": f"{n} {{ x: u8 }} = {v}"}[k])
    return out + "#[derive(Clone, Copy, Debug, PartialEq)] pub enum E { " + ", ".join(vs) + " }"


def flags(d):
    cs = []
    for n, k, bits in d["v"]:
        x = sum(1 << b for b in bits)
        cs.append(f"const {n} = " + {"int": hex(x) if x % 3 else str(x), "str": f'"{x}"', "const": "SOME"}[k] + ";")
    return ("#[ubx_extend_bitflags] " + extend_attr(d)
            + f"bitflags! {{ #[derive(Debug, Clone, Copy)] pub struct F: {d['repr']} {{ " + " ".join(cs) + " } }")


def union(d):
    out = ""
    for j, (c, i, n, mx) in enumerate(d["packs"], 1):
        fs = [{"n": "f1", "t": f"[u8; {n}]" if n > 0 else "u8", "m": "-", "o": 0}] if n else []
        key = "fixed_payload_len" if n >= 0 else "max_payload_len"
        if n < 0:
            fs.append({"n": "f2", "t": "[u8; 0]", "m": "-", "o": 0})
        out += packet({"m": "recv", "ubx": 1, "shape": "named", "f": fs,
                       "attrs": [["class", "int", c, ""], ["id", "int", i, ""], [key, "int", mx, ""]]}, f"P{j}") + " "
    ps = ", ".join(f"P{j}" for j in range(1, len(d["packs"]) + 1))
    u = "UbxUnknownPacketRef"
    return out + "define_recv_packets!(" + {
        "good": f"enum U {{ _ = {u}, {ps} }}",
        "nounknown": f"enum U {{ {ps} }}",
        "struct": f"struct U {{ _ = {u}, {ps} }}",
        "nobrace": f"enum U [ _ = {u}, {ps} ]",
        "path": f"enum U {{ _ = super::{u}, {ps} }}",
        "unknownlast": f"enum U {{ {ps}, _ = {u} }}",
        "equals": f"enum U {{ _ : {u}, {ps} }}",
    }[d["form"]] + ");"


def size_fns(d):
    sized = [x for x in d["f"] if x["m"] == "sized"] if d["k"] == "packet" else []
    if not sized:
        return ""
    return " impl PRef<'_> { " + " ".join(
        f"fn len_{x['n']}(&self) -> usize {{ 1 + self.{name_of(d['f'][x['by'] - 1])}() as usize % 3 }}" for x in sized) + " } "


def definition(d):
    return size_fns(d) + {"packet": packet, "enum": enum, "flags": flags, "union": union}[d["k"]](d)


# ------------------------------------------------------------- observers
def observe_packet(d, index):
    out = ""
    if d["m"] != "send":
        seen = []
        for x in d["f"]:
            n = name_of(x)
            if x["m"] == "scale":
                seen += [f'("{n}_raw", Ob::ob(&r.{n}_raw()))', f'("{n}", steps(r.{n}()))']
            elif x["m"] in ("wrap", "fail", "asref"):
                seen += [f'("{n}_raw", Ob::ob(&r.{n}_raw()))', f'("{n}", Ob::ob(&r.{n}()))']
            else:
                seen += [f'("{n}", Ob::ob(&r.{n}()))']
        out += ("fn read(pl: &[u8]) -> Option<Seen> { if PRef::validate(pl).is_err() { return None; } let r = PRef(pl); "
                "assert!(r.as_bytes() == pl); let _ = format!(\"{:?}\", r); Some(vec![" + ", ".join(seen) + "]) } ")
    if d["m"] != "recv":
        ins, items = [], False
        for j, x in enumerate(d["f"]):
            n, t = name_of(x), x["t"]
            v = f"<{t} as Raw>::of(&i[{j}])"
            if t == "&'a [Item]":
                items, v = True, "&items"
                pre = f"let items: Vec<Item> = i[{j}].iter().map(|b| Item(*b)).collect(); "
            elif x["m"] in ("wrap", "fail"):
                v = f"Wrap({v})"
            elif x["m"] == "scale":
                v = f"{v} as f64 * 0.5"
            ins.append(f"{n}: {v}")
        mk = "PBuilder { " + ", ".join(ins) + " }"
        if items:
            out += ("fn build(i: &[Vec<u8>]) -> Vec<Vec<u8>> { " + pre + "let mut v = vec![]; " + mk + ".extend_to(&mut v); "
                    "let w = " + mk + ".into_packet_vec(); vec![v, w] } ")
        else:
            total = 8 + sum(width(x["t"]) for x in d["f"])
            out += ("fn build(i: &[Vec<u8>]) -> Vec<Vec<u8>> { let a = " + mk + ".into_packet_bytes().to_vec(); "
                    "let b: [u8; " + str(total) + "] = From::from(" + mk + "); let mut c: Vec<u8> = vec![]; "
                    + mk + ".create_packet(&mut c).ok(); assert!(PBuilder::PACKET_LEN == " + str(total) + "); vec![a, b.to_vec(), c] } ")
    dflt = d["m"] != "recv" and any(a[0] == "flags" for a in d["attrs"])
    if dflt:
        out += "fn default() -> Vec<u8> { PBuilder::default().into_packet_bytes().to_vec() } "
    out += "fn meta() -> (u8, u8, Option<u16>, u16) { (P::CLASS, P::ID, P::FIXED_PAYLOAD_LEN, P::MAX_PAYLOAD_LEN) } "
    out += (f"pub const S: Subject = Subject {{ index: {index}, meta, read: " + ("Some(read)" if d["m"] != "send" else "None")
            + ", build: " + ("Some(build)" if d["m"] != "recv" else "None") + ", default: " + ("Some(default)" if dflt else "None") + " };")
    return out


def width(t):
    m = re.match(r"\[u8; (\d+)\]", t)
    return int(m.group(1)) if m else WIDTH[t]


def observe_enum(d, index):
    raw = "e.into_raw()" if "into_raw" in d["ubx"] else "e as u8"
    if "from" in d["ubx"]:
        one = "Some(E::from(x))"
    elif "from_unchecked" in d["ubx"]:
        one = "if E::is_valid(x) { Some(E::from_unchecked(x)) } else { None }"
    else:
        one = "match x { " + " ".join(f"{v} => Some(E::{n})," for n, _, v in d["v"]) + " _ => None }"
    return ("fn table() -> Vec<Option<(u8, String, u8)>> { (0..=255u8).map(|x| { let o: Option<E> = " + one + "; "
            "o.map(|e| (e as u8, format!(\"{:?}\", e), " + raw + ")) }).collect() } "
            f"pub const S: EnumSubject = EnumSubject {{ index: {index}, table }};")


def observe_flags(d, index):
    t = d["repr"]
    out = ("fn consts() -> Vec<Vec<u8>> { vec![" + ", ".join(f"F::{n}.bits().to_le_bytes().to_vec()" for n, _, _ in d["v"]) + "] } "
           "fn all() -> Vec<u8> { F::all().bits().to_le_bytes().to_vec() } ")
    has = "from" in d["ubx"]
    if has:
        raw = "v.into_raw()" if "into_raw" in d["ubx"] else "v.bits()"
        out += f"fn from(b: &[u8]) -> Vec<u8> {{ let v = F::from(<{t} as Raw>::of(b)); {raw}.to_le_bytes().to_vec() }} "
    return out + (f"pub const S: FlagsSubject = FlagsSubject {{ index: {index}, consts, all, from: "
                  + ("Some(from)" if has else "None") + " };")


def observe_union(d, index):
    arms = " ".join(f"U::P{j}(ref r) => ({j}, r.as_bytes() == pl)," for j in range(1, len(d["packs"]) + 1))
    return ("fn longest() -> usize { MAX_PAYLOAD_LEN as usize } "
            "fn matched(c: u8, i: u8, pl: &[u8]) -> (usize, u8, u8, bool) { let m = match_packet(c, i, pl).unwrap(); "
            "let (k, same) = match m { " + arms + " U::Unknown(ref r) => (0, r.payload == pl), }; "
            "let (mc, mi) = m.class_and_msg_id(); (k, mc, mi, same) } "
            f"pub const S: UnionSubject = UnionSubject {{ index: {index}, longest, matched }};")


OBSERVE = {"packet": observe_packet, "enum": observe_enum, "flags": observe_flags, "union": observe_union}
TABLES = {"packet": ("SUBJECTS", "Subject"), "enum": ("ENUMS", "EnumSubject"),
          "flags": ("FLAGS", "FlagsSubject"), "union": ("UNIONS", "UnionSubject")}


def write_defs(path, scenarios, chosen, observed):
    """One definition per line, in its own module; returns line -> index."""
    lines = open(os.path.join(CRATE, "prelude.rs")).read().splitlines()
    at = {}
    tables = {k: [] for k in TABLES}
    for i in chosen:
        d = scenarios[i]["d"]
        text = "#[allow(warnings)] pub mod d%d { use super::*; %s " % (i, definition(d))
        if i in observed:
            text += OBSERVE[d["k"]](d, i) + " "
            tables[d["k"]].append(i)
        lines.append(text + "}")
        at[len(lines)] = i
    for k, (name, ty) in TABLES.items():
        lines.append(f"pub static {name}: &[{ty}] = &[" + ", ".join(f"d{i}::S" for i in tables[k]) + "];")
    open(path, "w").write("\n".join(lines) + "\n")
    return at


def spans(m):
    """all places a compiler message points at, through macro expansions"""
    todo = list(m.get("spans", []))
    for c in m.get("children", []):
        todo += c.get("spans", [])
    while todo:
        s = todo.pop()
        yield s["file_name"], s["line_start"]
        if s.get("expansion"):
            todo.append(s["expansion"]["span"])


def cargo(c, defs, what):
    env = vlib.cargo_env()
    env.update(RUSTFLAGS="--cfg ublox_verif", UBLOX_VERIF_DEFS=defs, CARGO_TARGET_DIR=os.path.join(CRATE, "target"))
    p = subprocess.run(["cargo", *what, "--offline", "--message-format=json"], cwd=CRATE, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    msgs = []
    for line in p.stdout.decode("utf-8", "replace").splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"].get("level") == "error":
            msgs.append(m["message"])
    return p.returncode, msgs, p.stderr.decode("utf-8", "replace")


def rejected(msgs, at, defs):
    bad = {}
    for m in msgs:
        for f, line in spans(m):
            if os.path.abspath(os.path.join(CRATE, f)) == defs and line in at:
                bad.setdefault(at[line], m["message"])
    return bad


def check(c):
    scen = c.path("definitions.ndjson")
    r = c.generate("GenDerive", "GenDerive.cfg", {"OUT": scen, "TIER": c.tier, "SEED": c.seed})
    scenarios = [json.loads(l) for l in open(scen)]
    c.log(f"GenDerive: {len(scenarios)} definitions, {sum(s['ok'] for s in scenarios)} consistent, {r.wall:.1f}s")
    defs = c.path("defs.rs")
    # 1. which of them compile: errors of one stage of the compiler hide those
    # of the next, so what is rejected is taken out until the rest compiles
    left, why = list(range(len(scenarios))), {}
    for stage in range(8):
        at = write_defs(defs, scenarios, left, set())
        rc, msgs, err = cargo(c, defs, ["check", "-p", "ublox"])
        bad = rejected(msgs, at, defs)
        c.log(f"stage {stage + 1}: {len(left)} definitions, {len(bad)} rejected")
        if rc == 0:
            break
        if not bad:
            json.dump({i: [why[i], scenarios[i]["ok"], definition(scenarios[i]["d"])] for i in why}, open(c.path("rejected.json"), "w"), indent=0)
            open(c.path("build.log"), "w").write("\n".join(m.get("rendered") or m["message"] for m in msgs) + err)
            raise vlib.ToolError("the crate does not compile: " + "; ".join(m["message"] for m in msgs[:3]) + err[-300:])
        why.update(bad)
        left = [i for i in left if i not in bad]
    else:
        raise vlib.ToolError("definitions keep failing")
    json.dump({i: [why[i], scenarios[i]["ok"], definition(scenarios[i]["d"])] for i in why}, open(c.path("rejected.json"), "w"), indent=0)
    # 2. what the accepted ones do
    seen = [i for i in left if scenarios[i]["ok"]]
    unusable = {}
    trace = c.path("derived.ndjson")
    for stage in range(4):
        at = write_defs(defs, scenarios, seen, set(seen))
        rc, msgs, err = cargo(c, defs, ["build", "--quiet"])
        if rc == 0:
            break
        bad = rejected(msgs, at, defs)
        if not bad:
            open(c.path("build.log"), "w").write("\n".join(m.get("rendered") or m["message"] for m in msgs) + err)
            raise vlib.ToolError("the driver does not compile: " + "; ".join(m["message"] for m in msgs[:3]) + err[-300:])
        unusable.update(bad)
        seen = [i for i in seen if i not in bad]
    else:
        raise vlib.ToolError("the driver keeps failing to compile")
    exe = os.path.join(CRATE, "target", "debug", "vderive")
    if c.drive(exe, ["--scenarios", scen], trace) is None:
        return
    with open(trace, "a") as f:
        for i, s in enumerate(scenarios):
            if i in why:
                f.write(json.dumps({"d": s["d"], "acc": 0, "why": why[i][:200], "text": definition(s["d"])}) + "\n")
            elif i in unusable:
                f.write(json.dumps({"d": s["d"], "acc": 2, "why": unusable[i][:200], "text": definition(s["d"])}) + "\n")
            elif i not in seen:
                f.write(json.dumps({"d": s["d"], "acc": 1, "text": definition(s["d"])}) + "\n")
    c.sample(trace)
    c.judge("TraceDerive", "TraceDerive.cfg", trace)
    c.extra["definitions"] = {"total": len(scenarios), "consistent": sum(s["ok"] for s in scenarios), "rejected": len(why)}
    c.assumptions += ["definitions are those enumerated by spec/GenDerive",
                      "the driver records what the generated code returns truthfully",
                      "a definition is rejected when the compiler points an error at it"]

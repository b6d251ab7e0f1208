//! Asks the packets, enumerations, flags and unions generated by the derive
//! macros what they do, and records it.
use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use ublox::verif_defs::{ENUMS, FLAGS, SUBJECTS, UNIONS};

fn arg(name: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a[a.iter().position(|x| x == name).unwrap() + 1].clone()
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let lines: Vec<Value> = std::io::BufReader::new(std::fs::File::open(arg("--scenarios")).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let mut out = BufWriter::new(std::fs::File::create(arg("--out")).unwrap());
    let mut n = 0;
    for s in SUBJECTS {
        let sc = &lines[s.index];
        let mut reads = vec![];
        let mut builds = vec![];
        if let Some(read) = s.read {
            for pl in sc["pls"].as_array().unwrap() {
                let b = bytes(pl);
                let r = match guard(|| read(&b)) {
                    None => json!(["panic", []]),
                    Some(None) => json!(["no", []]),
                    Some(Some(seen)) => json!(["yes", seen]),
                };
                reads.push(json!([pl, r[0], r[1]]));
                n += 1;
            }
        }
        if let Some(build) = s.build {
            for ins in sc["ins"].as_array().unwrap() {
                let v: Vec<Vec<u8>> = ins.as_array().unwrap().iter().map(bytes).collect();
                builds.push(json!([ins, guard(|| build(&v)).unwrap_or_default()]));
                n += 1;
            }
        }
        let (c, i, f, m) = (s.meta)();
        let d = s.default.map(|d| vec![guard(d).unwrap_or_default()]).unwrap_or_default();
        let r = json!({"d": sc["d"], "acc": 1, "meta": [c, i, f.map(i32::from).unwrap_or(-1), m],
                       "reads": reads, "builds": builds, "dflt": d});
        writeln!(out, "{}", r).unwrap();
    }
    for s in ENUMS {
        let t: Vec<Value> = (s.table)()
            .into_iter()
            .map(|x| match x {
                None => json!([]),
                Some((c, n, r)) => json!([c, n, r]),
            })
            .collect();
        writeln!(out, "{}", json!({"d": lines[s.index]["d"], "acc": 1, "table": t})).unwrap();
        n += 256;
    }
    for s in FLAGS {
        let width = (s.all)().len();
        let mut from = vec![];
        if let Some(f) = s.from {
            for k in 0..8 * width + 6 {
                let mut b = vec![0u8; width];
                match k {
                    0 => {}
                    1 => b.fill(255),
                    2 => b.fill(0x55),
                    3 => b.fill(0xaa),
                    4 => b[0] = 9,
                    5 => b[width - 1] = 0xf0,
                    _ => b[(k - 6) / 8] = 1 << ((k - 6) % 8),
                }
                let r = f(&b);
                from.push(json!([b, r]));
                n += 1;
            }
        }
        let r = json!({"d": lines[s.index]["d"], "acc": 1, "consts": (s.consts)(), "all": (s.all)(), "from": from});
        writeln!(out, "{}", r).unwrap();
    }
    for s in UNIONS {
        let sc = &lines[s.index];
        let mut got = vec![];
        for f in sc["frames"].as_array().unwrap() {
            let (c, i) = (f[0].as_u64().unwrap() as u8, f[1].as_u64().unwrap() as u8);
            let pl = bytes(&f[2]);
            let (k, mc, mi, same) = (s.matched)(c, i, &pl);
            got.push(json!([f, k, mc, mi, same as u8]));
            n += 1;
        }
        writeln!(out, "{}", json!({"d": sc["d"], "acc": 1, "longest": (s.longest)(), "got": got})).unwrap();
    }
    println!("{{\"subjects\":{},\"observations\":{}}}", SUBJECTS.len() + ENUMS.len() + FLAGS.len() + UNIONS.len(), n);
}

//! Encodes and decodes configuration items and builds CFG-VALSET frames.
//!   --kind items --scenarios F    every item and value; lists through CfgValIter
//!   --kind sets --scenarios F --random N
use std::fmt::Write as _;
use ublox::cfg_val::CfgVal;
use ublox::*;
use vharness::build::bytes_of;
use vharness::*;

/// Another buffer to which extend_to can append
struct Own {
    b: Vec<u8>,
}
impl Extend<u8> for Own {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) {
        for x in it {
            self.b.push(x);
        }
    }
}
impl std::ops::Deref for Own {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.b
    }
}
impl std::ops::DerefMut for Own {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.b
    }
}

fn jlist(list: &[CfgVal]) -> String {
    let v: Vec<String> = list.iter().map(config::text).collect();
    format!("[{}]", v.join(","))
}
fn run(head: String, f: impl FnOnce() -> String) {
    set_current(format!("{},\"hang\":1}}", head));
    match guarded(f) {
        Ok(s) => emit(&format!("{}{}}}", head, s)),
        Err(e) => {
            let mut t = String::new();
            jstr(&mut t, &e);
            emit(&format!("{},\"panic\":{}}}", head, t));
        },
    }
}

fn item(v: &serde_json::Value) {
    run(format!("{{\"item\":{}", v), || {
        let x = config::parse(v);
        let mut buf = [165u8; 20];
        let w = x.write_to(&mut buf);
        let mut ext = vec![1u8, 2, 3];
        let e = x.extend_to(&mut ext);
        let p = CfgVal::parse(&ext[3..]);
        let p2 = CfgVal::parse(&buf);
        let mut s = format!(",\"len\":{},\"empty\":{},\"w\":{},\"e\":{},\"buf\":", x.len(), x.is_empty() as u8, w, e);
        jbytes(&mut s, &buf);
        s.push_str(",\"ext\":");
        jbytes(&mut s, &ext);
        let _ = write!(s, ",\"p\":{},\"p2\":{}", config::text(&p), config::text(&p2));
        s
    });
}

fn list(vals: &[CfgVal]) {
    run(format!("{{\"list\":{}", jlist(vals)), || {
        let mut mem = vec![0x77u8; 12 * vals.len() + 5];
        let it = CfgValIter::new(&mut mem, vals);
        let back: Vec<CfgVal> = it.take(vals.len() + 2).collect();
        let n: usize = back.iter().map(|x| x.len()).sum();
        let mut s = format!(",\"it\":{},\"data\":", jlist(&back));
        jbytes(&mut s, &mem[..n.min(mem.len())]);
        s
    });
}

fn set(h: [u8; 4], pre: &[u8], vals: &[CfgVal]) {
    let mut head = format!("{{\"h\":[[{}],[{}],[{},{}]],\"pre\":", h[0], h[1], h[2], h[3]);
    jbytes(&mut head, pre);
    let _ = write!(head, ",\"items\":{}", jlist(vals));
    run(head, || {
        let mk = || CfgValSetBuilder {
            version: h[0],
            layers: CfgLayer::from_bits_retain(h[1]),
            reserved1: u16::from_le_bytes([h[2], h[3]]),
            cfg_data: vals,
        };
        let mut s = String::from(",\"vec\":");
        jbytes(&mut s, &mk().into_packet_vec());
        let mut v = pre.to_vec();
        mk().extend_to(&mut v);
        s.push_str(",\"ext\":");
        jbytes(&mut s, &v);
        let mut o = Own { b: pre.to_vec() };
        mk().extend_to(&mut o);
        s.push_str(",\"own\":");
        jbytes(&mut s, &o.b);
        s
    });
}

fn main() {
    let out = arg("--out").unwrap();
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let kind = arg("--kind").unwrap();
    let extra: usize = arg("--random").map_or(0, |s| s.parse().unwrap());
    let text = std::fs::read_to_string(arg("--scenarios").unwrap()).expect("scenarios");
    let lines: Vec<serde_json::Value> = text.lines().map(|l| serde_json::from_str(l).expect("scenario")).collect();
    open_out(&out);
    start_watchdog();
    let mut rng = Rng::new(seed);
    let mut n = 0;
    match kind.as_str() {
        "items" => {
            let mut pool = vec![];
            for l in &lines {
                item(l);
                pool.push(config::parse(l));
                n += 1;
            }
            for _ in 0..extra {
                // any number in any item
                let v = rng.pick(&lines).clone();
                let b = bytes_of(&v[1]);
                if b.len() >= 2 {
                    let r: Vec<u8> = b.iter().map(|_| rng.byte()).collect();
                    item(&serde_json::json!([v[0], r, v[2]]));
                    n += 1;
                }
                let k = rng.below(12);
                let l: Vec<CfgVal> = (0..k).map(|_| rng.pick(&pool).clone()).collect();
                list(&l);
                n += 1;
            }
        },
        "sets" => {
            let mut pool = vec![];
            for l in &lines {
                let h = &l[0];
                let (a, b, c) = (bytes_of(&h[0]), bytes_of(&h[1]), bytes_of(&h[2]));
                let vals: Vec<CfgVal> = l[2].as_array().unwrap().iter().map(config::parse).collect();
                set([a[0], b[0], c[0], c[1]], &bytes_of(&l[1]), &vals);
                if vals.len() < 10 {
                    pool.extend(vals);
                }
                n += 1;
            }
            for _ in 0..extra {
                let most = if rng.chance(1, 8) { 200 } else { 12 };
                let k = rng.below(most);
                let vals: Vec<CfgVal> = (0..k).map(|_| rng.pick(&pool).clone()).collect();
                let most = if rng.chance(1, 4) { 600 } else { 9 };
                let m = rng.below(most);
                let pre: Vec<u8> = (0..m).map(|_| rng.byte()).collect();
                set([rng.byte(), rng.byte(), rng.byte(), rng.byte()], &pre, &vals);
                n += 1;
            }
        },
        k => panic!("kind {}", k),
    }
    set_current(String::new());
    close_out();
    println!("{} {}", n, kind);
}

//! C18: records operation sequences on Vec<u8> and FixedLinearBuffer used
//! through UnderlyingBuffer, and the methods the trait provides itself; judged by spec/TraceQueue.tla.
use std::fmt::Write as _;
use ublox::{FixedLinearBuffer, UnderlyingBuffer};
use vharness::*;

#[derive(Clone, Debug)]
enum Op {
    Ext(Vec<u8>),
    Drain(usize),
    Clear,
}

fn observe<T: UnderlyingBuffer>(b: &T, full: bool, r: &mut Rng, ev: &mut String) {
    let n = b.len();
    let cap = b.max_capacity();
    let cap = if cap == usize::MAX { -1 } else { cap as i64 };
    let _ = write!(ev, ",[\"o\",{},{},{},", n, b.is_empty() as u8, cap);
    jbytes(ev, &b[0..n]);
    ev.push(',');
    let idx: Vec<u8> = (0..n).map(|i| b[i]).collect();
    jbytes(ev, &idx);
    ev.push_str(",[");
    let mut vals = vec![1u8, 2, 3, 9, 0xCC];
    if n > 0 {
        vals.push(b[r.below(n)]);
        vals.push(b[n - 1]);
    }
    vals.push(r.byte());
    for (i, v) in vals.iter().enumerate() {
        let f = b.find(*v).map(|x| x as i64).unwrap_or(-1);
        let _ = write!(ev, "{}[{},{}]", if i > 0 { "," } else { "" }, v, f);
    }
    ev.push_str("],[");
    let mut rs = vec![];
    if full {
        for a in 0..=n {
            for z in a..=n {
                rs.push((a, z));
            }
        }
    } else {
        for _ in 0..3 {
            let a = r.below(n + 1);
            rs.push((a, a + r.below(n - a + 1)));
        }
    }
    for (i, (a, z)) in rs.iter().enumerate() {
        let _ = write!(ev, "{}[{},{},", if i > 0 { "," } else { "" }, a, z);
        jbytes(ev, &b[*a..*z]);
        ev.push(']');
    }
    let i = guarded(|| b[n]).is_err();
    let rg = guarded(|| b[0..n + 1].len()).is_err() && guarded(|| b[n + 1..n + 1].len()).is_err();
    let _ = write!(ev, "],{},{}]", i as u8, rg as u8);
}

fn run<T: UnderlyingBuffer>(mut b: T, ops: &[Op], exact_drain: bool, every: bool, r: &mut Rng) -> String {
    let mut ev = String::new();
    for (i, op) in ops.iter().enumerate() {
        let res = guarded(|| match op {
            Op::Ext(d) => {
                let k = b.extend_from_slice(d);
                let mut s = String::from(",[\"e\",");
                jbytes(&mut s, d);
                let _ = write!(s, ",{}]", k);
                s
            },
            Op::Drain(n) => {
                let n = if exact_drain { (*n).min(b.len()) } else { *n };
                b.drain(n);
                format!(",[\"r\",{}]", n.min(1 << 30))
            },
            Op::Clear => {
                b.clear();
                ",[\"c\"]".to_string()
            },
        });
        match res {
            Ok(s) => ev.push_str(&s),
            Err(m) => {
                ev.push_str(",[\"x\",");
                jstr(&mut ev, &m);
                ev.push(']');
                return ev;
            },
        }
        if every || i + 1 == ops.len() || r.chance(1, 4) {
            let mut one = String::new();
            match guarded(|| observe(&b, every, r, &mut one)) {
                Ok(()) => ev.push_str(&one),
                Err(m) => {
                    ev.push_str(",[\"x\",");
                    jstr(&mut ev, &m);
                    ev.push(']');
                    return ev;
                },
            }
        }
    }
    ev
}

fn record(cap: i64, ops: &[Op], every: bool, r: &mut Rng) {
    set_current(format!("{{\"cap\":{},\"ev\":[[\"h\"]]}}", cap));
    let ev = if cap < 0 {
        run(Vec::<u8>::new(), ops, true, every, r)
    } else {
        let n = cap as usize;
        let mut store = vec![0xCCu8; n + 64];
        let mut ev = run(FixedLinearBuffer::new(&mut store[32..32 + n]), ops, false, every, r);
        let ok = store[..32].iter().chain(&store[32 + n..]).all(|b| *b == 0xCC);
        let _ = write!(ev, ",[\"g\",{}]", ok as u8);
        ev
    };
    emit(&format!("{{\"cap\":{},\"ev\":[{}]}}", cap, ev.strip_prefix(',').unwrap_or(&ev)));
    set_current(String::new());
}

/// the methods the trait provides itself (find, is_empty), over a buffer of our own
fn record_provided(cap: i64, ops: &[Op], every: bool, r: &mut Rng) {
    set_current(format!("{{\"cap\":{},\"ev\":[[\"h\"]]}}", cap));
    let ev = run(CappedVec::new(cap as usize), ops, false, every, r);
    emit(&format!("{{\"cap\":{},\"ev\":[{}]}}", cap, ev.strip_prefix(',').unwrap_or(&ev)));
    set_current(String::new());
}

fn main() {
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let thorough = arg("--tier").as_deref() == Some("thorough");
    open_out(&arg("--out").unwrap());
    start_watchdog();
    let mut r = Rng::new(seed ^ 0x18);
    let mut runs = 0;
    // every sequence of operations to a depth (maximal ones, observed after each operation)
    let alphabet = [
        Op::Ext(vec![1]),
        Op::Ext(vec![2, 1]),
        Op::Ext(vec![3, 2, 9, 1]),
        Op::Ext(vec![]),
        Op::Drain(0),
        Op::Drain(1),
        Op::Drain(2),
        Op::Drain(100),
        Op::Clear,
    ];
    let small = arg("--small").is_some();
    let depth = if small { 2 } else if thorough { 5 } else { 4 };
    for cap in [-1i64, 0, 1, 2, 3, 5] {
        if small && matches!(cap, 0 | 1 | 5) {
            continue;
        }
        let d = if cap == 0 { depth.min(3) } else { depth };
        for code in 0..alphabet.len().pow(d) {
            if small && code % 5 != 0 {
                continue; // panics are slow where it is interpreted
            }
            let mut c = code;
            let mut ops = vec![];
            for _ in 0..d {
                ops.push(alphabet[c % alphabet.len()].clone());
                c /= alphabet.len();
            }
            record(cap, &ops, true, &mut r);
            runs += 1;
            if cap == 5 && code % 4 == 0 {
                record_provided(cap, &ops, true, &mut r);
                runs += 1;
            }
        }
    }
    // long random ones
    for _ in 0..if small { 6 } else if thorough { 3000 } else { 400 } {
        let cap: i64 = match r.below(4) {
            0 => -1,
            1 => r.range(1, 16) as i64,
            2 => r.range(16, 200) as i64,
            _ => *r.pick(&[255, 256, 257, 64, 1024]),
        };
        let cap = if small { r.range(4, 20) as i64 } else { cap };
        let scale = if cap < 0 { 60 } else { (cap as usize).max(2) };
        let ops: Vec<Op> = (0..if small { 12 } else { r.range(10, 60) })
            .map(|_| match r.below(10) {
                0 => Op::Clear,
                1..=5 => {
                    let n = r.below(scale + 2);
                    Op::Ext((0..n).map(|_| r.byte()).collect())
                },
                6 => Op::Drain(*r.pick(&[usize::MAX, usize::MAX / 2 + 1, scale, scale + 1])),
                _ => Op::Drain(r.below(scale)),
            })
            .collect();
        record(cap, &ops, false, &mut r);
        runs += 1;
        if cap > 0 {
            record_provided(cap, &ops, false, &mut r);
            runs += 1;
        }
    }
    // more bytes than 16 bits can count
    for cap in if small { [].iter() } else { [66_000i64, -1].iter() } {
        let cap = *cap;
        let mut bytes = |n: usize| Op::Ext((0..n).map(|_| r.byte()).collect());
        let ops = [bytes(65_530), bytes(400), bytes(100), Op::Drain(65_600), bytes(65_600), Op::Drain(300), Op::Clear, bytes(3)];
        record(cap, &ops, false, &mut r);
        runs += 1;
    }
    close_out();
    println!("{{\"runs\":{}}}", runs);
}

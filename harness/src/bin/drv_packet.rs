//! Feeds frames to the parser and records everything observable about what it
//! delivers.
//!   --kind records  one full record per frame of --frames (and random ones)
//!   --kind sweep    one byte of a base payload through all values (--sweeps)
//!   --kind printed  Debug and Display texts
//!   --kind bulk     many payloads; records only what panicked
use std::fmt::Write as _;
use ublox::*;
use vharness::obs::Obs;
use vharness::*;

struct Text(String);
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() < 1 << 22 {
            self.0.push_str(s);
        }
        Ok(())
    }
}

fn describe(p: &PacketRef<'_>, d: &str, pb: &[u8], c: u8, i: u8, pl: &[u8]) -> (String, Vec<String>) {
    let mut o = Obs::default();
    gen_obs::observe(p, &mut o);
    let dbg = guarded(|| {
        if cfg!(miri) {
            return; // slow there
        }
        let mut t = Text(String::new());
        let _ = write!(t, "{:?}", p);
        let _ = write!(t, "{:#?}", p);
        let _ = gen_obs::debug_parts(p);
    });
    let js = guarded(|| ser::record(p));
    let jt = guarded(|| serde_json::to_string(p));
    let cm = guarded(|| p.class_and_msg_id());
    let mut panics = std::mem::take(&mut o.panics);
    if let Err(e) = &dbg {
        panics.push(format!("Debug: {}", e));
    }
    let js = match js {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => {
            panics.push(format!("Serialize fails: {}", e));
            "[\"x\"]".to_string()
        },
        Err(e) => {
            panics.push(format!("Serialize: {}", e));
            "[\"x\"]".to_string()
        },
    };
    let jt = match jt {
        Ok(Ok(_)) if cfg!(miri) => 1, // slow there
        Ok(Ok(s)) => match serde_json::from_str::<serde_json::Value>(&s) {
            Ok(serde_json::Value::Object(_)) => 1,
            _ => 2,
        },
        _ => {
            panics.push("serde_json".into());
            0
        },
    };
    let (a, b) = cm.unwrap_or((0, 0));
    let mut s = String::new();
    let _ = write!(s, "{{\"c\":{},\"i\":{},\"pl\":", c, i);
    jbytes(&mut s, pl);
    let _ = write!(s, ",\"d\":\"{}\",\"cm\":[{},{}],\"pb\":", d, a, b);
    jbytes(&mut s, pb);
    let _ = write!(
        s,
        ",\"a\":[{}],\"dbg\":{},\"js\":{},\"jt\":{}}}",
        o.out,
        dbg.is_ok() as u8,
        js,
        jt
    );
    for p in &mut panics {
        *p = format!("{} {}", d, p);
    }
    (s, panics)
}

fn nothing(d: &str, c: u8, i: u8, pl: &[u8]) -> String {
    let mut s = String::new();
    let _ = write!(s, "{{\"c\":{},\"i\":{},\"pl\":", c, i);
    jbytes(&mut s, pl);
    let _ = write!(
        s,
        ",\"d\":\"{}\",\"cm\":[0,0],\"pb\":[],\"a\":[],\"dbg\":1,\"js\":[\"n\"],\"jt\":1}}",
        d
    );
    s
}

fn record(c: u8, i: u8, pl: &[u8]) -> (String, Vec<String>) {
    set_current(nothing("hang", c, i, pl));
    let f = frame(c, i, pl);
    let r = guarded(|| {
        let mut parser = Parser::default();
        let mut it = parser.consume(&f);
        let r = match it.next() {
            Some(Ok(p)) => {
                let (d, pb) = name_and_payload(&p);
                Some(describe(&p, d, pb, c, i, pl))
            },
            _ => None,
        };
        r
    });
    match r {
        Ok(Some(r)) => r,
        Ok(None) => (nothing("", c, i, pl), vec![]),
        Err(e) => (nothing("panic", c, i, pl), vec![format!("next {}", e)]),
    }
}

/// the printed forms of what is delivered for a frame
fn printed(c: u8, i: u8, pl: &[u8]) -> String {
    fn head(d: &str, c: u8, i: u8, pl: &[u8]) -> String {
        let mut s = String::new();
        let _ = write!(s, "{{\"c\":{},\"i\":{},\"d\":\"{}\",\"pl\":", c, i, d);
        jbytes(&mut s, pl);
        s
    }
    fn list(s: &mut String, v: &[String]) {
        s.push('[');
        for (k, x) in v.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            jstr(s, x);
        }
        s.push(']');
    }
    set_current(head("hang", c, i, pl) + ",\"dt\":\"\",\"ft\":[],\"bl\":[]}");
    let f = frame(c, i, pl);
    guarded(|| {
        let mut parser = Parser::default();
        let mut it = parser.consume(&f);
        let r = match it.next() {
            Some(Ok(p)) => {
                let (d, _) = name_and_payload(&p);
                let mut s = head(d, c, i, pl);
                s.push_str(",\"dt\":");
                jstr(&mut s, &format!("{:?}", p));
                s.push_str(",\"ft\":");
                list(&mut s, &gen_obs::debug_texts(&p));
                s.push_str(",\"bl\":[");
                let (u, blocks) = gen_obs::debug_blocks(&p);
                let (at, w) = match u {
                    "NavSatIter" => (8, 12),
                    "RxmRawxInfoIter" => (16, 32),
                    "EsfMeasDataIter" => (8, 4),
                    _ => (4, 8),
                };
                let n = blocks.len();
                let mut first = true;
                for (k, (text, own)) in blocks.iter().enumerate() {
                    if (k < 3 || k + 1 == n) && at + (k + 1) * w <= pl.len() {
                        let _ = write!(s, "{}[\"{}\",", if first { "" } else { "," }, u);
                        first = false;
                        jbytes(&mut s, &pl[at + k * w..at + (k + 1) * w]);
                        s.push(',');
                        jstr(&mut s, text);
                        s.push(',');
                        list(&mut s, own);
                        s.push(']');
                    }
                }
                s.push_str("]}");
                s
            },
            _ => head("", c, i, pl) + ",\"dt\":\"\",\"ft\":[],\"bl\":[]}",
        };
        r
    })
    .unwrap_or_else(|_| head("panic", c, i, pl) + ",\"dt\":\"\",\"ft\":[],\"bl\":[]}")
}

struct Inner(u32);
impl std::fmt::Display for Inner {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "inner-{}", self.0)
    }
}

/// Display of errors
fn errors(rng: &mut Rng, count: usize) {
    let names = ["NavPvt", "RxmSfrbx", "MonVer", "CfgPrtUart", "Z"];
    let put = |e: &str, v: &[usize], n: &[String], t: String| {
        let mut s = format!("{{\"e\":\"{}\",\"v\":[", e);
        for (k, x) in v.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            jbytes(&mut s, &x.to_le_bytes());
        }
        s.push_str("],\"n\":[");
        for (k, x) in n.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            jstr(&mut s, x);
        }
        s.push_str("],\"t\":");
        jstr(&mut s, &t);
        s.push('}');
        emit(&s);
    };
    for _ in 0..count {
        let mut pick = |top: usize| match rng.below(4) {
            0 => rng.below(16),
            1 => top - rng.below(3),
            2 => 1 << rng.below(16),
            _ => rng.below(top + 1),
        };
        let (a, b) = (pick(0xffff) & 0xffff, pick(0xffff) & 0xffff);
        let (x, y) = (pick(70000), pick(8184));
        let (p, q) = (names[a % 5], names[b % 5]);
        put("InvalidChecksum", &[a, b], &[], ParserError::InvalidChecksum { expect: a as u16, got: b as u16 }.to_string());
        put("OutOfMemory", &[x], &[], ParserError::OutOfMemory { required_size: x }.to_string());
        put("InvalidPacketLen", &[x, y], &[p.into()], ParserError::InvalidPacketLen { packet: p, expect: x, got: y }.to_string());
        put("InvalidField", &[], &[p.into(), q.into()], ParserError::InvalidField { packet: p, field: q }.to_string());
        put("Custom", &[], &[Inner(a as u32).to_string()], MemWriterError::Custom(Inner(a as u32)).to_string());
    }
    put("NotEnoughMem", &[], &[], MemWriterError::<Inner>::NotEnoughMem.to_string());
    put("InvalidDate", &[], &[], DateTimeError::InvalidDate.to_string());
    put("InvalidTime", &[], &[], DateTimeError::InvalidTime.to_string());
    put("InvalidNanoseconds", &[], &[], DateTimeError::InvalidNanoseconds.to_string());
}

fn delivered(c: u8, i: u8, pl: &[u8]) -> String {
    let f = frame(c, i, pl);
    guarded(|| {
        let mut parser = Parser::default();
        let mut it = parser.consume(&f);
        let r = match it.next() {
            Some(Ok(p)) => name_and_payload(&p).0.to_string(),
            _ => String::new(),
        };
        r
    })
    .unwrap_or_else(|_| "panic".into())
}

fn lines(path: &str) -> Vec<serde_json::Value> {
    std::fs::read_to_string(path)
        .expect("scenario file")
        .lines()
        .map(|l| serde_json::from_str(l).expect("scenario"))
        .collect()
}
fn byte_at(v: &serde_json::Value, k: usize) -> u8 {
    v[k].as_u64().unwrap() as u8
}
fn payload(v: &serde_json::Value) -> Vec<u8> {
    v[2].as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect()
}

fn mutate(rng: &mut Rng, pl: &mut Vec<u8>, keep_len: bool) {
    if pl.is_empty() {
        return;
    }
    match rng.below(5) {
        0 => {
            for b in pl.iter_mut() {
                *b = rng.byte();
            }
        },
        1 => {
            for _ in 0..rng.range(1, 6) {
                let k = rng.below(pl.len());
                pl[k] = rng.byte();
            }
        },
        2 => {
            let k = rng.below(pl.len());
            let n = rng.range(1, 8).min(pl.len() - k);
            let v = *rng.pick(&[0u8, 255, 127, 128, 1]);
            for b in &mut pl[k..k + n] {
                *b = v;
            }
        },
        3 => {
            let k = rng.below(pl.len());
            pl[k] ^= 1 << rng.below(8);
        },
        _ => {
            if !keep_len {
                let n = rng.below(pl.len() + 24);
                pl.resize(n, rng.byte());
            } else {
                for b in pl.iter_mut().rev().take(12) {
                    *b = rng.byte();
                }
            }
        },
    }
}

fn main() {
    let out = arg("--out").unwrap();
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let kind = arg("--kind").unwrap();
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let only: Vec<(u8, u8)> = arg("--only")
        .map(|s| {
            s.split(',')
                .map(|p| {
                    let (a, b) = p.split_once(':').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect()
        })
        .unwrap_or_default();
    let wanted = |c: u8, i: u8| only.is_empty() || only.contains(&(c, i));
    open_out(&out);
    start_watchdog();
    let mut rng = Rng::new(seed);
    let mut n = 0;
    match kind.as_str() {
        "records" => {
            let frames = lines(&arg("--frames").unwrap());
            let extra: usize = arg("--random").map_or(0, |s| s.parse().unwrap());
            let mut pool = vec![];
            for f in &frames {
                let (c, i, pl) = (byte_at(f, 0), byte_at(f, 1), payload(f));
                if !wanted(c, i) {
                    continue;
                }
                emit(&record(c, i, &pl).0);
                n += 1;
                pool.push((c, i, pl));
            }
            for _ in 0..extra {
                let (c, i, mut pl) = rng.pick(&pool).clone();
                if pl.len() > 1300 {
                    continue;
                }
                mutate(&mut rng, &mut pl, true);
                if rng.chance(1, 3) {
                    mutate(&mut rng, &mut pl, false);
                }
                emit(&record(c, i, &pl).0);
                n += 1;
            }
            if arg("--pairs").is_some() {
                // every class and id
                for c in 0..=255u8 {
                    for i in 0..=255u8 {
                        if (u32::from(c) * 256 + u32::from(i)) % (if thorough { 1 } else { 7 }) == 0 {
                            emit(&record(c, i, &[1, 2, 3, 4]).0);
                            n += 1;
                        }
                    }
                }
            }
        },
        "printed" => {
            errors(&mut rng, if thorough { 3000 } else { 300 });
            let extra: usize = arg("--random").map_or(0, |s| s.parse().unwrap());
            let frames = lines(&arg("--frames").unwrap());
            let mut pool = vec![];
            for f in &frames {
                let (c, i, pl) = (byte_at(f, 0), byte_at(f, 1), payload(f));
                if pl.len() > 400 {
                    continue;
                }
                emit(&printed(c, i, &pl));
                n += 1;
                pool.push((c, i, pl));
            }
            for _ in 0..extra {
                let (c, i, mut pl) = rng.pick(&pool).clone();
                mutate(&mut rng, &mut pl, true);
                emit(&printed(c, i, &pl));
                n += 1;
            }
        },
        "sweep" => {
            for s in lines(&arg("--sweeps").unwrap()) {
                let (c, i, mut pl, p) = (byte_at(&s, 0), byte_at(&s, 1), payload(&s), s[3].as_u64().unwrap() as usize);
                let base = pl.clone();
                set_current(nothing("hang", c, i, &pl));
                let mut runs: Vec<(usize, String)> = vec![];
                let lengths = p == pl.len();
                for v in 0..if lengths { p + 1 } else { 256 } {
                    if lengths {
                        pl = base[..v].to_vec();
                    } else {
                        pl[p] = v as u8;
                    }
                    let d = delivered(c, i, &pl);
                    match runs.last_mut() {
                        Some((k, x)) if *x == d => *k += 1,
                        _ => runs.push((1, d)),
                    }
                }
                let mut r = String::new();
                let _ = write!(r, "{{\"c\":{},\"i\":{},\"p\":{},\"pl\":", c, i, p);
                jbytes(&mut r, &base);
                r.push_str(",\"runs\":[");
                for (k, (m, d)) in runs.iter().enumerate() {
                    let _ = write!(r, "{}[{},\"{}\"]", if k > 0 { "," } else { "" }, m, d);
                }
                r.push_str("]}");
                emit(&r);
                n += 1;
            }
        },
        "bulk" => {
            let frames = lines(&arg("--frames").unwrap());
            let per: usize = arg("--per").map_or(4, |s| s.parse().unwrap());
            for f in &frames {
                let (c, i, pl) = (byte_at(f, 0), byte_at(f, 1), payload(f));
                if !wanted(c, i) {
                    continue;
                }
                let mut panics = vec![];
                let mut first = vec![];
                let mut count = 0;
                let mut run = |pl: &[u8], panics: &mut Vec<String>, first: &mut Vec<u8>| {
                    let (_, ps) = record(c, i, pl);
                    if !ps.is_empty() && panics.is_empty() {
                        *first = pl.to_vec();
                        *panics = ps;
                    }
                };
                if thorough && !pl.is_empty() && pl.len() < 120 {
                    for p in 0..pl.len() {
                        let mut q = pl.clone();
                        for _ in 0..3 {
                            q[p] = rng.byte();
                            run(&q, &mut panics, &mut first);
                            count += 1;
                        }
                    }
                }
                for _ in 0..per {
                    let mut q = pl.clone();
                    let keep = rng.chance(3, 4);
                    mutate(&mut rng, &mut q, keep);
                    run(&q, &mut panics, &mut first);
                    count += 1;
                }
                let mut r = String::new();
                let _ = write!(r, "{{\"bulk\":{},\"c\":{},\"i\":{},\"first\":", count, c, i);
                jbytes(&mut r, &first);
                r.push_str(",\"panics\":[");
                for (k, p) in panics.iter().take(5).enumerate() {
                    if k > 0 {
                        r.push(',');
                    }
                    jstr(&mut r, p);
                }
                r.push_str("]}");
                emit(&r);
                n += count;
            }
        },
        k => panic!("kind {}", k),
    }
    set_current(String::new());
    close_out();
    println!("{} {}", n, kind);
}

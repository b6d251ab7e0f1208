//! The same operations in a build with any set of features.  Each line is
//!   [operation, what it was given] TAB what it gave
//! and the lines of all builds are put side by side and judged by
//! spec/TraceFeatures.tla.
use std::fmt::Write as _;
use ublox::cfg_val::CfgVal;
use ublox::*;
use vharness::build::*;
use vharness::obs::{Obs, NO_WORDS};
use vharness::*;

fn line(op: &str, given: &str, f: impl FnOnce() -> String) {
    set_current(format!("[\"{}\",{}]\t{{\"panic\":\"hang\"}}", op, given));
    let out = guarded(f).unwrap_or_else(|e| {
        let mut t = String::from("{\"panic\":");
        jstr(&mut t, &e);
        t.push('}');
        t
    });
    emit(&format!("[\"{}\",{}]\t{}", op, given, out));
}

fn events<T: UnderlyingBuffer>(mut p: Parser<T>, stream: &[u8], chunks: &[usize]) -> String {
    let mut s = String::from("{\"ev\":[");
    let mut at = 0;
    let mut results = 0;
    for (k, n) in chunks.iter().enumerate() {
        let _ = write!(s, "{}[\"c\",{}]", if k > 0 { "," } else { "" }, n);
        let mut it = p.consume(&stream[at..at + n]);
        at += n;
        loop {
            tick();
            results += 1;
            if results > stream.len() + 50 {
                panic!("more results than bytes");
            }
            match it.next() {
                None => {
                    s.push_str(",[\"n\"]");
                    break;
                },
                Some(Ok(p)) => {
                    let (c, i) = p.class_and_msg_id();
                    let _ = write!(s, ",[\"p\",{},{},", c, i);
                    jbytes(&mut s, name_and_payload(&p).1);
                    s.push(']');
                },
                Some(Err(ParserError::InvalidChecksum { expect, got })) => {
                    let _ = write!(s, ",[\"k\",{},{}]", expect, got);
                },
                Some(Err(ParserError::OutOfMemory { required_size })) => {
                    let _ = write!(s, ",[\"m\",{}]", required_size);
                },
                Some(Err(e)) => {
                    s.push_str(",[\"o\",");
                    jstr(&mut s, &format!("{:?}", e));
                    s.push(']');
                },
            }
        }
        drop(it);
        let _ = write!(s, ",[\"d\",{},{}]", p.buffer_len(), p.is_buffer_empty() as u8);
    }
    s.push_str("]}");
    s
}

fn streams(rng: &mut Rng, path: &str, frames: &[serde_json::Value], count: usize) {
    let mut list: Vec<Vec<u8>> = vec![];
    let all: Vec<Vec<u8>> = std::fs::read_to_string(path)
        .expect("streams")
        .lines()
        .filter(|l| l.contains('['))
        .map(|l| {
            l.split(|c: char| !c.is_ascii_digit())
                .filter(|x| !x.is_empty())
                .map(|x| x.parse::<u16>().unwrap() as u8)
                .collect()
        })
        .collect();
    for _ in 0..count {
        list.push(rng.pick(&all).clone());
        // frames of known packets with noise between them, some damaged
        let mut v: Vec<u8> = vec![];
        for _ in 0..rng.range(1, 5) {
            let f = rng.pick(frames);
            let pl = bytes_of(&f[2]);
            if pl.len() > 300 {
                continue;
            }
            for _ in 0..rng.below(4) {
                v.push(*rng.pick(&[0xb5, 0x62, 1, 0xff]));
            }
            let mut g = frame(code(f, 0) as u8, code(f, 1) as u8, &pl);
            if rng.chance(1, 4) {
                let k = rng.below(g.len());
                g[k] ^= 1 << rng.below(8);
            }
            v.extend(g);
        }
        list.push(v);
    }
    for s in &list {
        let mut chunks = vec![];
        let mut left = s.len();
        while left > 0 {
            let n = if rng.chance(1, 3) { left } else { rng.below(left.min(40) + 1) };
            chunks.push(n);
            left -= n;
        }
        let cap = *rng.pick(&[8usize, 12, 20, 40, 100, 1240]);
        let mut given = String::from("{\"s\":");
        jbytes(&mut given, s);
        let _ = write!(given, ",\"chunks\":{:?}", chunks);
        let bounded = format!("{},\"cap\":{}}}", given, cap);
        given.push_str(",\"cap\":-1}");
        line("flb", &bounded, || {
            let mut store = vec![0xCCu8; cap];
            events(Parser::new(FixedLinearBuffer::new(&mut store)), s, &chunks)
        });
        line("own", &bounded, || events(Parser::new(OffsetBuf::new(cap)), s, &chunks));
        #[cfg(any(feature = "std", feature = "alloc"))]
        line("vec", &given, || events(Parser::<Vec<u8>>::default(), s, &chunks));
    }
}

fn delivered<R>(f: &[u8], with: impl FnOnce(Option<&PacketRef<'_>>) -> R) -> R {
    let mut store = vec![0u8; f.len() + 8];
    let mut parser = Parser::new(FixedLinearBuffer::new(&mut store));
    let mut it = parser.consume(f);
    match it.next() {
        Some(Ok(p)) => with(Some(&p)),
        _ => with(None),
    }
}

fn packet(c: u8, i: u8, pl: &[u8]) {
    let f = frame(c, i, pl);
    let mut given = format!("{{\"c\":{},\"i\":{},\"pl\":", c, i);
    jbytes(&mut given, pl);
    given.push('}');
    line("packet", &given, || {
        delivered(&f, |p| {
            let Some(p) = p else { return "{\"d\":\"\",\"cm\":[0,0],\"pb\":[],\"a\":[],\"dbg\":\"\"}".into() };
            let (d, pb) = name_and_payload(p);
            let mut o = Obs::default();
            gen_obs::observe(p, &mut o);
            let (a, b) = p.class_and_msg_id();
            let mut s = format!("{{\"d\":\"{}\",\"cm\":[{},{}],\"pb\":", d, a, b);
            jbytes(&mut s, pb);
            let _ = write!(s, ",\"a\":[{}],\"dbg\":", o.out);
            jstr(&mut s, &format!("{:?}", p));
            s.push('}');
            s
        })
    });
    #[cfg(feature = "serde")]
    line("serialize", &given, || {
        delivered(&f, |p| {
            let Some(p) = p else { return "{\"js\":[\"n\"],\"jt\":\"\"}".into() };
            let js = ser::record(p).unwrap_or_else(|_| "[\"x\"]".into());
            let mut s = format!("{{\"js\":{},\"jt\":", js);
            jstr(&mut s, &serde_json::to_string(p).unwrap_or_else(|_| "fails".into()));
            s.push('}');
            s
        })
    });
}

fn built(name: &str, ins: &serde_json::Value) {
    let list = ins.as_array().expect("inputs");
    let given = format!("{{\"b\":\"{}\",\"in\":{}}}", name, ins);
    let run = |into_vec: bool| {
        let mut o = Built { into_vec, ..Built::default() };
        assert!(gen_build::build(name, list, &mut o), "no builder {}", name);
        format!("{{{}}}", &o.out[1..])
    };
    line("build", &given, || run(false));
    #[cfg(feature = "std")]
    line("vecsink", &given, || run(true));
}

struct Own(Vec<u8>);
impl Extend<u8> for Own {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, it: I) {
        self.0.extend(it);
    }
}
impl std::ops::Deref for Own {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::DerefMut for Own {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
fn set(v: &serde_json::Value) {
    let h: Vec<u8> = v[0].as_array().unwrap().iter().flat_map(bytes_of).collect();
    let pre = bytes_of(&v[1]);
    let vals: Vec<CfgVal> = v[2].as_array().unwrap().iter().map(config::parse).collect();
    let mk = || CfgValSetBuilder {
        version: h[0],
        layers: CfgLayer::from_bits_retain(h[1]),
        reserved1: u16::from_le_bytes([h[2], h[3]]),
        cfg_data: &vals,
    };
    let given = format!("{{\"h\":{},\"pre\":{},\"items\":{}}}", v[0], v[1], v[2]);
    let frame = |b: &[u8]| {
        let mut s = String::from("{\"f\":");
        jbytes(&mut s, b);
        s.push('}');
        s
    };
    line("extend", &given, || {
        let mut o = Own(pre.clone());
        mk().extend_to(&mut o);
        frame(&o.0)
    });
    #[cfg(feature = "alloc")]
    line("intovec", &given, || frame(&mk().into_packet_vec()));
}

fn errors() {
    let list = [
        ParserError::InvalidChecksum { expect: 4660, got: 65535 },
        ParserError::InvalidField { packet: "NavPvt", field: "fix_type" },
        ParserError::InvalidPacketLen { packet: "NavPvt", expect: 92, got: 0 },
        ParserError::OutOfMemory { required_size: 70000 },
    ];
    for (k, e) in list.iter().enumerate() {
        line("error", &format!("[\"parser\",{}]", k), || {
            let mut s = String::from("{\"t\":");
            jstr(&mut s, &format!("{} / {:?}", e, e));
            s.push('}');
            s
        });
    }
    for (k, e) in [MemWriterError::NotEnoughMem, MemWriterError::Custom(5)].iter().enumerate() {
        line("error", &format!("[\"writer\",{}]", k), || {
            let mut s = String::from("{\"t\":");
            jstr(&mut s, &format!("{} / {:?}", e, e));
            s.push('}');
            s
        });
    }
    for (k, e) in [DateTimeError::InvalidDate, DateTimeError::InvalidTime, DateTimeError::InvalidNanoseconds].iter().enumerate() {
        line("error", &format!("[\"time\",{}]", k), || {
            let mut s = String::from("{\"t\":");
            jstr(&mut s, &format!("{} / {:?}", e, e));
            s.push('}');
            s
        });
    }
    #[cfg(feature = "std")]
    line("stderror", "[\"parser\",3]", || {
        let e: Box<dyn std::error::Error> = Box::new(ParserError::OutOfMemory { required_size: 70000 });
        let f: Box<dyn std::error::Error> = Box::new(MemWriterError::Custom(std::io::Error::from_raw_os_error(2)));
        let g: Box<dyn std::error::Error> = Box::new(DateTimeError::InvalidDate);
        let mut s = String::from("{\"t\":");
        jstr(&mut s, &format!("{} {}", e, g));
        let _ = write!(s, ",\"none\":{}}}", (e.source().is_none() && g.source().is_none() && !f.to_string().is_empty()) as u8);
        s
    });
}

fn lines(path: &str) -> Vec<serde_json::Value> {
    std::fs::read_to_string(path)
        .expect("scenario file")
        .lines()
        .map(|l| serde_json::from_str(l).expect("scenario"))
        .collect()
}

fn main() {
    NO_WORDS.store(true, std::sync::atomic::Ordering::Relaxed);
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let times: usize = if arg("--tier").as_deref() == Some("thorough") { 8 } else { 1 };
    open_out(&arg("--out").unwrap());
    start_watchdog();
    let mut rng = Rng::new(seed);
    let frames = lines(&arg("--frames").unwrap());
    streams(&mut rng, &arg("--streams").unwrap(), &frames, 150 * times);
    for (k, f) in frames.iter().enumerate() {
        let pl = bytes_of(&f[2]);
        if pl.len() < 700 && (times > 1 || (k as u64 + seed) % 3 == 0) {
            packet(code(f, 0) as u8, code(f, 1) as u8, &pl);
        }
    }
    for _ in 0..300 * times {
        let f = rng.pick(&frames);
        let mut pl = bytes_of(&f[2]);
        if pl.len() > 300 || pl.is_empty() {
            continue;
        }
        for _ in 0..rng.range(1, 8) {
            let k = rng.below(pl.len());
            pl[k] = rng.byte();
        }
        packet(code(f, 0) as u8, code(f, 1) as u8, &pl);
    }
    for (k, v) in lines(&arg("--builds").unwrap()).iter().enumerate() {
        if times > 1 || (k as u64 + seed) % 4 == 0 {
            built(v[0].as_str().unwrap(), &v[1]);
        }
    }
    for (k, v) in lines(&arg("--sets").unwrap()).iter().enumerate() {
        if times > 1 || (k as u64 + seed) % 2 == 0 {
            set(v);
        }
    }
    for (name, f) in gen_build::defaults() {
        line("default", &format!("[\"{}\"]", name), || {
            let mut s = String::from("{\"f\":");
            jbytes(&mut s, &f);
            s.push('}');
            s
        });
    }
    for (name, c, i, q, one, all) in gen_build::requests() {
        line("request", &format!("[\"{}\"]", name), || {
            let mut s = format!("{{\"ci\":[{},{}],\"rq\":", c, i);
            jbytes(&mut s, &q);
            s.push_str(",\"one\":");
            jbytes(&mut s, &one);
            s.push_str(",\"all\":");
            jbytes(&mut s, &all);
            s.push('}');
            s
        });
    }
    errors();
    set_current(String::new());
    close_out();
    println!("features");
}

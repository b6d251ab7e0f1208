//! Feeds frames to the parser and records the positions, velocities and times
//! derived from what it delivers.
use chrono::{DateTime, Datelike, Timelike, Utc};
use std::convert::TryFrom;
use std::fmt::Write as _;
use ublox::*;
use vharness::*;

fn quantity(s: &mut String, first: bool, name: &str, value: f64, per_unit: f64) {
    if !first {
        s.push(',');
    }
    let q = value * per_unit;
    let k = q.round();
    let _ = write!(s, "[\"{}\",", name);
    if k.is_finite() && k.abs() < 9e18 {
        jbytes(s, &(k as i64).to_le_bytes());
        let _ = write!(s, ",{}]", ((q - k).abs() * 1e6) as i64);
    } else {
        s.push_str("[],1000000]");
    }
}
fn position(p: &Position, fine: f64, alt: f64) -> String {
    let mut s = String::from("[\"Position\",[");
    quantity(&mut s, true, "lon", p.lon, fine);
    quantity(&mut s, false, "lat", p.lat, fine);
    quantity(&mut s, false, "alt", p.alt, alt);
    s + "]]"
}
fn velocity(v: &Velocity, speed: f64) -> String {
    let mut s = String::from("[\"Velocity\",[");
    quantity(&mut s, true, "speed", v.speed, speed);
    quantity(&mut s, false, "heading", v.heading, 1e5);
    s + "]]"
}
fn ecef(p: &PositionECEF) -> String {
    let mut s = String::from("[\"PositionECEF\",[");
    quantity(&mut s, true, "x", p.x, 1e4);
    quantity(&mut s, false, "y", p.y, 1e4);
    quantity(&mut s, false, "z", p.z, 1e4);
    s + "]]"
}
fn time(p: &NavPvtRef<'_>) -> String {
    match guarded(|| DateTime::<Utc>::try_from(p)) {
        Err(_) => "\"panic\"".into(),
        Ok(Err(DateTimeError::InvalidDate)) => "\"InvalidDate\"".into(),
        Ok(Err(DateTimeError::InvalidTime)) => "\"InvalidTime\"".into(),
        Ok(Err(DateTimeError::InvalidNanoseconds)) => "\"InvalidNanoseconds\"".into(),
        Ok(Ok(t)) => format!(
            "{},{},{},{},{},{},{}",
            t.year(),
            t.month(),
            t.day(),
            t.hour(),
            t.minute(),
            t.second(),
            t.nanosecond()
        ),
    }
}

fn record(p: &mut Parser<Vec<u8>>, c: u8, i: u8, pl: &[u8]) {
    let f = frame(c, i, pl);
    let mut it = p.consume(&f);
    let (mut d, mut v, mut t) = ("", vec![], String::new());
    if let Some(Ok(q)) = it.next() {
        d = name_and_payload(&q).0;
        let r = guarded(|| match &q {
            PacketRef::NavPosLlh(x) => vec![position(&x.into(), 1e7, 1e3)],
            PacketRef::NavHpPosLlh(x) => vec![position(&x.into(), 1e9, 1e4)],
            PacketRef::NavHpPosEcef(x) => vec![ecef(&x.into())],
            PacketRef::NavVelNed(x) => vec![velocity(&x.into(), 1e2)],
            PacketRef::NavPvt(x) => vec![position(&x.into(), 1e7, 1e3), velocity(&x.into(), 1e3)],
            _ => vec![],
        });
        v = r.unwrap_or_else(|_| vec!["[\"panic\",[]]".into()]);
        if let PacketRef::NavPvt(x) = &q {
            t = time(x);
        }
    }
    while it.next().is_some() {}
    let mut s = String::new();
    let _ = write!(s, "{{\"c\":{},\"i\":{},\"pl\":", c, i);
    jbytes(&mut s, pl);
    let _ = write!(s, ",\"d\":\"{}\",\"v\":[{}],\"t\":[{}]}}", d, v.join(","), t);
    emit(&s);
}

fn main() {
    let out = arg("--out").unwrap();
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let extra: usize = arg("--random").map_or(0, |s| s.parse().unwrap());
    let text = std::fs::read_to_string(arg("--frames").unwrap()).expect("frames");
    open_out(&out);
    start_watchdog();
    let mut rng = Rng::new(seed);
    let mut n = 0;
    let mut parser = Parser::new(Vec::new());
    let mut pool = vec![];
    for l in text.lines() {
        let v: serde_json::Value = serde_json::from_str(l).expect("frame");
        let pl: Vec<u8> = v[2].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let (c, i) = (v[0].as_u64().unwrap() as u8, v[1].as_u64().unwrap() as u8);
        record(&mut parser, c, i, &pl);
        pool.push((c, i, pl));
        n += 1;
    }
    for _ in 0..extra {
        let (c, i, mut pl) = rng.pick(&pool).clone();
        if (c, i) == (1, 7) && rng.chance(2, 3) {
            // a time that is mostly valid
            let y = if rng.chance(1, 2) { 1990 + rng.below(60) } else { rng.below(65536) };
            pl[4..6].copy_from_slice(&(y as u16).to_le_bytes());
            pl[6] = rng.range(1, 12) as u8;
            pl[7] = rng.range(26, 31) as u8;
            if rng.chance(1, 2) {
                pl[7] = rng.range(1, 2) as u8;
            }
            for (o, m) in [(8, 23), (9, 59), (10, 59)] {
                pl[o] = match rng.below(3) {
                    0 => 0,
                    1 => m as u8,
                    _ => rng.below(m + 1) as u8,
                };
            }
            let ns = (rng.next() % 2_000_000_001) as i64 - 1_000_000_000;
            pl[16..20].copy_from_slice(&(ns as i32).to_le_bytes());
        } else {
            for _ in 0..rng.range(1, 12) {
                let at = rng.below(pl.len());
                pl[at] = rng.byte();
            }
        }
        record(&mut parser, c, i, &pl);
        n += 1;
    }
    close_out();
    println!("{} frames", n);
}

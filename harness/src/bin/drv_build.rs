//! Runs builders on scenarios and records every route, the frames parsed back
//! and rebuilt, default builders, requests, rates and acknowledgements.
//!   --kind build --scenarios F [--random N] [--failures K]
//!   --kind requests
//!   --kind aid --scenarios F    positions and times set on an AID-INI builder
use std::collections::BTreeMap;
use std::fmt::Write as _;
use ublox::*;
use vharness::build::*;
use vharness::obs::Obs;
use vharness::*;

fn back(frame: &[u8]) -> String {
    let r = guarded(|| {
        let mut s = String::new();
        let mut parser = Parser::default();
        let mut it = parser.consume(frame);
        match it.next() {
            Some(Ok(p)) => {
                let (d, pb) = name_and_payload(&p);
                let mut o = Obs::default();
                gen_obs::observe(&p, &mut o);
                let re = guarded(|| gen_build::rebuild(&p)).unwrap_or_else(|_| vec![0]);
                let _ = write!(s, "{{\"d\":\"{}\",\"pb\":", d);
                jbytes(&mut s, pb);
                let _ = write!(s, ",\"a\":[{}],\"re\":", o.out);
                jbytes(&mut s, &re);
                s.push('}');
            },
            _ => s.push_str("{\"d\":\"\",\"pb\":[],\"a\":[],\"re\":[]}"),
        }
        s
    });
    r.unwrap_or_else(|_| "{\"d\":\"panic\",\"pb\":[],\"a\":[],\"re\":[]}".into())
}

fn one(name: &str, ins: &serde_json::Value, failures: bool) {
    let list = ins.as_array().expect("inputs");
    let head = format!("{{\"b\":\"{}\",\"in\":{}", name, ins);
    set_current(format!("{},\"hang\":1}}", head));
    let r = guarded(|| {
        let mut o = Built {
            with_failures: failures,
            into_vec: true,
            ..Built::default()
        };
        assert!(gen_build::build(name, list, &mut o), "no builder {}", name);
        o
    });
    match r {
        Ok(o) => emit(&format!("{}{},\"back\":{}}}", head, o.out, back(&o.frame))),
        Err(e) => {
            let mut t = String::new();
            jstr(&mut t, &e);
            emit(&format!("{},\"panic\":{}}}", head, t))
        },
    }
}

/// `<<"k", k, f, exact>>` in units of 10^-`digits`: the double nearest to it.
fn coordinate(v: &serde_json::Value, digits: i32) -> f64 {
    match v[0].as_str().unwrap() {
        "max" => 1e12,
        "min" => -1e12,
        _ => {
            let n = v[1].as_i64().unwrap() * 1000 + v[2].as_i64().unwrap();
            format!("{}e-{}", n, digits + 3).parse().unwrap()
        },
    }
}
fn aid_step(b: AidIniBuilder, op: &serde_json::Value) -> AidIniBuilder {
    use chrono::TimeZone;
    let a = &op[1];
    if op[0] == "p" {
        b.set_position(Position {
            lat: coordinate(&a[0], 7),
            lon: coordinate(&a[1], 7),
            alt: coordinate(&a[2], 2),
        })
    } else {
        let n = |k: usize| a[k].as_u64().unwrap() as u32;
        let t = chrono::Utc
            .with_ymd_and_hms(n(0) as i32, n(1), n(2), n(3), n(4), n(5))
            .unwrap()
            + chrono::Duration::nanoseconds(i64::from(n(6)));
        b.set_time(t)
    }
}
fn aid(f0: &serde_json::Value, ops: &serde_json::Value) {
    let head = format!("{{\"f0\":{},\"ops\":{}", f0, ops);
    set_current(format!("{},\"hang\":1}}", head));
    let list = ops.as_array().unwrap();
    let r = guarded(|| {
        let mut s = String::new();
        for k in 0..=list.len() {
            let mut b = AidIniBuilder {
                ecef_x_or_lat: 0x11223344,
                ecef_y_or_lon: -0x11223344,
                ecef_z_or_alt: 0x51525354,
                pos_accuracy: 0x01020304,
                time_cfg: 0x0506,
                week_or_ym: 0x0708,
                tow_or_hms: 0x090a0b0c,
                tow_ns: -0x0d0e0f10,
                tm_accuracy_ms: 0x12131415,
                tm_accuracy_ns: 0x16171819,
                clk_drift_or_freq: 0x1a1b1c1d,
                clk_drift_or_freq_accuracy: 0x1e1f2021,
                flags: (0..4).map(|j| (f0[j].as_u64().unwrap() as u32) << (8 * j)).sum(),
            };
            for op in &list[..k] {
                b = aid_step(b, op);
            }
            if k > 0 {
                s.push(',');
            }
            jbytes(&mut s, &b.into_packet_bytes());
        }
        s
    });
    match r {
        Ok(s) => emit(&format!("{},\"steps\":[{}]}}", head, s)),
        Err(e) => {
            let mut t = String::new();
            jstr(&mut t, &e);
            emit(&format!("{},\"panic\":{}}}", head, t))
        },
    }
}

fn main() {
    let out = arg("--out").unwrap();
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let kind = arg("--kind").unwrap();
    open_out(&out);
    start_watchdog();
    let mut rng = Rng::new(seed);
    let mut n = 0;
    match kind.as_str() {
        "build" => {
            let extra: usize = arg("--random").map_or(0, |s| s.parse().unwrap());
            let failures: usize = arg("--failures").map_or(0, |s| s.parse().unwrap());
            let mut pool: BTreeMap<String, Vec<serde_json::Value>> = BTreeMap::new();
            let text = std::fs::read_to_string(arg("--scenarios").unwrap()).expect("scenarios");
            for l in text.lines() {
                let v: serde_json::Value = serde_json::from_str(l).expect("scenario");
                pool.entry(v[0].as_str().unwrap().into()).or_default().push(v[1].clone());
            }
            for (name, list) in &pool {
                for (k, ins) in list.iter().enumerate() {
                    one(name, ins, k < failures);
                    n += 1;
                }
                // mixed inputs: each field from a random scenario
                for _ in 0..extra {
                    let mut ins = list[0].clone();
                    for (k, slot) in ins.as_array_mut().unwrap().iter_mut().enumerate() {
                        *slot = rng.pick(list)[k].clone();
                    }
                    one(name, &ins, false);
                    n += 1;
                }
            }
            for (name, f) in gen_build::defaults() {
                let mut s = format!("{{\"dflt\":\"{}\",\"f\":", name);
                jbytes(&mut s, &f);
                s.push('}');
                emit(&s);
                n += 1;
            }
            // values with a default of their own
            let itfm = CfgItfmBuilder {
                config: CfgItfmConfig::default(),
                config2: CfgItfmConfig2::new(CfgItfmAntennaSettings::default(), false),
            };
            let layers = CfgValSetBuilder {
                version: 0,
                layers: CfgLayer::default(),
                reserved1: 0,
                cfg_data: &[],
            };
            for (name, f) in [
                ("CfgItfm", itfm.into_packet_bytes().to_vec()),
                ("CfgLayer", layers.into_packet_vec()),
            ] {
                let mut s = format!("{{\"word\":\"{}\",\"f\":", name);
                jbytes(&mut s, &f);
                s.push('}');
                emit(&s);
                n += 1;
            }
            for (name, m) in [
                ("HOT_START", NavBbrPredefinedMask::HOT_START),
                ("WARM_START", NavBbrPredefinedMask::WARM_START),
                ("COLD_START", NavBbrPredefinedMask::COLD_START),
            ] {
                let f = CfgRstBuilder {
                    nav_bbr_mask: m.into(),
                    reset_mode: ResetMode::ControlledGpsStart,
                    reserved1: 7,
                }
                .into_packet_bytes();
                let mut s = format!("{{\"rst\":\"{}\",\"f\":", name);
                jbytes(&mut s, &f);
                s.push('}');
                emit(&s);
                n += 1;
            }
        },
        "aid" => {
            let text = std::fs::read_to_string(arg("--scenarios").unwrap()).expect("scenarios");
            for l in text.lines() {
                let v: serde_json::Value = serde_json::from_str(l).expect("scenario");
                aid(&v[0], &v[1]);
                n += 1;
            }
        },
        "requests" => {
            for ((name, c, i, q, one, all), (mn, mc, mi, fixed, max)) in
                gen_build::requests().into_iter().zip(gen_obs::meta())
            {
                assert_eq!(name, mn);
                assert_eq!((c, i), (mc, mi));
                let mut s = format!(
                    "{{\"meta\":\"{}\",\"c\":{},\"i\":{},\"fixed\":{},\"max\":{},\"rq\":",
                    name,
                    c,
                    i,
                    fixed.map_or(-1, i64::from),
                    max
                );
                jbytes(&mut s, &q);
                s.push_str(",\"one\":");
                jbytes(&mut s, &one);
                s.push_str(",\"all\":");
                jbytes(&mut s, &all);
                s.push('}');
                emit(&s);
                n += 1;
            }
            for c in 0..=255u8 {
                for i in 0..=255u8 {
                    if c % 16 == 5 || i % 32 == 9 || c == i {
                        let f = UbxPacketRequest::request_for_unknown(c, i).into_packet_bytes();
                        let mut s = format!("{{\"unk\":[{},{}],\"plen\":{},\"f\":", c, i, UbxPacketRequest::PACKET_LEN);
                        jbytes(&mut s, &f);
                        s.push('}');
                        emit(&s);
                        n += 1;
                    }
                }
            }
            for nak in [false, true] {
                // which packets does an acknowledgement of every class and id match?
                let mut yes: BTreeMap<&'static str, Vec<(u8, u8)>> = BTreeMap::new();
                let mut tried: BTreeMap<&'static str, u32> = BTreeMap::new();
                let mut parser = Parser::default();
                for c in 0..=255u8 {
                    for i in 0..=255u8 {
                        let f = frame(5, if nak { 0 } else { 1 }, &[c, i]);
                        let mut it = parser.consume(&f);
                        if let Some(Ok(p)) = it.next() {
                            for (t, y) in gen_build::acks(&p) {
                                *tried.entry(t).or_default() += 1;
                                if y {
                                    yes.entry(t).or_default().push((c, i));
                                }
                            }
                        }
                    }
                }
                for (t, k) in tried {
                    let y = yes.get(t).cloned().unwrap_or_default();
                    let list: Vec<String> = y.iter().take(300).map(|(a, b)| format!("[{},{}]", a, b)).collect();
                    emit(&format!(
                        "{{\"ack\":\"{}\",\"nak\":{},\"tried\":{},\"yes\":[{}]}}",
                        t,
                        nak as u8,
                        k,
                        list.join(",")
                    ));
                    n += 1;
                }
            }
        },
        k => panic!("kind {}", k),
    }
    set_current(String::new());
    close_out();
    println!("{} {}", n, kind);
}

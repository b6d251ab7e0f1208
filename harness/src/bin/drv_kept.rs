//! Values that can be serialized and deserialized: each is kept as JSON (a
//! tree of values, and text where no floats are involved), read back and seen again.
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::fmt::{Debug, Write as _};
use ublox::*;
use vharness::*;

fn seen<T: Serialize + Debug + Copy>(v: &T, w: &dyn Fn(T) -> Vec<u8>) -> String {
    let mut s = String::from("[");
    match ser::record(v) {
        Ok(x) => s.push_str(&x),
        Err(_) => s.push_str("[\"error\",[]]"),
    }
    s.push(',');
    jstr(&mut s, &format!("{:?}", v));
    s.push(',');
    jbytes(&mut s, &w(*v));
    s.push(']');
    s
}
fn back<T: Serialize + Debug + Copy>(r: Result<T, serde_json::Error>, w: &dyn Fn(T) -> Vec<u8>) -> String {
    match r {
        Ok(v) => seen(&v, w),
        Err(_) => "[[\"error\",[]],\"\",[]]".into(),
    }
}
fn keep<T: Serialize + DeserializeOwned + Debug + Copy>(y: &str, b: &[u8], make: &dyn Fn() -> T, w: &dyn Fn(T) -> Vec<u8>, text: bool) {
    let mut s = String::new();
    let _ = write!(s, "{{\"y\":\"{}\",\"b\":", y);
    jbytes(&mut s, b);
    let r = guarded(|| {
        let v = make();
        let o = seen(&v, w);
        let mut k = vec![];
        let tree = serde_json::to_value(v);
        k.push(back(tree.and_then(serde_json::from_value), w));
        if text {
            k.push(back(serde_json::to_string(&v).and_then(|t| serde_json::from_str(&t)), w));
        }
        (o, k)
    });
    match r {
        Ok((o, k)) => {
            let o: Value = serde_json::from_str(&o).unwrap();
            let _ = write!(s, ",\"s\":{},\"d\":{},\"w\":{},\"k\":[{}]}}", o[0], o[1], o[2], k.join(","));
        },
        Err(_) => s.push_str(",\"s\":[\"error\",[]],\"d\":\"panic\",\"w\":[],\"k\":[]}"),
    }
    emit(&s);
}

fn none<T>(_: T) -> Vec<u8> {
    vec![]
}
fn with_mode(mode: UartMode) -> Vec<u8> {
    CfgPrtUartBuilder {
        portid: UartPortId::Uart1,
        reserved0: 0,
        tx_ready: 0,
        mode,
        baud_rate: 0,
        in_proto_mask: InProtoMask::empty(),
        out_proto_mask: OutProtoMask::empty(),
        flags: 0,
        reserved5: 0,
    }
    .into_packet_bytes()
    .to_vec()
}
fn with_itfm(config: CfgItfmConfig, config2: CfgItfmConfig2) -> Vec<u8> {
    CfgItfmBuilder { config, config2 }.into_packet_bytes().to_vec()
}

fn main() {
    let out = arg("--out").unwrap();
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let extra: usize = arg("--random").map_or(0, |s| s.parse().unwrap());
    let text = std::fs::read_to_string(arg("--frames").unwrap()).expect("values");
    open_out(&out);
    start_watchdog();
    let mut rng = Rng::new(seed);
    let mut n = 0;
    let given: Vec<(String, Vec<u8>)> = text
        .lines()
        .map(|l| {
            let v: Value = serde_json::from_str(l).expect("value");
            let b = v[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            (v[0].as_str().unwrap().to_string(), b)
        })
        .collect();
    for (y, b) in &given {
        one(y, b);
        n += 1;
    }
    let wide: Vec<&(String, Vec<u8>)> = given
        .iter()
        .filter(|g| !matches!(g.0.as_str(), "UartMode" | "ResetMode" | "CfgItfmAntennaSettings"))
        .collect();
    for _ in 0..extra {
        let (y, b) = (*rng.pick(&wide)).clone();
        let b: Vec<u8> = if b.len() % 8 == 0 {
            b.chunks(8)
                .flat_map(|_| loop {
                    let x = f64::from_bits(rng.next());
                    if x.is_finite() {
                        return x.to_le_bytes();
                    }
                })
                .collect()
        } else {
            b.iter().map(|_| rng.byte()).collect()
        };
        one(&y, &b);
        n += 1;
    }
    for x in 0..=255u8 {
        let d: serde::de::value::U8Deserializer<serde::de::value::Error> = x.into_deserializer();
        let r = guarded(|| CfgItfmAntennaSettings::deserialize(d));
        let (ok, s) = match r {
            Ok(Ok(v)) => ("true", ser::record(&v).unwrap_or_else(|_| "[]".into())),
            Ok(Err(_)) => ("false", "[]".to_string()),
            Err(_) => ("\"panic\"", "[]".to_string()),
        };
        emit(&format!("{{\"y\":\"CfgItfmAntennaSettings\",\"x\":{},\"ok\":{},\"s\":{}}}", x, ok, s));
        n += 1;
    }
    close_out();
    println!("{} values", n);
}

fn one(y: &str, b: &[u8]) {
    let mut h = format!("{{\"y\":\"{}\",\"b\":", y);
    jbytes(&mut h, b);
    set_current(h + ",\"hang\":true}");
    let f = |k: usize| f64::from_le_bytes(b[8 * k..8 * k + 8].try_into().unwrap());
    let u = || u32::from_le_bytes(b[..4].try_into().unwrap());
    let unset = || CfgItfmConfig2::new(CfgItfmAntennaSettings::Unknown, false);
    match y {
        "Position" => keep(y, b, &|| Position { lon: f(0), lat: f(1), alt: f(2) }, &none, false),
        "PositionECEF" => keep(y, b, &|| PositionECEF { x: f(0), y: f(1), z: f(2) }, &none, false),
        "Velocity" => keep(y, b, &|| Velocity { speed: f(0), heading: f(1) }, &none, false),
        "UartMode" => keep(y, b, &|| {
            let mut pl = vec![1u8, 0, 0, 0];
            pl.extend_from_slice(b);
            pl.resize(20, 0);
            let fr = frame(6, 0, &pl);
            let mut p = Parser::new(Vec::new());
            let mut it = p.consume(&fr);
            match it.next() {
                Some(Ok(PacketRef::CfgPrtUart(x))) => x.mode(),
                _ => panic!("not delivered"),
            }
        }, &with_mode, true),
        "CfgItfmConfig" => keep(y, b, &|| CfgItfmConfig::from(u()), &|v| with_itfm(v, unset()), true),
        "CfgItfmConfig2" => keep(y, b, &|| CfgItfmConfig2::from(u()), &|v| with_itfm(CfgItfmConfig::new(false, 0, 0), v), true),
        "CfgItfmBbThreshold" => keep(y, b, &|| CfgItfmBbThreshold::from(u()), &none, true),
        "CfgItfmCwThreshold" => keep(y, b, &|| CfgItfmCwThreshold::from(u()), &none, true),
        "CfgItfmAlgoBits" => keep(y, b, &|| CfgItfmAlgoBits::from(u()), &none, true),
        "CfgItfmGeneralBits" => keep(y, b, &|| CfgItfmGeneralBits::from(u()), &none, true),
        "NavSatQualityIndicator" => keep(y, b, &|| NavSatSvFlags::from(u()).quality_ind(), &none, true),
        "NavSatSvHealth" => keep(y, b, &|| NavSatSvFlags::from(u()).health(), &none, true),
        "NavSatOrbitSource" => keep(y, b, &|| NavSatSvFlags::from(u()).orbit_source(), &none, true),
        "ResetMode" => keep(y, b, &|| match b[0] {
            0 => ResetMode::HardwareResetImmediately,
            1 => ResetMode::ControlledSoftwareReset,
            2 => ResetMode::ControlledSoftwareResetGpsOnly,
            4 => ResetMode::HardwareResetAfterShutdown,
            8 => ResetMode::ControlledGpsStop,
            _ => ResetMode::ControlledGpsStart,
        }, &|m| CfgRstBuilder { nav_bbr_mask: NavBbrMask::empty(), reset_mode: m, reserved1: 0 }.into_packet_bytes().to_vec(), true),
        "CfgItfmAntennaSettings" => keep(y, b, &|| match b[0] {
            0 => CfgItfmAntennaSettings::Unknown,
            1 => CfgItfmAntennaSettings::Active,
            _ => CfgItfmAntennaSettings::Passive,
        }, &|v| with_itfm(CfgItfmConfig::new(false, 0, 0), CfgItfmConfig2::new(v, true)), true),
        _ => unreachable!(),
    }
}

//! Runs builders: inputs from scenarios, a recording and failing sink.
use crate::obs::Plain;
use serde_json::Value;
use std::fmt::Write as _;
use ublox::{MemWriter, MemWriterError, UbxPacketCreator};

pub type In = Value;
pub const RATE: u8 = 0x5a;
pub const RATES: [u8; 6] = [1, 0x82, 3, 0x84, 5, 0xf6];

pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array()
        .expect("bytes")
        .iter()
        .map(|x| x.as_u64().expect("byte") as u8)
        .collect()
}
pub trait FromLe: Sized {
    fn read_le(v: &In) -> Self;
}
macro_rules! from_le {
    ($($t:ty)*) => {$(impl FromLe for $t {
        fn read_le(v: &In) -> Self {
            <$t>::from_le_bytes(bytes_of(v).try_into().expect("width"))
        }
    })*};
}
from_le!(u8 i8 u16 i16 u32 i32 u64 i64);
pub fn arr<const N: usize>(v: &In) -> [u8; N] {
    bytes_of(v).try_into().expect("width")
}
pub fn arr_of<const N: usize>(p: &impl Plain) -> [u8; N] {
    p.bytes().try_into().expect("width")
}
pub fn code(v: &In, k: usize) -> usize {
    v[k].as_u64().expect("code") as usize
}
fn step(v: &In) -> (i64, u64) {
    (
        i64::from_le_bytes(bytes_of(&v[0]).try_into().expect("eight bytes")),
        v[1].as_u64().expect("quarter"),
    )
}
pub fn real64(v: &In, scale: f64) -> f64 {
    let (k, q) = step(v);
    match q {
        0..=3 => (k as f64 + q as f64 / 4.0) * scale,
        4 => f64::INFINITY,
        5 => f64::NEG_INFINITY,
        6 => -0.0,
        7 => f64::MAX,
        8 => f64::MIN,
        9 => f64::from_bits(1),
        _ => -f64::from_bits(1),
    }
}
pub fn real32(v: &In, scale: f64) -> f32 {
    let (k, q) = step(v);
    match q {
        0..=3 => ((k as f64 + q as f64 / 4.0) * scale) as f32,
        4 => f32::INFINITY,
        5 => f32::NEG_INFINITY,
        6 => -0.0,
        7 => f32::MAX,
        8 => f32::MIN,
        9 => f32::from_bits(1),
        _ => -f32::from_bits(1),
    }
}

pub enum Call {
    Reserve(usize),
    Write(Vec<u8>),
}
/// A sink which records its calls and fails at the chosen one
#[derive(Default)]
pub struct Sink {
    pub calls: Vec<Call>,
    /// call number (from 1) and whether the error is Custom
    pub fail: Option<(usize, bool)>,
}
#[derive(Debug)]
pub struct Broken(pub usize);
impl Sink {
    fn outcome(&self) -> Result<(), MemWriterError<Broken>> {
        match self.fail {
            Some((n, custom)) if n == self.calls.len() => Err(if custom {
                MemWriterError::Custom(Broken(n))
            } else {
                MemWriterError::NotEnoughMem
            }),
            _ => Ok(()),
        }
    }
}
impl MemWriter for Sink {
    type Error = Broken;
    fn reserve_allocate(&mut self, len: usize) -> Result<(), MemWriterError<Broken>> {
        self.calls.push(Call::Reserve(len));
        self.outcome()
    }
    fn write(&mut self, buf: &[u8]) -> Result<(), MemWriterError<Broken>> {
        self.calls.push(Call::Write(buf.to_vec()));
        self.outcome()
    }
}

/// The JSON text of what one builder did
#[derive(Default)]
pub struct Built {
    pub out: String,
    pub frame: Vec<u8>,
    pub with_failures: bool,
    /// also create_packet into a Vec, in builds that can
    pub into_vec: bool,
}
fn push_calls(out: &mut String, calls: &[Call]) {
    out.push('[');
    for (k, c) in calls.iter().enumerate() {
        if k > 0 {
            out.push(',');
        }
        match c {
            Call::Reserve(n) => {
                let _ = write!(out, "[\"r\",{}]", n);
            },
            Call::Write(b) => {
                out.push_str("[\"w\",");
                crate::jbytes(out, b);
                out.push(']');
            },
        }
    }
    out.push(']');
}
fn result_name(r: &Result<(), MemWriterError<Broken>>, n: usize) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(MemWriterError::NotEnoughMem) => "mem",
        Err(MemWriterError::Custom(Broken(m))) if *m == n => "custom",
        Err(_) => "other",
    }
}
impl Built {
    pub fn run<B: UbxPacketCreator>(
        &mut self,
        len: usize,
        bytes: impl Fn() -> Vec<u8>,
        array: impl Fn() -> Vec<u8>,
        make: impl Fn() -> B,
    ) {
        let o = &mut self.out;
        self.frame = bytes();
        let _ = write!(o, ",\"plen\":{},\"into\":", len);
        crate::jbytes(o, &self.frame);
        o.push_str(",\"arr\":");
        crate::jbytes(o, &array());
        #[cfg(feature = "std")]
        if self.into_vec {
            let mut v = vec![9u8, 8, 7];
            let r = make().create_packet(&mut v);
            let _ = write!(o, ",\"vecok\":{},\"vec\":", r.is_ok() as u8);
            crate::jbytes(o, &v);
        }
        let mut s = Sink::default();
        let r = make().create_packet(&mut s);
        let _ = write!(o, ",\"res\":\"{}\",\"calls\":", result_name(&r, 0));
        push_calls(o, &s.calls);
        o.push_str(",\"fails\":[");
        if self.with_failures {
            let n = s.calls.len();
            let mut first = true;
            for j in 1..=n + 1 {
                for custom in [false, true] {
                    let mut s = Sink {
                        fail: Some((j, custom)),
                        ..Sink::default()
                    };
                    let r = make().create_packet(&mut s);
                    let _ = write!(
                        o,
                        "{}[{},\"{}\",\"{}\",",
                        if first { "" } else { "," },
                        j,
                        if custom { "custom" } else { "mem" },
                        result_name(&r, j)
                    );
                    first = false;
                    push_calls(o, &s.calls);
                    o.push(']');
                }
            }
        }
        o.push(']');
    }
}

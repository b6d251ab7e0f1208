//! Shared helpers of the conformance drivers.  The drivers only make calls on
//! the real code and record what happened; all judging is done by TLC.
pub mod obs;
#[cfg(feature = "serde")]
pub mod ser;
pub mod build;
pub mod config;
pub mod gen_config;
pub mod gen_build;
pub mod gen_obs;

use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

/// JSON array of bytes
pub fn jbytes(out: &mut String, b: &[u8]) {
    out.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        for d in [100, 10, 1] {
            if *x >= d || d == 1 {
                out.push((b'0' + x / d % 10) as char);
            }
        }
    }
    out.push(']');
}

pub fn jstr(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let _ = write!(out, "?");
            },
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Calls on the code under test are counted: the watchdog reports a hang when
/// the count stands still.
pub static TICKS: AtomicUsize = AtomicUsize::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());
static OUT: Mutex<Option<std::io::BufWriter<std::fs::File>>> = Mutex::new(None);
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn open_out(path: &str) {
    *OUT.lock().unwrap() = Some(std::io::BufWriter::new(
        std::fs::File::create(path).expect("create trace file"),
    ));
}
pub fn emit(line: &str) {
    let mut g = OUT.lock().unwrap();
    let w = g.as_mut().unwrap();
    w.write_all(line.as_bytes()).unwrap();
    w.write_all(b"\n").unwrap();
}
pub fn close_out() {
    if let Some(mut w) = OUT.lock().unwrap().take() {
        w.flush().unwrap();
    }
}
/// What to write as a record if the process hangs while working on it.
pub fn set_current(s: String) {
    *CURRENT.lock().unwrap() = s;
}
pub fn tick() {
    TICKS.fetch_add(1, Ordering::Relaxed);
}

pub fn start_watchdog() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(|| {
        let mut last = 0;
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = TICKS.load(Ordering::Relaxed);
            let cur = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
            if now == last && !cur.is_empty() {
                still += 1;
            } else {
                still = 0;
            }
            last = now;
            if still >= 24 {
                // 12 s inside one call
                emit(&cur);
                close_out();
                std::process::exit(0);
            }
        }
    });
}

/// Runs f, turning a panic into Err(message).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    tick();
    let r = catch_unwind(AssertUnwindSafe(f));
    tick();
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn checksum(b: &[u8]) -> (u8, u8) {
    let (mut x, mut y) = (0u8, 0u8);
    for c in b {
        x = x.wrapping_add(*c);
        y = y.wrapping_add(x);
    }
    (x, y)
}

/// Only used to make inputs; whether an input is a well-formed frame is
/// decided by the specification.
pub fn frame(class: u8, id: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![0xb5, 0x62, class, id];
    v.extend_from_slice(&(payload.len() as u16).to_le_bytes());
    v.extend_from_slice(payload);
    let (a, b) = checksum(&v[2..]);
    v.push(a);
    v.push(b);
    v
}

pub fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == name {
            return it.next();
        }
    }
    None
}

#[macro_export]
macro_rules! for_all_packets {
    ($m:ident $(, $x:tt)*) => {
        $m!{$($x)*; NavPosLlh NavStatus NavDop NavPvt NavSolution NavVelNed NavHpPosLlh NavHpPosEcef
            NavTimeUTC NavTimeLs NavSat NavEoe NavOdo CfgOdo MgaAck MgaGpsIono MgaGpsEph MgaGloEph
            AlpSrv AckAck AckNak CfgItfm CfgPrtI2c CfgPrtSpi CfgPrtUart CfgNav5 CfgAnt CfgTmode2
            CfgTmode3 CfgTp5 InfError InfWarning InfNotice InfTest InfDebug RxmRawx TimTp TimTm2
            MonVer MonGnss MonHw RxmRtcm EsfMeas EsfIns HnrAtt HnrIns HnrPvt NavAtt NavClock
            NavVelECEF MgaGpsEPH RxmSfrbx EsfRaw TimSvin SecUniqId}
    };
}

macro_rules! payload_fn {
    (; $($n:ident)*) => {
        /// (variant name, payload) of a delivered packet
        pub fn name_and_payload<'a>(p: &'a ublox::PacketRef<'a>) -> (&'static str, &'a [u8]) {
            match p {
                $(ublox::PacketRef::$n(x) => (stringify!($n), x.as_bytes()),)*
                ublox::PacketRef::Unknown(u) => ("Unknown", u.payload),
            }
        }
    };
}
for_all_packets!(payload_fn);

use ublox::UnderlyingBuffer;

/// A conforming buffer of exact capacity, other than the provided ones: data
/// lives at a moving start position of a larger array and is compacted lazily.
pub struct OffsetBuf {
    store: Vec<u8>,
    start: usize,
    len: usize,
    cap: usize,
}
impl OffsetBuf {
    pub fn new(cap: usize) -> Self {
        OffsetBuf {
            store: vec![0xEE; cap + cap / 2 + 1],
            start: 0,
            len: 0,
            cap,
        }
    }
}
impl core::ops::Index<core::ops::Range<usize>> for OffsetBuf {
    type Output = [u8];
    fn index(&self, r: core::ops::Range<usize>) -> &[u8] {
        assert!(r.start <= r.end && r.end <= self.len, "OffsetBuf range");
        &self.store[self.start + r.start..self.start + r.end]
    }
}
impl core::ops::Index<usize> for OffsetBuf {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        assert!(i < self.len, "OffsetBuf index");
        &self.store[self.start + i]
    }
}
impl UnderlyingBuffer for OffsetBuf {
    fn clear(&mut self) {
        self.start = 0;
        self.len = 0;
    }
    fn len(&self) -> usize {
        self.len
    }
    fn max_capacity(&self) -> usize {
        self.cap
    }
    fn extend_from_slice(&mut self, other: &[u8]) -> usize {
        let n = other.len().min(self.cap - self.len);
        if self.start + self.len + n > self.store.len() {
            self.store.copy_within(self.start..self.start + self.len, 0);
            self.start = 0;
        }
        let at = self.start + self.len;
        self.store[at..at + n].copy_from_slice(&other[..n]);
        self.len += n;
        other.len() - n
    }
    fn drain(&mut self, count: usize) {
        let n = count.min(self.len);
        for b in &mut self.store[self.start..self.start + n] {
            *b = 0xDD;
        }
        self.start += n;
        self.len -= n;
    }
}

/// Another one: a Vec that refuses to grow beyond its capacity.
pub struct CappedVec {
    v: Vec<u8>,
    cap: usize,
}
impl CappedVec {
    pub fn new(cap: usize) -> Self {
        CappedVec { v: vec![], cap }
    }
}
impl core::ops::Index<core::ops::Range<usize>> for CappedVec {
    type Output = [u8];
    fn index(&self, r: core::ops::Range<usize>) -> &[u8] {
        &self.v[r]
    }
}
impl core::ops::Index<usize> for CappedVec {
    type Output = u8;
    fn index(&self, i: usize) -> &u8 {
        &self.v[i]
    }
}
impl UnderlyingBuffer for CappedVec {
    fn clear(&mut self) {
        self.v.clear();
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn max_capacity(&self) -> usize {
        self.cap
    }
    fn extend_from_slice(&mut self, other: &[u8]) -> usize {
        let n = other.len().min(self.cap - self.v.len());
        self.v.extend_from_slice(&other[..n]);
        other.len() - n
    }
    fn drain(&mut self, count: usize) {
        let n = count.min(self.v.len());
        self.v.drain(0..n);
    }
}

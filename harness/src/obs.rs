//! Records what the accessors of a packet return.
use crate::{guarded, jbytes, jstr};
use std::fmt::Write as _;

pub trait Le {
    const W: usize;
    fn le(&self) -> Vec<u8>;
}
macro_rules! le {
    ($($t:ty)*) => {$(impl Le for $t {
        const W: usize = std::mem::size_of::<$t>();
        fn le(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    })*};
}
le!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64);

/// A plain accessor value: a number or bytes
pub trait Plain {
    fn ty(&self) -> &'static str;
    fn bytes(&self) -> Vec<u8>;
}
macro_rules! plain {
    ($($t:ident)*) => {$(impl Plain for $t {
        fn ty(&self) -> &'static str { stringify!($t) }
        fn bytes(&self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    })*};
}
plain!(u8 i8 u16 i16 u32 i32 u64 i64 f32 f64);
impl<const N: usize> Plain for [u8; N] {
    fn ty(&self) -> &'static str {
        "bytes"
    }
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
}
impl Plain for &[u8] {
    fn ty(&self) -> &'static str {
        "bytes"
    }
    fn bytes(&self) -> Vec<u8> {
        self.to_vec()
    }
}

pub fn short_type<T: ?Sized>(_: &T) -> String {
    let n = std::any::type_name::<T>();
    let n = n.split('<').next().unwrap();
    n.rsplit("::").next().unwrap().to_string()
}

/// Nearest multiple of `scale` to v, as its index, and the distance in
/// millionths of a step.
pub trait Scaled {
    fn ty(&self) -> &'static str;
    fn value(&self) -> f64;
    fn bits(&self) -> Vec<u8>;
}
impl Scaled for f64 {
    fn ty(&self) -> &'static str {
        "f64"
    }
    fn value(&self) -> f64 {
        *self
    }
    fn bits(&self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}
impl Scaled for f32 {
    fn ty(&self) -> &'static str {
        "f32"
    }
    fn value(&self) -> f64 {
        f64::from(*self)
    }
    fn bits(&self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
}

/// a value that is recorded the way it serializes, in builds that can
pub trait Word {
    fn word(&self) -> String;
}
#[cfg(feature = "serde")]
impl<T: serde::Serialize> Word for T {
    fn word(&self) -> String {
        crate::ser::record(self).unwrap_or_else(|e| panic!("{}", e))
    }
}
#[cfg(not(feature = "serde"))]
impl<T> Word for T {
    fn word(&self) -> String {
        "[\"-\"]".into()
    }
}

/// set by a driver whose records must not depend on how values serialize
pub static NO_WORDS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Default)]
pub struct Obs {
    pub out: String,
    pub n: usize,
    pub panics: Vec<String>,
}
impl Obs {
    fn sep(&mut self) {
        if self.n > 0 {
            self.out.push(',');
        }
        self.n += 1;
    }
    fn put(&mut self, name: &str, r: Result<String, String>) {
        self.sep();
        let _ = write!(self.out, "[\"{}\",", name);
        match r {
            Ok(s) => self.out.push_str(&s),
            Err(e) => {
                self.out.push_str("\"x\",");
                jstr(&mut self.out, &e);
                self.panics.push(format!("{}: {}", name, e));
            },
        }
        self.out.push(']');
    }
    pub fn plain<T: Plain>(&mut self, name: &str, f: impl FnOnce() -> T) {
        let r = guarded(|| {
            let v = f();
            let mut s = format!("\"{}\",", v.ty());
            jbytes(&mut s, &v.bytes());
            s
        });
        self.put(name, r);
    }
    pub fn scaled<T: Scaled>(&mut self, name: &str, f: impl FnOnce() -> T, scale: f64, w: usize) {
        let r = guarded(|| {
            let v = f();
            let q = v.value() / scale;
            let k = q.round();
            let far = (q - k).abs();
            let mut s = format!("\"{}\",", v.ty());
            if k.is_finite() && k.abs() < 9e18 {
                let k = k as i64;
                let b = k.to_le_bytes();
                // shorten to w bytes; a value that does not fit keeps all eight
                let fits = if w == 8 {
                    true
                } else {
                    let m = 8 * w as u32;
                    k >= -(1i64 << (m - 1)) && k < (1i64 << m)
                };
                jbytes(&mut s, if fits { &b[..w] } else { &b });
                let _ = write!(s, ",{},", (far * 1e6) as i64);
            } else {
                s.push_str("[],1000000,");
            }
            jbytes(&mut s, &v.bits());
            s
        });
        self.put(name, r);
    }
    pub fn coded(&mut self, name: &str, f: impl FnOnce() -> (Vec<u8>, String, String)) {
        let r = guarded(|| {
            let (raw, variant, ty) = f();
            let mut s = format!("\"{}\",", ty);
            jbytes(&mut s, &raw);
            s.push(',');
            jstr(&mut s, &variant);
            s
        });
        self.put(name, r);
    }
    pub fn flags(&mut self, name: &str, f: impl FnOnce() -> (Vec<u8>, Vec<String>, String)) {
        let r = guarded(|| {
            let (raw, names, ty) = f();
            let mut s = format!("\"{}\",", ty);
            jbytes(&mut s, &raw);
            s.push_str(",[");
            for (i, n) in names.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                jstr(&mut s, n);
            }
            s.push(']');
            s
        });
        self.put(name, r);
    }
    pub fn subs(&mut self, name: &str, f: impl FnOnce() -> (String, Vec<(&'static str, String)>)) {
        let r = guarded(|| {
            let (ty, subs) = f();
            let mut s = format!("\"{}\",[", ty);
            for (i, (n, v)) in subs.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                let _ = write!(s, "[\"{}\",", n);
                jstr(&mut s, v);
                s.push(']');
            }
            s.push(']');
            s
        });
        self.put(name, r);
    }
    pub fn word<T: Word>(&mut self, name: &str, f: impl FnOnce() -> T) {
        let r = guarded(|| {
            let v = f();
            let w = if NO_WORDS.load(std::sync::atomic::Ordering::Relaxed) {
                "[\"-\"]".into()
            } else {
                v.word()
            };
            format!("\"{}\",{}", short_type(&v), w)
        });
        self.put(name, r);
    }
    pub fn text(&mut self, name: &str, f: impl FnOnce() -> String) {
        let r = guarded(|| {
            let v = f();
            let mut s = String::from("\"str\",");
            jbytes(&mut s, v.as_bytes());
            s
        });
        self.put(name, r);
    }
    pub fn opt(&mut self, name: &str, f: impl FnOnce() -> Option<Vec<u8>>) {
        let r = guarded(|| {
            let mut s = String::from("\"opt\",[");
            if let Some(b) = f() {
                jbytes(&mut s, &b);
            }
            s.push(']');
            s
        });
        self.put(name, r);
    }
    /// Exhausts an iterator; each item is observed into its own list.  `hints`
    /// is 1 if every size_hint was consistent with the number of items, the end
    /// stays the end, and count, last and nth agree with going item by item.
    pub fn iter<I: Iterator>(
        &mut self,
        name: &str,
        f: impl Fn() -> I,
        mut item: impl FnMut(I::Item, &mut Obs),
    ) {
        let mut inner_panics = vec![];
        let r = guarded(|| {
            let mut it = f();
            let mut s = String::from("\"iter\",[");
            let mut hints = vec![];
            let mut n = 0usize;
            let mut outs: Vec<String> = vec![];
            loop {
                hints.push(it.size_hint());
                let Some(x) = it.next() else { break };
                crate::tick();
                if n > 0 {
                    s.push(',');
                }
                n += 1;
                let mut o = Obs::default();
                item(x, &mut o);
                let _ = write!(s, "[{}]", o.out);
                inner_panics.append(&mut o.panics);
                outs.push(o.out);
                if n > 5000 {
                    panic!("runaway iterator");
                }
            }
            let mut same = it.next().is_none() && it.next().is_none();
            if n < 200 && !cfg!(miri) {
                let mut seen = |x: Option<I::Item>| {
                    x.map(|x| {
                        let mut o = Obs::default();
                        item(x, &mut o);
                        o.out
                    })
                };
                same &= f().count() == n && seen(f().last()).as_ref() == outs.last();
                for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, 256, 65536, n + 256, usize::MAX] {
                    let mut it = f();
                    let at = seen(it.nth(k));
                    let after = seen(it.next());
                    same &= at.as_ref() == outs.get(k) && after.as_ref() == k.checked_add(1).and_then(|k| outs.get(k));
                }
                // Part of it, then the rest at once
                let mut it = f();
                let first = seen(it.next());
                same &= first.as_ref() == outs.first() && it.count() == n.saturating_sub(1);
            }
            let ok = same && hints.iter().enumerate().all(|(i, (lo, hi))| {
                let left = n - i;
                *lo <= left && hi.map_or(true, |h| left <= h)
            });
            let _ = write!(s, "],{}", ok as u8);
            s
        });
        self.panics.append(&mut inner_panics);
        self.put(name, r);
    }
}

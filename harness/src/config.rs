//! Values of configuration items.
use serde_json::Value as Json;
use ublox::cfg_val::CfgVal;
use ublox::CfgInfMask;

pub trait Value: Sized {
    fn make(b: &[u8], v: &str) -> Self;
    fn show(&self) -> (Vec<u8>, &'static str);
}
macro_rules! number {
    ($($t:ty)*) => {$(impl Value for $t {
        fn make(b: &[u8], _: &str) -> Self { <$t>::from_le_bytes(b.try_into().expect("width")) }
        fn show(&self) -> (Vec<u8>, &'static str) { (self.to_le_bytes().to_vec(), "") }
    })*};
}
number!(u8 u16 i16 u32 u64);
impl Value for bool {
    fn make(b: &[u8], _: &str) -> Self {
        b[0] == 1
    }
    fn show(&self) -> (Vec<u8>, &'static str) {
        (vec![if *self { 1 } else { 0 }], "")
    }
}
impl Value for CfgInfMask {
    fn make(b: &[u8], _: &str) -> Self {
        CfgInfMask::from_bits_retain(b[0])
    }
    fn show(&self) -> (Vec<u8>, &'static str) {
        (vec![self.bits()], "")
    }
}

/// <<name, bytes, variant>>
pub fn parse(v: &Json) -> CfgVal {
    crate::gen_config::make(
        v[0].as_str().expect("name"),
        &crate::build::bytes_of(&v[1]),
        v[2].as_str().expect("variant"),
    )
}
pub fn text(x: &CfgVal) -> String {
    let (n, b, v) = crate::gen_config::show(x);
    let mut s = format!("[\"{}\",", n);
    crate::jbytes(&mut s, &b);
    s.push_str(",\"");
    s.push_str(v);
    s.push_str("\"]");
    s
}

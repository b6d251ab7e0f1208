// What the definitions under test refer to.  This text is included by the
// guarded module at the end of ublox/src/ubx_packets/packets.rs.
pub trait Raw: Copy {
    fn of(b: &[u8]) -> Self;
    fn le_vec(self) -> Vec<u8>;
}
macro_rules! raw {
    ($($t:ty),*) => { $(impl Raw for $t {
        fn of(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) }
        fn le_vec(self) -> Vec<u8> { self.to_le_bytes().to_vec() }
    } impl Ob for $t { fn ob(&self) -> Vec<u8> { self.le_vec() } })* };
}
/// how an accessor's value is recorded
pub trait Ob {
    fn ob(&self) -> Vec<u8>;
}
raw!(u8, i8, u16, i16, u32, i32, f32, f64);
impl<const N: usize> Raw for [u8; N] {
    fn of(b: &[u8]) -> Self { b.try_into().unwrap() }
    fn le_vec(self) -> Vec<u8> { self.to_vec() }
}
impl<const N: usize> Ob for [u8; N] {
    fn ob(&self) -> Vec<u8> { self.to_vec() }
}
impl Ob for &[u8] {
    fn ob(&self) -> Vec<u8> { self.to_vec() }
}
/// a mapped number; those that begin with 238 are invalid
#[derive(Clone, Copy, Debug, Default)]
pub struct Wrap<T>(pub T);
impl<T: Raw> Wrap<T> {
    pub fn from(x: T) -> Self { Wrap(x) }
    pub fn from_unchecked(x: T) -> Self { assert!(Self::is_valid(x)); Wrap(x) }
    pub fn is_valid(x: T) -> bool { x.le_vec()[0] != 238 }
    pub fn into_raw(self) -> T { self.0 }
}
impl<T: Raw> Ob for Wrap<T> {
    fn ob(&self) -> Vec<u8> { self.0.le_vec() }
}
/// a view of the bytes of an array or of an unsized field
#[derive(Clone, Copy, Debug)]
pub struct View<'a>(pub &'a [u8]);
impl<'a> View<'a> {
    pub fn new(b: &'a [u8]) -> Self { View(b) }
    pub fn is_valid(b: &[u8]) -> bool { b.first() != Some(&238) }
}
impl Ob for View<'_> {
    fn ob(&self) -> Vec<u8> { self.0.to_vec() }
}
/// one item of an open field of a builder
pub struct Item(pub u8);
impl Item {
    pub fn extend_to<T: core::iter::Extend<u8>>(&self, out: &mut T) -> usize {
        out.extend([self.0, 255 - self.0]);
        2
    }
}
/// a scaled value as its raw number of steps
pub fn steps(v: f64) -> Vec<u8> {
    let k = v * 2.0;
    if k == k.trunc() { (k as i64).to_le_bytes().to_vec() } else { vec![] }
}
pub const SOME: u8 = 2;
pub type Seen = Vec<(&'static str, Vec<u8>)>;
/// what the driver can ask about one definition
pub struct Subject {
    pub index: usize,
    pub meta: fn() -> (u8, u8, Option<u16>, u16),
    pub read: Option<fn(&[u8]) -> Option<Seen>>,
    pub build: Option<fn(&[Vec<u8>]) -> Vec<Vec<u8>>>,
    pub default: Option<fn() -> Vec<u8>>,
}
/// one entry per byte: nothing when it has no meaning, else code, name, raw
pub struct EnumSubject {
    pub index: usize,
    pub table: fn() -> Vec<Option<(u8, String, u8)>>,
}
pub struct FlagsSubject {
    pub index: usize,
    pub consts: fn() -> Vec<Vec<u8>>,
    pub all: fn() -> Vec<u8>,
    /// from(x).bits() where there is a from
    pub from: Option<fn(&[u8]) -> Vec<u8>>,
}
pub struct UnionSubject {
    pub index: usize,
    pub longest: fn() -> usize,
    /// which packet, class, id, and whether the payload is the one given
    pub matched: fn(u8, u8, &[u8]) -> (usize, u8, u8, bool),
}

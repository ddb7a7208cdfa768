//! Model of `rand`: every draw is an arbitrary value of its type / range.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Error {}
pub trait RngCore { fn next_u32(&mut self) -> u32; fn next_u64(&mut self) -> u64; fn fill_bytes(&mut self, dest: &mut [u8]); fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>; }
impl<R: RngCore + ?Sized> RngCore for &mut R { fn next_u32(&mut self) -> u32 { (**self).next_u32() } fn next_u64(&mut self) -> u64 { (**self).next_u64() } fn fill_bytes(&mut self, d: &mut [u8]) { (**self).fill_bytes(d) } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { (**self).try_fill_bytes(d) } }
pub trait SampleRange<T> { fn pick(self) -> T; }
macro_rules! ranges { ($($t:ty),*) => { $(
    impl SampleRange<$t> for std::ops::Range<$t> { fn pick(self) -> $t { assert!(self.start < self.end, "cannot sample empty range"); let v: $t = kani::any(); kani::assume(v >= self.start && v < self.end); v } }
    impl SampleRange<$t> for std::ops::RangeInclusive<$t> { fn pick(self) -> $t { assert!(self.start() <= self.end(), "cannot sample empty range"); let v: $t = kani::any(); kani::assume(v >= *self.start() && v <= *self.end()); v } }
)* } }
ranges!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
pub trait Rng: RngCore {
    fn gen<T: kani::Arbitrary>(&mut self) -> T where Self: Sized { kani::any() }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T where Self: Sized { r.pick() }
    fn gen_bool(&mut self, _p: f64) -> bool where Self: Sized { kani::any() }
    fn fill(&mut self, d: &mut [u8]) where Self: Sized { self.fill_bytes(d) }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub trait CryptoRng {}
pub trait SeedableRng: Sized { fn from_rng<R: RngCore>(_r: R) -> Result<Self, Error>; fn seed_from_u64(_s: u64) -> Self; fn from_entropy() -> Self; }
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn random<T: kani::Arbitrary>() -> T { kani::any() }
fn fill(d: &mut [u8]) { let mut i = 0; while i < d.len() { d[i] = kani::any(); i += 1; } }
macro_rules! core_impl { ($t:ty) => { impl RngCore for $t { fn next_u32(&mut self) -> u32 { kani::any() } fn next_u64(&mut self) -> u64 { kani::any() } fn fill_bytes(&mut self, d: &mut [u8]) { fill(d) } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { fill(d); Ok(()) } } impl CryptoRng for $t {} } }
core_impl!(ThreadRng);
pub mod rngs { use super::*; pub struct SmallRng; core_impl!(SmallRng); impl SeedableRng for SmallRng { fn from_rng<R: RngCore>(_r: R) -> Result<Self, Error> { Ok(SmallRng) } fn seed_from_u64(_s: u64) -> Self { SmallRng } fn from_entropy() -> Self { SmallRng } } pub use super::ThreadRng; pub type StdRng = SmallRng; pub type OsRng = ThreadRng; }
pub mod seq {
    use super::*;
    /// Distinct arbitrary elements of the slice, `amount.min(len)` of them, in arbitrary order.
    pub struct Chosen<'a, T> { s: &'a [T], used: Vec<bool>, left: usize }
    impl<'a, T> Iterator for Chosen<'a, T> { type Item = &'a T; fn next(&mut self) -> Option<&'a T> { if self.left == 0 { return None; } self.left -= 1; let i: usize = kani::any(); kani::assume(i < self.s.len() && !self.used[i]); self.used[i] = true; Some(&self.s[i]) } fn size_hint(&self) -> (usize, Option<usize>) { (self.left, Some(self.left)) } }
    impl<T> ExactSizeIterator for Chosen<'_, T> {}
    pub trait SliceRandom { type Item; fn choose<R: Rng + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>; fn choose_mut<R: Rng + ?Sized>(&mut self, r: &mut R) -> Option<&mut Self::Item>; fn choose_multiple<R: Rng + ?Sized>(&self, r: &mut R, amount: usize) -> Chosen<'_, Self::Item>; fn shuffle<R: Rng + ?Sized>(&mut self, r: &mut R); }
    impl<T> SliceRandom for [T] { type Item = T;
        fn choose<R: Rng + ?Sized>(&self, _r: &mut R) -> Option<&T> { if self.is_empty() { None } else { let i: usize = kani::any(); kani::assume(i < self.len()); Some(&self[i]) } }
        fn choose_mut<R: Rng + ?Sized>(&mut self, _r: &mut R) -> Option<&mut T> { if self.is_empty() { None } else { let i: usize = kani::any(); kani::assume(i < self.len()); Some(&mut self[i]) } }
        fn choose_multiple<R: Rng + ?Sized>(&self, _r: &mut R, amount: usize) -> Chosen<'_, T> { Chosen { used: vec![false; self.len()], left: amount.min(self.len()), s: self } }
        fn shuffle<R: Rng + ?Sized>(&mut self, _r: &mut R) { let n = self.len(); let mut i = 1; while i < n { let j: usize = kani::any(); kani::assume(j <= i); self.swap(i, j); i += 1; } }
    }
}
pub mod prelude { pub use super::{Rng, RngCore, SeedableRng, CryptoRng, thread_rng, seq::SliceRandom, rngs::*}; }

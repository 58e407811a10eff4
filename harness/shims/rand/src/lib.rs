//! Random choices as unconstrained values of the stated ranges.
static mut MODE: u8 = 0;
static mut CTR: u64 = 0;
/// when off (default) randomness is a fixed sequence, when on every outcome is explored
pub fn symbolic(on: bool) { unsafe { MODE = on as u8 } }
/// number of orders that a symbolic shuffle chooses from (0: all that are modelled)
pub fn orders(n: usize) { unsafe { ORDERS = n } }
static mut ORDERS: usize = 0;
fn on() -> bool { unsafe { MODE != 0 } }
fn next() -> u64 { unsafe { CTR += 1; CTR } }
fn below(n: u64) -> u64 { if n <= 1 { 0 } else if on() { symapi::range("random", 0, n - 1) } else { next() % n } }
fn pick(n: usize) -> usize { symapi::concretize(below(n as u64)) as usize }
pub trait RngCore {
    fn next_u32(&mut self) -> u32 { if on() { symapi::u32("random") } else { next() as u32 } }
    fn next_u64(&mut self) -> u64 { if on() { symapi::u64("random") } else { next() } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = if on() { symapi::u8("random") } else { next() as u8 } } }
}
pub trait SampleRange<T> { fn pick(self) -> T; }
macro_rules! ranges { ($($t:ty),*) => { $(
    impl SampleRange<$t> for std::ops::Range<$t> { fn pick(self) -> $t { assert!(self.start < self.end, "cannot sample empty range"); self.start + below((self.end - self.start) as u64) as $t } }
    impl SampleRange<$t> for std::ops::RangeInclusive<$t> { fn pick(self) -> $t { let (a, b) = self.into_inner(); assert!(a <= b, "cannot sample empty range"); if (b - a) as u64 == u64::MAX { return symapi::u64("random") as $t; } a + below((b - a) as u64 + 1) as $t } }
)* } }
ranges!(u8, u16, u32, u64, usize, i32, i64);
pub trait Rng: RngCore {
    fn gen<T>(&mut self) -> T where distributions::Standard: distributions::Distribution<T>, Self: Sized { distributions::Distribution::sample(&distributions::Standard, self) }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T where Self: Sized { r.pick() }
    fn gen_bool(&mut self, _p: f64) -> bool { if on() { symapi::bool("random") } else { next() & 1 == 0 } }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T where Self: Sized { d.sample(self) }
    fn sample_iter<T, D: distributions::Distribution<T>>(self, d: D) -> distributions::DistIter<D, Self, T> where Self: Sized { distributions::DistIter(d, self, std::marker::PhantomData) }
    fn fill(&mut self, d: &mut [u8]) { self.fill_bytes(d) }
}
impl<R: RngCore + ?Sized> Rng for R {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}
pub mod rngs {
    #[derive(Clone, Debug)] pub struct ThreadRng;
    impl crate::RngCore for ThreadRng {}
    #[derive(Clone, Debug)] pub struct StdRng;
    impl crate::RngCore for StdRng {}
    impl crate::SeedableRng for StdRng { fn from_entropy() -> Self { StdRng } fn seed_from_u64(_: u64) -> Self { StdRng } }
    #[derive(Clone, Debug, Default)] pub struct OsRng;
    impl crate::RngCore for OsRng {}
    pub use StdRng as SmallRng;
}
pub trait SeedableRng { fn from_entropy() -> Self; fn seed_from_u64(_: u64) -> Self; }
pub fn thread_rng() -> rngs::ThreadRng { rngs::ThreadRng }
pub fn random<T>() -> T where distributions::Standard: distributions::Distribution<T> { thread_rng().gen() }
pub mod distributions {
    use crate::*;
    pub trait Distribution<T> { fn sample<R: RngCore + ?Sized>(&self, r: &mut R) -> T; fn sample_iter<R: RngCore>(self, r: R) -> DistIter<Self, R, T> where Self: Sized { DistIter(self, r, std::marker::PhantomData) } }
    impl<T, D: Distribution<T> + ?Sized> Distribution<T> for &D { fn sample<R: RngCore + ?Sized>(&self, r: &mut R) -> T { (**self).sample(r) } }
    pub struct DistIter<D, R, T>(pub(crate) D, pub(crate) R, pub(crate) std::marker::PhantomData<T>);
    impl<T, D: Distribution<T>, R: RngCore> Iterator for DistIter<D, R, T> { type Item = T; fn next(&mut self) -> Option<T> { Some(self.0.sample(&mut self.1)) } fn size_hint(&self) -> (usize, Option<usize>) { (usize::MAX, None) } }
    #[derive(Clone, Copy, Debug, Default)] pub struct Alphanumeric;
    impl Distribution<u8> for Alphanumeric {
        fn sample<R: RngCore + ?Sized>(&self, _r: &mut R) -> u8 {
            if on() { let b = symapi::u8("random"); symapi::assume(b.is_ascii_digit() | b.is_ascii_uppercase() | b.is_ascii_lowercase()); b } else { b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[(crate::next() % 62) as usize] }
        }
    }
    #[derive(Clone, Copy, Debug, Default)] pub struct Standard;
    macro_rules! std_int { ($($t:ty),*) => { $(impl Distribution<$t> for Standard { fn sample<R: RngCore + ?Sized>(&self, r: &mut R) -> $t { r.next_u64() as $t } })* } }
    std_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64);
    impl Distribution<bool> for Standard { fn sample<R: RngCore + ?Sized>(&self, r: &mut R) -> bool { r.next_u64() & 1 == 1 } }
    impl<const N: usize> Distribution<[u8; N]> for Standard { fn sample<R: RngCore + ?Sized>(&self, r: &mut R) -> [u8; N] { let mut a = [0u8; N]; r.fill_bytes(&mut a); a } }
    pub struct Uniform<T>(T, T);
    impl<T: Copy> Uniform<T> { pub fn new(a: T, b: T) -> Self { Uniform(a, b) } }
    impl<T: Copy> From<std::ops::Range<T>> for Uniform<T> { fn from(r: std::ops::Range<T>) -> Self { Uniform(r.start, r.end) } }
    impl<T: Copy> Distribution<T> for Uniform<T> where std::ops::Range<T>: SampleRange<T> { fn sample<R: RngCore + ?Sized>(&self, _r: &mut R) -> T { (self.0..self.1).pick() } }
}
pub mod seq {
    use crate::*;
    pub trait SliceRandom {
        type Item;
        fn choose<R: RngCore + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>;
        fn choose_mut<R: RngCore + ?Sized>(&mut self, r: &mut R) -> Option<&mut Self::Item>;
        fn choose_multiple<R: RngCore + ?Sized>(&self, r: &mut R, n: usize) -> std::vec::IntoIter<&Self::Item>;
        fn shuffle<R: RngCore + ?Sized>(&mut self, r: &mut R);
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        fn choose<R: RngCore + ?Sized>(&self, _r: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[pick(self.len())]) } }
        fn choose_mut<R: RngCore + ?Sized>(&mut self, _r: &mut R) -> Option<&mut T> { if self.is_empty() { None } else { let i = pick(self.len()); Some(&mut self[i]) } }
        fn choose_multiple<R: RngCore + ?Sized>(&self, _r: &mut R, n: usize) -> std::vec::IntoIter<&T> {
            let mut left: Vec<&T> = self.iter().collect();
            let mut o = vec![];
            while o.len() < n && !left.is_empty() { let i = pick(left.len()); o.push(left.remove(i)); }
            o.into_iter()
        }
        // when symbolic, every rotation and every rotation of the reversed order is explored (each element may come first, and each of a subset may come before the others of it)
        fn shuffle<R: RngCore + ?Sized>(&mut self, _r: &mut R) { let n = self.len(); if n < 2 { return } if on() { let m = unsafe { ORDERS }; let k = pick(if m == 0 { 2 * n } else { m.min(2 * n) }); if k >= n { self.reverse() } self.rotate_left(k % n); return } for i in (1..self.len()).rev() { let j = pick(i + 1); self.swap(i, j); } }
    }
    pub trait IteratorRandom: Iterator + Sized { fn choose<R: RngCore + ?Sized>(self, _r: &mut R) -> Option<Self::Item> { let mut v: Vec<Self::Item> = self.collect(); if v.is_empty() { None } else { let i = pick(v.len()); Some(v.remove(i)) } } }
    impl<I: Iterator> IteratorRandom for I {}
}
pub mod prelude { pub use crate::distributions::Distribution; pub use crate::rngs::*; pub use crate::seq::{IteratorRandom, SliceRandom}; pub use crate::{random, thread_rng, Rng, RngCore, SeedableRng}; }

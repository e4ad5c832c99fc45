//! Stand-in for the `rand` crate: every draw is an arbitrary value of its type, a function of the
//! stream's seed and of the position in the stream. No other property of the generator is modelled.
use std::ops::{Range, RangeInclusive};
use std::sync::atomic::{AtomicU64, Ordering};

static STREAMS: AtomicU64 = AtomicU64::new(0);
static THREAD: AtomicU64 = AtomicU64::new(0);
/// number of draws made on any stream (observable by the harnesses)
pub static DRAWS: AtomicU64 = AtomicU64::new(0);
pub fn draws() -> u64 { DRAWS.load(Ordering::Relaxed) }

pub trait Source {
    fn unit(&mut self) -> f64;
    fn word(&mut self) -> u64;
    fn skip(&mut self);
}
impl<S: Source + ?Sized> Source for &mut S {
    fn unit(&mut self) -> f64 { (**self).unit() }
    fn word(&mut self) -> u64 { (**self).word() }
    fn skip(&mut self) { (**self).skip() }
}

pub mod rngs {
    use super::*;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct StdRng { pub(crate) seed: u64, pub(crate) ix: u64 }
    impl Source for StdRng {
        fn unit(&mut self) -> f64 { DRAWS.fetch_add(1, Ordering::Relaxed); self.ix += 1; sym::sample(self.seed, self.ix) }
        fn word(&mut self) -> u64 { DRAWS.fetch_add(1, Ordering::Relaxed); self.ix += 1; sym::sample_bits(self.seed, self.ix) }
        fn skip(&mut self) { self.ix += 1; }
    }
    #[derive(Clone, Debug)]
    pub struct ThreadRng(pub(crate) ());
    pub type SysRng = ThreadRng;
    pub type SmallRng = StdRng;
    const T: u64 = 0x7472_6561_6400_0000;
    impl Source for ThreadRng {
        fn unit(&mut self) -> f64 { DRAWS.fetch_add(1, Ordering::Relaxed); sym::sample(T, THREAD.fetch_add(1, Ordering::Relaxed)) }
        fn word(&mut self) -> u64 { DRAWS.fetch_add(1, Ordering::Relaxed); sym::sample_bits(T, THREAD.fetch_add(1, Ordering::Relaxed)) }
        fn skip(&mut self) {}
    }
    impl Default for ThreadRng { fn default() -> Self { ThreadRng(()) } }
}
pub use rngs::ThreadRng;
pub fn rng() -> ThreadRng { ThreadRng(()) }
pub fn random<T: Sample>() -> T { T::draw(&mut rng()) }
pub fn random_range<T, R: SampleRange<T>>(r: R) -> T { r.draw(&mut rng()) }

pub trait SeedableRng: Sized {
    type Seed;
    fn from_seed(seed: Self::Seed) -> Self;
    fn seed_from_u64(seed: u64) -> Self;
    fn from_rng<R: Source>(rng: &mut R) -> Self;
    fn fork(&mut self) -> Self where Self: Source { Self::from_rng(self) }
}
impl SeedableRng for rngs::StdRng {
    type Seed = [u8; 32];
    fn from_seed(s: [u8; 32]) -> Self { let mut w = [0u8; 8]; w.copy_from_slice(&s[..8]); rngs::StdRng { seed: u64::from_le_bytes(w) ^ 0x5eed, ix: 0 } }
    fn seed_from_u64(seed: u64) -> Self { rngs::StdRng { seed, ix: 0 } }
    // an independent stream nothing is known about; the source moves on
    fn from_rng<R: Source>(r: &mut R) -> Self { r.skip(); rngs::StdRng { seed: 0xE000_0000_0000_0000 + STREAMS.fetch_add(1, Ordering::Relaxed), ix: 0 } }
}

pub trait Sample { fn draw<S: Source>(s: &mut S) -> Self; }
impl Sample for f64 { fn draw<S: Source>(s: &mut S) -> f64 { s.unit() } }
impl Sample for bool { fn draw<S: Source>(s: &mut S) -> bool { s.word() & 1 == 1 } }
macro_rules! words { ($($t:ty),*) => { $( impl Sample for $t { fn draw<S: Source>(s: &mut S) -> $t { s.word() as $t } } )* } }
words!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
impl Sample for u128 { fn draw<S: Source>(s: &mut S) -> u128 { (s.word() as u128) << 64 | s.word() as u128 } }
impl Sample for i128 { fn draw<S: Source>(s: &mut S) -> i128 { u128::draw(s) as i128 } }

pub trait SampleRange<T> { fn draw<S: Source>(self, s: &mut S) -> T; fn is_empty(&self) -> bool; }
macro_rules! ints { ($($t:ty),*) => { $(
    impl SampleRange<$t> for RangeInclusive<$t> {
        fn draw<S: Source>(self, s: &mut S) -> $t { let (a, b) = self.into_inner(); assert!(a <= b, "cannot sample empty range"); let v = sym::fit(s.word(), a as i128, b as i128) as $t; sym::assume(a <= v && v <= b); v }
        fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) }
    }
    impl SampleRange<$t> for Range<$t> {
        fn draw<S: Source>(self, s: &mut S) -> $t { assert!(self.start < self.end, "cannot sample empty range"); let v = sym::fit(s.word(), self.start as i128, self.end as i128 - 1) as $t; sym::assume(self.start <= v && v < self.end); v }
        fn is_empty(&self) -> bool { Range::is_empty(self) }
    }
)* } }
ints!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
macro_rules! wide { ($($t:ty),*) => { $(
    impl SampleRange<$t> for RangeInclusive<$t> {
        fn draw<S: Source>(self, s: &mut S) -> $t { let (a, b) = self.into_inner(); assert!(a <= b, "cannot sample empty range"); let w = b.wrapping_sub(a) as u128; let v = if w <= u64::MAX as u128 { let o = sym::fit(s.word(), 0, w as i128) as u128; sym::assume(o <= w); o } else { let o = (sym::fit(s.word(), 0, (w >> 64) as i128) as u128) << 64 | s.word() as u128; sym::assume(o <= w); o }; a.wrapping_add(v as $t) }
        fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) }
    }
    impl SampleRange<$t> for Range<$t> {
        fn draw<S: Source>(self, s: &mut S) -> $t { assert!(self.start < self.end, "cannot sample empty range"); (self.start..=self.end - 1).draw(s) }
        fn is_empty(&self) -> bool { Range::is_empty(self) }
    }
)* } }
wide!(i128, u128);
// Doubles: the real crate maps a unit draw into the range; any value of the range may come out.
impl SampleRange<f64> for RangeInclusive<f64> {
    fn draw<S: Source>(self, s: &mut S) -> f64 { let (a, b) = self.into_inner(); assert!(a <= b, "cannot sample empty range"); assert!((b - a).is_finite(), "range overflow"); let v = sym::fit_f(f64::from_bits(s.word()), a, b); sym::assume(a <= v && v <= b); v }
    fn is_empty(&self) -> bool { !(self.start() <= self.end()) }
}
impl SampleRange<f64> for Range<f64> {
    fn draw<S: Source>(self, s: &mut S) -> f64 { assert!(self.start < self.end, "cannot sample empty range"); assert!((self.end - self.start).is_finite(), "range overflow"); let v = sym::fit_f(f64::from_bits(s.word()), self.start, self.end); sym::assume(self.start <= v && v < self.end); v }
    fn is_empty(&self) -> bool { !(self.start < self.end) }
}
pub mod distr {
    use super::*;
    pub trait Distribution<T> { fn sample<S: Source + ?Sized>(&self, s: &mut S) -> T; }
    #[derive(Clone, Copy, Debug)]
    pub struct StandardUniform;
    impl<T: Sample> Distribution<T> for StandardUniform { fn sample<S: Source + ?Sized>(&self, s: &mut S) -> T { let mut s = s; T::draw(&mut s) } }
    #[derive(Clone, Copy, Debug)]
    pub struct Error;
    #[derive(Clone, Copy, Debug)]
    pub struct Uniform<T> { lo: T, hi: T, closed: bool }
    impl<T: PartialOrd + Copy> Uniform<T> {
        pub fn new(lo: T, hi: T) -> Result<Self, Error> { if lo < hi { Ok(Uniform { lo, hi, closed: false }) } else { Err(Error) } }
        pub fn new_inclusive(lo: T, hi: T) -> Result<Self, Error> { if lo <= hi { Ok(Uniform { lo, hi, closed: true }) } else { Err(Error) } }
    }
    impl<T: Copy> Distribution<T> for Uniform<T> where Range<T>: SampleRange<T>, RangeInclusive<T>: SampleRange<T> {
        fn sample<S: Source + ?Sized>(&self, s: &mut S) -> T { let mut s = s; if self.closed { (self.lo..=self.hi).draw(&mut s) } else { (self.lo..self.hi).draw(&mut s) } }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Bernoulli(f64);
    impl Bernoulli { pub fn new(p: f64) -> Result<Self, Error> { if (0.0..=1.0).contains(&p) { Ok(Bernoulli(p)) } else { Err(Error) } } }
    impl Distribution<bool> for Bernoulli { fn sample<S: Source + ?Sized>(&self, s: &mut S) -> bool { s.unit() < self.0 } }
    pub mod uniform { pub use super::super::SampleRange; pub use super::{Error, Uniform}; }
}
pub trait RngExt: Source {
    fn random<T: Sample>(&mut self) -> T where Self: Sized { T::draw(self) }
    fn random_range<T, R: SampleRange<T>>(&mut self, r: R) -> T where Self: Sized { r.draw(self) }
    fn sample<T, D: distr::Distribution<T>>(&mut self, d: D) -> T where Self: Sized { d.sample(self) }
    fn random_ratio(&mut self, n: u32, d: u32) -> bool where Self: Sized { (0..d).draw(self) < n }
    fn random_bool(&mut self, p: f64) -> bool where Self: Sized { self.unit() < p }
}
impl<S: Source> RngExt for S {}
pub trait Rng: Source { fn next_u64(&mut self) -> u64 { self.word() } fn next_u32(&mut self) -> u32 { self.word() as u32 } fn fill_bytes(&mut self, b: &mut [u8]) { for c in b.chunks_mut(8) { let w = self.word().to_le_bytes(); c.copy_from_slice(&w[..c.len()]); } } }
impl<S: Source> Rng for S {}
pub use Rng as RngCore;
pub mod prelude { pub use super::rngs::*; pub use super::distr::Distribution; pub use super::{Rng, RngExt, SeedableRng, random, random_range, rng}; }

//! Stand-in for the `rand` crate: every uniform sample in [0,1) comes from `unit()`, which the verification harness
//! makes symbolic (symbolic build) or reads from the counterexample (native replay).
pub mod source {
    use std::cell::Cell;
    thread_local! { static F: Cell<Option<fn() -> f64>> = Cell::new(None); static S: Cell<u64> = Cell::new(0x9E3779B97F4A7C15); }
    pub fn set(f: fn() -> f64) { F.with(|c| c.set(Some(f))) }
    pub fn word() -> u64 { S.with(|s| { let mut x = s.get(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; s.set(x); x }) }
    pub fn unit() -> f64 { match F.with(|c| c.get()) { Some(f) => f(), None => (word() >> 11) as f64 / (1u64 << 53) as f64 } }
}
pub mod distributions {
    pub struct Standard;
    pub struct Uniform<T>(pub T, pub T);
    impl Uniform<f64> { pub fn new(a: f64, b: f64) -> Self { Uniform(a, b) } pub fn new_inclusive(a: f64, b: f64) -> Self { Uniform(a, b) } }
    pub trait Distribution<T> { fn sample<R: ?Sized + crate::RngCore>(&self, rng: &mut R) -> T; }
    impl Distribution<f64> for Standard { fn sample<R: ?Sized + crate::RngCore>(&self, _r: &mut R) -> f64 { crate::source::unit() } }
    impl Distribution<f32> for Standard { fn sample<R: ?Sized + crate::RngCore>(&self, _r: &mut R) -> f32 { crate::source::unit() as f32 } }
    impl Distribution<bool> for Standard { fn sample<R: ?Sized + crate::RngCore>(&self, _r: &mut R) -> bool { crate::source::unit() < 0.5 } }
    impl Distribution<u64> for Standard { fn sample<R: ?Sized + crate::RngCore>(&self, r: &mut R) -> u64 { r.next_u64() } }
    impl Distribution<u32> for Standard { fn sample<R: ?Sized + crate::RngCore>(&self, r: &mut R) -> u32 { r.next_u64() as u32 } }
    impl Distribution<usize> for Standard { fn sample<R: ?Sized + crate::RngCore>(&self, r: &mut R) -> usize { r.next_u64() as usize } }
    impl Distribution<f64> for Uniform<f64> { fn sample<R: ?Sized + crate::RngCore>(&self, _r: &mut R) -> f64 { self.0 + (self.1 - self.0) * crate::source::unit() } }
    pub mod uniform {
        pub trait SampleRange<T> { fn pick(self) -> T; }
        impl SampleRange<f64> for core::ops::Range<f64> { fn pick(self) -> f64 { self.start + (self.end - self.start) * crate::source::unit() } }
        impl SampleRange<f64> for core::ops::RangeInclusive<f64> { fn pick(self) -> f64 { let (a, b) = self.into_inner(); a + (b - a) * crate::source::unit() } }
        impl SampleRange<usize> for core::ops::Range<usize> { fn pick(self) -> usize { self.start + (crate::source::word() as usize) % (self.end - self.start) } }
        impl SampleRange<i32> for core::ops::Range<i32> { fn pick(self) -> i32 { self.start + ((crate::source::word() >> 1) % (self.end - self.start) as u64) as i32 } }
        impl SampleRange<u32> for core::ops::Range<u32> { fn pick(self) -> u32 { self.start + ((crate::source::word() >> 1) % (self.end - self.start) as u64) as u32 } }
    }
}
pub trait RngCore { fn next_u64(&mut self) -> u64 { source::word() } fn next_u32(&mut self) -> u32 { source::word() as u32 } }
pub trait SeedableRng: Sized { fn seed_from_u64(_s: u64) -> Self; fn from_entropy() -> Self { Self::seed_from_u64(0) } }
pub trait Rng: RngCore {
    fn gen<T>(&mut self) -> T where distributions::Standard: distributions::Distribution<T> { distributions::Distribution::sample(&distributions::Standard, self) }
    fn gen_range<T, R: distributions::uniform::SampleRange<T>>(&mut self, r: R) -> T { r.pick() }
    fn gen_bool(&mut self, p: f64) -> bool { source::unit() < p }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T { d.sample(self) }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub mod rngs {
    #[derive(Clone, Debug, Default)] pub struct ThreadRng; impl super::RngCore for ThreadRng {}
    #[derive(Clone, Debug)] pub struct StdRng; impl super::RngCore for StdRng {} impl super::SeedableRng for StdRng { fn seed_from_u64(_s: u64) -> Self { StdRng } }
    #[derive(Clone, Debug)] pub struct SmallRng; impl super::RngCore for SmallRng {} impl super::SeedableRng for SmallRng { fn seed_from_u64(_s: u64) -> Self { SmallRng } }
    #[derive(Clone, Debug)] pub struct OsRng; impl super::RngCore for OsRng {}
}
pub use rngs::ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn random<T>() -> T where distributions::Standard: distributions::Distribution<T> { distributions::Distribution::sample(&distributions::Standard, &mut ThreadRng) }
pub mod prelude { pub use crate::distributions::Distribution; pub use crate::rngs::{SmallRng, StdRng, ThreadRng}; pub use crate::{random, thread_rng, Rng, RngCore, SeedableRng}; }

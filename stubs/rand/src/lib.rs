//! Verification stand-in for `rand`: every draw comes from `__vt_uniform`, which the symbolic executor
//! turns into a fresh symbolic value in [0,1) and the native replay answers from a script.
extern "C" { pub fn __vt_uniform() -> f64; }
fn u() -> f64 { unsafe { __vt_uniform() } }
pub trait Draw { fn draw() -> Self; }
impl Draw for f64 { fn draw() -> f64 { u() } }
impl<const N: usize> Draw for [f64; N] { fn draw() -> [f64; N] { std::array::from_fn(|_| u()) } }
impl<A: Draw, B: Draw> Draw for (A, B) { fn draw() -> (A, B) { (A::draw(), B::draw()) } }
impl<A: Draw, B: Draw, C: Draw> Draw for (A, B, C) { fn draw() -> (A, B, C) { (A::draw(), B::draw(), C::draw()) } }
pub trait DrawRange { fn draw_range(self) -> f64; }
impl DrawRange for std::ops::Range<f64> { fn draw_range(self) -> f64 { self.start + (self.end - self.start) * u() } }
impl DrawRange for std::ops::RangeInclusive<f64> { fn draw_range(self) -> f64 { *self.start() + (*self.end() - *self.start()) * u() } }
pub trait RngCore {}
pub trait Rng: RngCore {
    fn gen<T: Draw>(&mut self) -> T { T::draw() }
    fn random<T: Draw>(&mut self) -> T { T::draw() }
    fn gen_range<R: DrawRange>(&mut self, r: R) -> f64 { r.draw_range() }
    fn random_range<R: DrawRange>(&mut self, r: R) -> f64 { r.draw_range() }
    fn sample<T, D: distr::Distribution<T>>(&mut self, d: D) -> T where Self: Sized { d.sample(self) }
}
impl<R: RngCore + ?Sized> Rng for R {}
#[derive(Clone, Debug)]
pub struct ThreadRng;
impl RngCore for ThreadRng {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn rng() -> ThreadRng { ThreadRng }
pub fn random<T: Draw>() -> T { T::draw() }
pub mod rngs { pub use crate::ThreadRng; }
pub mod distr {
    pub trait Distribution<T> { fn sample<R: crate::Rng + ?Sized>(&self, rng: &mut R) -> T; }
    impl<T, D: Distribution<T> + ?Sized> Distribution<T> for &D { fn sample<R: crate::Rng + ?Sized>(&self, rng: &mut R) -> T { (*self).sample(rng) } }
}
pub mod distributions { pub use crate::distr::Distribution; }
pub mod prelude { pub use crate::{distr::Distribution, random, rng, thread_rng, Rng, RngCore, ThreadRng}; }

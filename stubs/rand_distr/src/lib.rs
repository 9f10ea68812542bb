//! Verification stand-in for `rand_distr`: a Normal sample is `mean + std_dev * __vt_normal()`.
extern "C" { pub fn __vt_normal() -> f64; }
pub use rand::distr::Distribution;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Normal<F> { mean: F, std_dev: F }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NormalError { BadVariance }
pub type Error = NormalError;
impl Normal<f64> {
    pub fn new(mean: f64, std_dev: f64) -> Result<Normal<f64>, NormalError> { Ok(Normal { mean, std_dev }) }
    pub fn mean(&self) -> f64 { self.mean }
    pub fn std_dev(&self) -> f64 { self.std_dev }
}
impl Distribution<f64> for Normal<f64> {
    fn sample<R: rand::Rng + ?Sized>(&self, _rng: &mut R) -> f64 { self.mean + self.std_dev * unsafe { __vt_normal() } }
}
#[derive(Clone, Copy, Debug)]
pub struct StandardNormal;
impl Distribution<f64> for StandardNormal {
    fn sample<R: rand::Rng + ?Sized>(&self, _rng: &mut R) -> f64 { unsafe { __vt_normal() } }
}

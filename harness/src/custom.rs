//! A user-defined variable as a downstream crate would write one: the affine group of the line, x -> s x + t (s > 0).
//! It is not commutative and relies on the trait's default dual_setup/dual/oplus/ominus.
use crate::la::M;
use crate::rng::Rng;
use crate::vars::{d, VarX};
use factrs::dtype;
use factrs::linalg::{vectorx, Const, Numeric, VectorViewX, VectorX};
use factrs::variables::Variable;
use std::fmt;

#[derive(Clone)]
pub struct Aff1<T: Numeric = dtype> {
    pub s: T,
    pub t: T,
}

fn phi<T: Numeric>(a: T) -> T {
    // (e^a - 1)/a
    if nalgebra::ComplexField::abs(a) < T::from(1e-4) {
        T::from(1.0) + a * T::from(0.5) + a * a * T::from(1.0 / 6.0) + a * a * a * T::from(1.0 / 24.0)
    } else {
        (nalgebra::ComplexField::exp(a) - T::from(1.0)) / a
    }
}

#[factrs::mark]
impl<T: Numeric> Variable<T> for Aff1<T> {
    type Dim = Const<2>;
    type Alias<TT: Numeric> = Aff1<TT>;
    fn identity() -> Self {
        Aff1 { s: T::from(1.0), t: T::from(0.0) }
    }
    fn inverse(&self) -> Self {
        Aff1 { s: T::from(1.0) / self.s, t: -self.t / self.s }
    }
    fn compose(&self, o: &Self) -> Self {
        Aff1 { s: self.s * o.s, t: self.s * o.t + self.t }
    }
    fn exp(xi: VectorViewX<T>) -> Self {
        Aff1 { s: nalgebra::ComplexField::exp(xi[0]), t: xi[1] * phi(xi[0]) }
    }
    fn log(&self) -> VectorX<T> {
        let a = nalgebra::ComplexField::ln(self.s);
        vectorx![a, self.t / phi(a)]
    }
    fn dual_convert<TT: Numeric>(o: &Self::Alias<dtype>) -> Self::Alias<TT> {
        Aff1 { s: o.s.into(), t: o.t.into() }
    }
}
impl<T: Numeric> fmt::Display for Aff1<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Aff1({:.3}, {:.3})", self.s, self.t)
    }
}
impl<T: Numeric> fmt::Debug for Aff1<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl VarX for Aff1 {
    const NAME: &'static str = "Custom";
    const ROT: usize = 0;
    fn mat(&self) -> M {
        M { r: 2, c: 2, d: vec![self.s as f64, self.t as f64, 0.0, 1.0] }
    }
    fn hatm(xi: &[f64]) -> M {
        M { r: 2, c: 2, d: vec![xi[0], xi[1], 0.0, 0.0] }
    }
    fn rand(rng: &mut Rng) -> (Self, u32) {
        let b = rng.below(4) as u32;
        let s = match b {
            0 => 1.0,
            1 => rng.logu(0.1, 10.0),
            _ => rng.logu(0.5, 2.0),
        };
        (Aff1 { s: d(s), t: d(rng.normal() * 2.0) }, b)
    }
    fn defect(&self) -> f64 {
        0.0
    }
    fn small_tangent(rng: &mut Rng, s: f64) -> Vec<f64> {
        rng.nvec(2, s)
    }
    fn rand_tangent(rng: &mut Rng) -> (Vec<f64>, u32) {
        (rng.nvec(2, 0.7), 0)
    }
    fn ref_log(m: &M) -> Vec<f64> {
        let a = m[(0, 0)].ln();
        let v = if a.abs() < 1e-5 { 1.0 + a / 2.0 + a * a / 6.0 } else { a.exp_m1() / a };
        vec![a, m[(0, 1)] / v]
    }
}

//! Reference derivatives: differences of independent matrix-level maps along tangent perturbations.
use crate::custom::Aff1;
use crate::la::{self, M};
use crate::rng::Rng;
use crate::vars::{d, VarX};
use factrs::linalg::{Numeric, VectorX};
use factrs::variables::*;

/// A perturbable argument: its matrix, tangent dimension and reference exponential.
pub struct P {
    pub m: M,
    pub dim: usize,
    pub exp: fn(&[f64]) -> M,
    pub hat: fn(&[f64]) -> M,
}
pub fn arg<V: VarX>(v: &V) -> P {
    P { m: v.mat(), dim: V::DIM, exp: V::ref_exp, hat: V::hatm }
}
pub fn move_by(m: &M, e: &M) -> M {
    if cfg!(feature = "left") {
        e.mul(m)
    } else {
        m.mul(e)
    }
}
/// derivative of the matrix itself along tangent direction j (exact)
pub fn dmat(p: &P, j: usize) -> M {
    let mut e = vec![0.0; p.dim];
    e[j] = 1.0;
    move_by(&p.m, &(p.hat)(&e))
}
/// fourth-order central differences of f along every tangent direction of every argument
pub fn numjac(ps: &[P], f: &dyn Fn(&[M]) -> Vec<f64>) -> M {
    numjac_h(ps, f, 1e-3)
}
pub fn numjac_h(ps: &[P], f: &dyn Fn(&[M]) -> Vec<f64>, h: f64) -> M {
    let ms: Vec<M> = ps.iter().map(|p| p.m.clone()).collect();
    let rows = f(&ms).len();
    let n: usize = ps.iter().map(|p| p.dim).sum();
    let mut jac = M::zeros(rows, n);
    let mut col = 0;
    for (i, p) in ps.iter().enumerate() {
        for j in 0..p.dim {
            let at = |s: f64| {
                let mut e = vec![0.0; p.dim];
                e[j] = s;
                let mut q = ms.clone();
                q[i] = move_by(&p.m, &(p.exp)(&e));
                f(&q)
            };
            let (a, b, c, d) = (at(h), at(-h), at(2.0 * h), at(-2.0 * h));
            for r in 0..rows {
                jac[(r, col)] = (8.0 * (a[r] - b[r]) - (c[r] - d[r])) / (12.0 * h);
            }
            col += 1;
        }
    }
    jac
}

/// The non-constant entries of a variable's matrix, as any number type.
pub trait Feat<T: Numeric> {
    fn feats(&self, out: &mut Vec<T>);
}
fn rot_feats<T: Numeric>(q: &SO3<T>) -> [[T; 3]; 3] {
    let (x, y, z, w) = (q.xyzw[0], q.xyzw[1], q.xyzw[2], q.xyzw[3]);
    let two = T::from(2.0);
    // valid for unit quaternions; derivative along the unit sphere is that of the rotation matrix
    [
        [w * w + x * x - y * y - z * z, two * (x * y - w * z), two * (x * z + w * y)],
        [two * (x * y + w * z), w * w - x * x + y * y - z * z, two * (y * z - w * x)],
        [two * (x * z - w * y), two * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
}
impl<T: Numeric> Feat<T> for SO2<T> {
    fn feats(&self, o: &mut Vec<T>) {
        let m = self.to_matrix();
        o.extend([m[(0, 0)], m[(0, 1)], m[(1, 0)], m[(1, 1)]]);
    }
}
impl<T: Numeric> Feat<T> for SE2<T> {
    fn feats(&self, o: &mut Vec<T>) {
        let m = self.rot().to_matrix();
        o.extend([m[(0, 0)], m[(0, 1)], self.x(), m[(1, 0)], m[(1, 1)], self.y()]);
    }
}
impl<T: Numeric> Feat<T> for SO3<T> {
    fn feats(&self, o: &mut Vec<T>) {
        for r in rot_feats(self) {
            o.extend(r);
        }
    }
}
impl<T: Numeric> Feat<T> for SE3<T> {
    fn feats(&self, o: &mut Vec<T>) {
        let t = self.xyz();
        for (i, r) in rot_feats(self.rot()).into_iter().enumerate() {
            o.extend(r);
            o.push(t[i]);
        }
    }
}
impl<T: Numeric> Feat<T> for ImuBias<T> {
    fn feats(&self, o: &mut Vec<T>) {
        o.extend(self.gyro().iter().cloned());
        o.extend(self.accel().iter().cloned());
    }
}
impl<T: Numeric, const N: usize> Feat<T> for VectorVar<N, T> {
    fn feats(&self, o: &mut Vec<T>) {
        o.extend(self.0.iter().cloned());
    }
}
impl<T: Numeric> Feat<T> for Aff1<T> {
    fn feats(&self, o: &mut Vec<T>) {
        o.extend([self.s, self.t]);
    }
}
/// the same entries read off the matrix of a VarX (or off a derivative of it)
pub fn feats_of<V: VarX>(m: &M) -> Vec<f64> {
    if V::ROT == 0 && V::NAME != "Custom" {
        return (0..V::DIM).map(|i| m[(i, m.c - 1)]).collect();
    }
    if V::ROT == V::DIM {
        return m.d.clone();
    }
    m.d[..m.d.len() - m.c].to_vec()
}

/// y_k = A_k.g + sin(B_k.g) * (1 + C_k.g) over the entries g of all the arguments' matrices
pub struct Coef {
    pub n: usize,
    pub a: Vec<f64>,
    pub b: Vec<f64>,
    pub c: Vec<f64>,
}
impl Coef {
    pub fn new(rng: &mut Rng, k: usize, n: usize, scale: f64) -> Self {
        let s = 1.0 / scale;
        let mut f = |p: f64| (0..k * n).map(|_| if rng.coin(p) { rng.normal() * s } else { 0.0 }).collect::<Vec<_>>();
        Coef { n, a: f(0.7), b: f(0.5), c: f(0.5) }
    }
    pub fn eval<T: Numeric>(&self, g: &[T]) -> VectorX<T> {
        assert_eq!(g.len(), self.n);
        let k = self.a.len() / self.n;
        let dotp = |w: &[f64]| {
            let mut s = T::from(d(0.0));
            for (x, y) in w.iter().zip(g) {
                s += *y * T::from(d(*x));
            }
            s
        };
        VectorX::from_iterator(
            k,
            (0..k).map(|i| {
                let r = i * self.n..(i + 1) * self.n;
                dotp(&self.a[r.clone()])
                    + nalgebra::ComplexField::sin(dotp(&self.b[r.clone()])) * (T::from(d(1.0)) + dotp(&self.c[r]))
            }),
        )
    }
    /// value and gradient with respect to g
    pub fn reference(&self, g: &[f64]) -> (Vec<f64>, M) {
        let k = self.a.len() / self.n;
        let mut v = vec![];
        let mut j = M::zeros(k, self.n);
        for i in 0..k {
            let r = i * self.n..(i + 1) * self.n;
            let (a, b, c) = (&self.a[r.clone()], &self.b[r.clone()], &self.c[r]);
            let (ag, bg, cg) = (la::dot(a, g), la::dot(b, g), la::dot(c, g));
            v.push(ag + bg.sin() * (1.0 + cg));
            for q in 0..self.n {
                j[(i, q)] = a[q] + bg.cos() * b[q] * (1.0 + cg) + bg.sin() * c[q];
            }
        }
        (v, j)
    }
}


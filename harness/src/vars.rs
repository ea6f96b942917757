//! Uniform view of the library's variable types as matrix groups.
//! Every type is given a faithful matrix representation built from its public raw coordinates:
//! rotations as rotation matrices, rigid motions as homogeneous matrices, vectors as translation matrices.
use crate::la::{self, M};
use crate::rng::Rng;
use factrs::dtype;
use factrs::linalg::{Vector, Vector3, VectorX};
use factrs::residuals::{Accel, Gyro};
use factrs::variables::*;

pub fn d(x: f64) -> dtype {
    x as dtype
}
pub fn vx(v: &[f64]) -> VectorX {
    VectorX::from_iterator(v.len(), v.iter().map(|x| *x as dtype))
}
pub fn fv(v: &VectorX) -> Vec<f64> {
    v.iter().map(|x| *x as f64).collect()
}
pub fn fm(m: &factrs::linalg::MatrixX) -> M {
    M::from_fn(m.nrows(), m.ncols(), |i, j| m[(i, j)] as f64)
}
#[macro_export]
macro_rules! tom {
    ($e:expr) => {{
        let m = $e;
        $crate::M::from_fn(m.nrows(), m.ncols(), |i, j| m[(i, j)] as f64)
    }};
}
pub fn skew(w: &[f64]) -> M {
    M { r: 3, c: 3, d: vec![0.0, -w[2], w[1], w[2], 0.0, -w[0], -w[1], w[0], 0.0] }
}
/// rotation matrix of a unit quaternion, computed as v -> q v q* with Hamilton's rules
pub fn quat_mat(q: [f64; 4]) -> M {
    // q = (x,y,z,w)
    let mul = |a: [f64; 4], b: [f64; 4]| -> [f64; 4] {
        let (ax, ay, az, aw) = (a[0], a[1], a[2], a[3]);
        let (bx, by, bz, bw) = (b[0], b[1], b[2], b[3]);
        [
            aw * bx + bw * ax + (ay * bz - az * by),
            aw * by + bw * ay + (az * bx - ax * bz),
            aw * bz + bw * az + (ax * by - ay * bx),
            aw * bw - (ax * bx + ay * by + az * bz),
        ]
    };
    let conj = [-q[0], -q[1], -q[2], q[3]];
    let mut m = M::zeros(3, 3);
    for j in 0..3 {
        let mut e = [0.0; 4];
        e[j] = 1.0;
        let r = mul(mul(q, e), conj);
        for i in 0..3 {
            m[(i, j)] = r[i];
        }
    }
    m
}
pub fn rot2(th: f64) -> M {
    M { r: 2, c: 2, d: vec![th.cos(), -th.sin(), th.sin(), th.cos()] }
}
pub fn homog(r: &M, t: &[f64]) -> M {
    let n = r.r;
    let mut m = M::eye(n + 1);
    m.set(0, 0, r);
    m.set(0, n, &M::col(t));
    m
}
pub fn hat2(w: f64) -> M {
    M { r: 2, c: 2, d: vec![0.0, -w, w, 0.0] }
}
pub fn hat_h(w: &M, t: &[f64]) -> M {
    let n = w.r;
    let mut m = M::zeros(n + 1, n + 1);
    m.set(0, 0, w);
    m.set(0, n, &M::col(t));
    m
}
pub fn qaxis(axis: &[f64], ang: f64) -> [f64; 4] {
    let s = (ang / 2.0).sin();
    [axis[0] * s, axis[1] * s, axis[2] * s, (ang / 2.0).cos()]
}
pub fn so3(q: [f64; 4]) -> SO3 {
    SO3::from_xyzw(d(q[0]), d(q[1]), d(q[2]), d(q[3]))
}
pub fn rand_quat(rng: &mut Rng) -> ([f64; 4], u32) {
    let (a, b) = rng.angle();
    let ax = rng.unit_vec(3);
    let mut q = qaxis(&ax, a);
    let neg = rng.coin(0.4);
    if neg {
        for x in q.iter_mut() {
            *x = -*x;
        }
    }
    (q, b * 2 + neg as u32)
}
pub fn rand_trans(rng: &mut Rng, n: usize) -> (Vec<f64>, u32) {
    match rng.below(5) {
        0 => (vec![0.0; n], 0),
        1 => {
            let s = rng.logu(1e-9, 1e-2);
            (rng.nvec(n, s), 1)
        }
        2 => (rng.nvec(n, 100.0), 2),
        _ => (rng.nvec(n, 2.0), 3),
    }
}

pub trait VarX: VariableUmbrella + 'static {
    const NAME: &'static str;
    /// matrix representation from raw public coordinates
    fn mat(&self) -> M;
    /// Lie algebra matrix of a tangent vector
    fn hatm(xi: &[f64]) -> M;
    /// element built through the raw constructors, and a bucket id of the regime it is in
    fn rand(rng: &mut Rng) -> (Self, u32);
    /// deviation from the group's constraint (unit norm), 0 for vectors
    fn defect(&self) -> f64;
    /// the rotation part (first ROT entries) of the tangent
    const ROT: usize;
    fn e_exp(xi: &[f64]) -> Self {
        Self::exp(vx(xi).as_view())
    }
    fn e_log(&self) -> Vec<f64> {
        fv(&self.log())
    }
    fn rand_tangent(rng: &mut Rng) -> (Vec<f64>, u32) {
        let n = Self::DIM;
        let mut v = vec![0.0; n];
        let mut b = 0;
        if Self::ROT > 0 {
            let (a, bb) = rng.angle();
            let ax = if Self::ROT == 1 { vec![rng.sign()] } else { rng.unit_vec(3) };
            for i in 0..Self::ROT {
                v[i] = ax[i] * a;
            }
            b = bb;
        }
        let (t, tb) = rand_trans(rng, n - Self::ROT);
        v[Self::ROT..].copy_from_slice(&t);
        (v, b * 8 + tb)
    }
    /// small/moderate random tangent
    fn small_tangent(rng: &mut Rng, s: f64) -> Vec<f64> {
        rng.nvec(Self::DIM, s)
    }
    /// reference exponential, honouring the documented fake_exp feature
    fn ref_exp(xi: &[f64]) -> M {
        let h = Self::hatm(xi);
        if cfg!(feature = "fake_exp") && Self::ROT > 0 && Self::DIM > Self::ROT {
            let n = h.r - 1;
            let r = h.block(0, 0, n, n).expm();
            return homog(&r, &xi[Self::ROT..]);
        }
        h.expm()
    }
    /// reference log from the matrix: principal rotation vector and V^{-1} t
    fn ref_log(m: &M) -> Vec<f64>;
    /// magnitude used to scale tolerances
    fn mag(&self) -> f64 {
        1.0 + self.mat().max_abs()
    }
}

/// principal rotation vector of a rotation matrix (robust near 0 and pi)
pub fn rotvec(r: &M) -> Vec<f64> {
    // quaternion by the largest component (Shepperd)
    let t = r[(0, 0)] + r[(1, 1)] + r[(2, 2)];
    let c = [t, r[(0, 0)], r[(1, 1)], r[(2, 2)]];
    let mut k = 0;
    for i in 1..4 {
        if c[i] > c[k] {
            k = i;
        }
    }
    let mut q = [0.0; 4]; // w,x,y,z
    match k {
        0 => {
            q[0] = 1.0 + t;
            q[1] = r[(2, 1)] - r[(1, 2)];
            q[2] = r[(0, 2)] - r[(2, 0)];
            q[3] = r[(1, 0)] - r[(0, 1)];
        }
        1 => {
            q[0] = r[(2, 1)] - r[(1, 2)];
            q[1] = 1.0 + r[(0, 0)] - r[(1, 1)] - r[(2, 2)];
            q[2] = r[(0, 1)] + r[(1, 0)];
            q[3] = r[(0, 2)] + r[(2, 0)];
        }
        2 => {
            q[0] = r[(0, 2)] - r[(2, 0)];
            q[1] = r[(0, 1)] + r[(1, 0)];
            q[2] = 1.0 - r[(0, 0)] + r[(1, 1)] - r[(2, 2)];
            q[3] = r[(1, 2)] + r[(2, 1)];
        }
        _ => {
            q[0] = r[(1, 0)] - r[(0, 1)];
            q[1] = r[(0, 2)] + r[(2, 0)];
            q[2] = r[(1, 2)] + r[(2, 1)];
            q[3] = 1.0 - r[(0, 0)] - r[(1, 1)] + r[(2, 2)];
        }
    }
    let n = la::norm(&q);
    for x in q.iter_mut() {
        *x /= n;
    }
    if q[0] < 0.0 {
        for x in q.iter_mut() {
            *x = -*x;
        }
    }
    let v = [q[1], q[2], q[3]];
    let s = la::norm(&v);
    let f = if s < 1e-12 { 2.0 } else { 2.0 * s.atan2(q[0]) / s };
    vec![v[0] * f, v[1] * f, v[2] * f]
}
/// V(w) = sum hat(w)^k/(k+1)!, as the integral of the rotation: taken from the exponential of an augmented matrix
pub fn left_jac(hat: &M) -> M {
    let n = hat.r;
    let mut a = M::zeros(2 * n, 2 * n);
    a.set(0, 0, hat);
    a.set(0, n, &M::eye(n));
    a.expm().block(0, n, n, n)
}

impl VarX for SO2 {
    const NAME: &'static str = "SO2";
    const ROT: usize = 1;
    fn mat(&self) -> M {
        tom!(self.to_matrix())
    }
    fn hatm(xi: &[f64]) -> M {
        hat2(xi[0])
    }
    fn rand(rng: &mut Rng) -> (Self, u32) {
        let (a, b) = rng.angle();
        (SO2::from_theta(d(a * rng.sign())), b)
    }
    fn defect(&self) -> f64 {
        let m = self.mat();
        (m[(0, 0)].powi(2) + m[(1, 0)].powi(2) - 1.0).abs()
    }
    fn ref_log(m: &M) -> Vec<f64> {
        vec![m[(1, 0)].atan2(m[(0, 0)])]
    }
}
impl VarX for SE2 {
    const NAME: &'static str = "SE2";
    const ROT: usize = 1;
    fn mat(&self) -> M {
        homog(&self.rot().mat(), &[self.x() as f64, self.y() as f64])
    }
    fn hatm(xi: &[f64]) -> M {
        hat_h(&hat2(xi[0]), &xi[1..3])
    }
    fn rand(rng: &mut Rng) -> (Self, u32) {
        let (a, b) = rng.angle();
        let (t, tb) = rand_trans(rng, 2);
        (SE2::new(d(a * rng.sign()), d(t[0]), d(t[1])), b * 8 + tb)
    }
    fn defect(&self) -> f64 {
        self.rot().defect()
    }
    fn ref_log(m: &M) -> Vec<f64> {
        let th = m[(1, 0)].atan2(m[(0, 0)]);
        let t = m.block(0, 2, 2, 1);
        let u = if cfg!(feature = "fake_exp") { t } else { left_jac(&hat2(th)).solve(&t).expect("V invertible") };
        vec![th, u[(0, 0)], u[(1, 0)]]
    }
}
impl VarX for SO3 {
    const NAME: &'static str = "SO3";
    const ROT: usize = 3;
    fn mat(&self) -> M {
        quat_mat([self.xyzw[0] as f64, self.xyzw[1] as f64, self.xyzw[2] as f64, self.xyzw[3] as f64])
    }
    fn hatm(xi: &[f64]) -> M {
        skew(xi)
    }
    fn rand(rng: &mut Rng) -> (Self, u32) {
        let (q, b) = rand_quat(rng);
        (so3(q), b)
    }
    fn defect(&self) -> f64 {
        ((0..4).map(|i| (self.xyzw[i] as f64).powi(2)).sum::<f64>() - 1.0).abs()
    }
    fn ref_log(m: &M) -> Vec<f64> {
        rotvec(m)
    }
}
impl VarX for SE3 {
    const NAME: &'static str = "SE3";
    const ROT: usize = 3;
    fn mat(&self) -> M {
        let t = self.xyz();
        homog(&self.rot().mat(), &[t[0] as f64, t[1] as f64, t[2] as f64])
    }
    fn hatm(xi: &[f64]) -> M {
        hat_h(&skew(&xi[0..3]), &xi[3..6])
    }
    fn rand(rng: &mut Rng) -> (Self, u32) {
        let (q, b) = rand_quat(rng);
        let (t, tb) = rand_trans(rng, 3);
        (SE3::from_rot_trans(so3(q), Vector3::new(d(t[0]), d(t[1]), d(t[2]))), b * 8 + tb)
    }
    fn defect(&self) -> f64 {
        self.rot().defect()
    }
    fn ref_log(m: &M) -> Vec<f64> {
        let w = rotvec(&m.block(0, 0, 3, 3));
        let t = m.block(0, 3, 3, 1);
        let u = if cfg!(feature = "fake_exp") { t } else { left_jac(&skew(&w)).solve(&t).expect("V invertible") };
        vec![w[0], w[1], w[2], u[(0, 0)], u[(1, 0)], u[(2, 0)]]
    }
}
impl VarX for ImuBias {
    const NAME: &'static str = "ImuBias";
    const ROT: usize = 0;
    fn mat(&self) -> M {
        let v: Vec<f64> = self.gyro().iter().chain(self.accel().iter()).map(|x| *x as f64).collect();
        homog(&M::eye(6), &v)
    }
    fn hatm(xi: &[f64]) -> M {
        hat_h(&M::zeros(6, 6), xi)
    }
    fn rand(rng: &mut Rng) -> (Self, u32) {
        let (v, b) = rand_trans(rng, 6);
        (
            ImuBias::new(Gyro::new(d(v[0]), d(v[1]), d(v[2])), Accel::new(d(v[3]), d(v[4]), d(v[5]))),
            b,
        )
    }
    fn defect(&self) -> f64 {
        0.0
    }
    fn ref_log(m: &M) -> Vec<f64> {
        m.block(0, 6, 6, 1).d
    }
}
impl<const N: usize> VarX for VectorVar<N> {
    const NAME: &'static str = ["Vec0", "Vec1", "Vec2", "Vec3", "Vec4", "Vec5", "Vec6", "Vec7", "Vec8", "Vec9"][N];
    const ROT: usize = 0;
    fn mat(&self) -> M {
        let v: Vec<f64> = (0..N).map(|i| self[i] as f64).collect();
        homog(&M::eye(N), &v)
    }
    fn hatm(xi: &[f64]) -> M {
        hat_h(&M::zeros(N, N), xi)
    }
    fn rand(rng: &mut Rng) -> (Self, u32) {
        let (v, b) = rand_trans(rng, N);
        (VectorVar(Vector::<N>::from_iterator(v.iter().map(|x| d(*x)))), b)
    }
    fn defect(&self) -> f64 {
        0.0
    }
    fn ref_log(m: &M) -> Vec<f64> {
        m.block(0, N, N, 1).d
    }
}

/// Calls a generic function/macro body for every supported variable type.
#[macro_export]
macro_rules! for_all_vars {
    ($f:ident ( $($a:expr),* )) => {
        $f::<factrs::variables::SO2>($($a),*);
        $f::<factrs::variables::SE2>($($a),*);
        $f::<factrs::variables::SO3>($($a),*);
        $f::<factrs::variables::SE3>($($a),*);
        $f::<factrs::variables::ImuBias>($($a),*);
        $f::<factrs::variables::VectorVar1>($($a),*);
        $f::<factrs::variables::VectorVar2>($($a),*);
        $f::<factrs::variables::VectorVar3>($($a),*);
        $f::<factrs::variables::VectorVar4>($($a),*);
        $f::<factrs::variables::VectorVar5>($($a),*);
        $f::<factrs::variables::VectorVar6>($($a),*);
    };
}
#[macro_export]
macro_rules! for_lie_vars {
    ($f:ident ( $($a:expr),* )) => {
        $f::<factrs::variables::SO2>($($a),*);
        $f::<factrs::variables::SE2>($($a),*);
        $f::<factrs::variables::SO3>($($a),*);
        $f::<factrs::variables::SE3>($($a),*);
    };
}

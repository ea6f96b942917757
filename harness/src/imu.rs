//! Reference of the documented IMU preintegration (src/residuals/imu_preint/README.md) and ways of observing the real factor
//! through its public interface only.
use crate::la::{self, M};
use crate::rng::Rng;
use crate::vars::*;
use factrs::containers::{Factor, Key, Values};
use factrs::linalg::{Matrix3, Vector3};
use factrs::residuals::{Accel, Gravity, Gyro, ImuCovariance, ImuPreintegrator};
use factrs::variables::*;

pub const KEYS: [u64; 6] = [11, 7, 5, 3, 13, 2];

/// right Jacobian of the SO(3) exponential
pub fn rjac(w: &[f64]) -> M {
    let k = skew(w);
    let (_, b, c) = coef(w);
    M::eye(3).sub(&k.scale(b)).add(&k.mul(&k).scale(c))
}
/// sin(t)/t, (1-cos t)/t^2, (t-sin t)/t^3, by series below 0.3
fn coef(w: &[f64]) -> (f64, f64, f64) {
    let x = la::dot(w, w);
    if x < 0.09 {
        // sum (-x)^k/(2k+1)!, (2k+2)!, (2k+3)!
        let (mut a, mut b, mut c) = (0.0, 0.0, 0.0);
        let mut f = 1.0; // (2k)!
        let mut p = 1.0;
        for k in 0..9 {
            let n = 2.0 * k as f64;
            let f1 = f * (n + 1.0);
            let f2 = f1 * (n + 2.0);
            let f3 = f2 * (n + 3.0);
            a += p / f1;
            b += p / f2;
            c += p / f3;
            f = f2;
            p *= -x;
        }
        (a, b, c)
    } else {
        let t = x.sqrt();
        (t.sin() / t, 2.0 * (t / 2.0).sin().powi(2) / x, (t - t.sin()) / (t * x))
    }
}
pub fn rexp(w: &[f64]) -> M {
    let k = skew(w);
    let (a, b, _) = coef(w);
    M::eye(3).add(&k.scale(a)).add(&k.mul(&k).scale(b))
}

#[derive(Clone, Debug)]
pub struct Params {
    pub gyro: M,
    pub accel: M,
    pub gyro_bias: M,
    pub accel_bias: M,
    pub integration: M,
    pub winit: M,
    pub ainit: M,
}
pub const NPAR: usize = 7;
impl Params {
    pub fn default_vals() -> Params {
        let s = |x: f64| M::eye(3).scale(x);
        Params { gyro: s(1e-5), accel: s(1e-5), gyro_bias: s(1e-6), accel_bias: s(1e-6), integration: s(1e-7), winit: s(1e-7), ainit: s(1e-7) }
    }
    pub fn each(&mut self) -> [&mut M; NPAR] {
        [&mut self.gyro, &mut self.accel, &mut self.gyro_bias, &mut self.accel_bias, &mut self.integration, &mut self.winit, &mut self.ainit]
    }
    pub fn rand(rng: &mut Rng, lo: f64, hi: f64) -> Params {
        let mut p = Params::default_vals();
        let scalar = rng.coin(0.2);
        for m in p.each() {
            let s = rng.logu(lo, hi);
            *m = if scalar {
                M::eye(3).scale(s)
            } else {
                let a = M::from_fn(3, 3, |_, _| rng.normal());
                let q = a.mul(&a.t()).add(&M::eye(3).scale(0.3));
                q.scale(s / 3.0)
            };
        }
        p
    }
    pub fn real(&self) -> ImuCovariance {
        let c = |m: &M| Matrix3::from_fn(|i, j| d(m[(i, j)]));
        ImuCovariance {
            cov_accel: c(&self.accel),
            cov_gyro: c(&self.gyro),
            cov_accel_bias: c(&self.accel_bias),
            cov_gyro_bias: c(&self.gyro_bias),
            cov_integration: c(&self.integration),
            cov_winit: c(&self.winit),
            cov_ainit: c(&self.ainit),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Meas {
    pub w: [f64; 3],
    pub a: [f64; 3],
    pub dt: f64,
}

/// documented recursion
#[derive(Clone)]
pub struct Ref {
    pub th: Vec<f64>,
    pub v: Vec<f64>,
    pub p: Vec<f64>,
    pub t: f64,
    pub hg: M,
    pub ha: M,
    pub cov: M,
    /// accumulated magnitudes, for tolerances
    pub mag_v: f64,
    pub mag_p: f64,
    pub mag_th: f64,
    pub bias: [f64; 6],
    pub g: [f64; 3],
    pub max_th: f64,
}
impl Ref {
    pub fn new(bias: [f64; 6], g: [f64; 3]) -> Ref {
        Ref { th: vec![0.0; 3], v: vec![0.0; 3], p: vec![0.0; 3], t: 0.0, hg: M::zeros(9, 3), ha: M::zeros(9, 3), cov: M::eye(15).scale(1e-14), mag_v: 0.0, mag_p: 0.0, mag_th: 0.0, bias, g, max_th: 0.0 }
    }
    pub fn unbias(&self, m: &Meas) -> (Vec<f64>, Vec<f64>) {
        ((0..3).map(|i| m.w[i] - self.bias[i]).collect(), (0..3).map(|i| m.a[i] - self.bias[3 + i]).collect())
    }
    /// A and B of the README at the current state
    pub fn ab(&self, m: &Meas) -> (M, M) {
        let (w, a) = self.unbias(m);
        let dt = m.dt;
        let h = rjac(&self.th);
        let hi = h.inv().expect("H invertible");
        let r = rexp(&self.th);
        let mut am = M::eye(15);
        am.set(0, 0, &M::eye(3).sub(&skew(&w).scale(dt / 2.0)));
        am.set(0, 9, &hi.scale(-dt));
        let ra = r.mul(&skew(&a)).mul(&h);
        am.set(3, 0, &ra.scale(-dt));
        am.set(3, 12, &r.scale(-dt));
        am.set(6, 0, &ra.scale(-dt * dt / 2.0));
        am.set(6, 3, &M::eye(3).scale(dt));
        am.set(6, 12, &r.scale(-dt * dt / 2.0));
        // noises: gyro, accel, gyro bias, accel bias, integration, winit, ainit
        let mut b = M::zeros(15, 21);
        b.set(0, 0, &hi.scale(dt));
        b.set(3, 3, &r.scale(dt));
        b.set(6, 3, &r.scale(dt * dt / 2.0));
        b.set(9, 6, &M::eye(3));
        b.set(12, 9, &M::eye(3));
        b.set(6, 12, &M::eye(3));
        b.set(0, 15, &hi.scale(-dt));
        b.set(3, 18, &r.scale(-dt));
        b.set(6, 18, &r.scale(-dt * dt / 2.0));
        (am, b)
    }
    pub fn step(&mut self, m: &Meas, q: Option<&Params>) {
        let (w, a) = self.unbias(m);
        let dt = m.dt;
        let (am, b) = self.ab(m);
        if let Some(p) = q {
            let mut qm = M::zeros(21, 21);
            for (i, s) in [&p.gyro, &p.accel, &p.gyro_bias, &p.accel_bias, &p.integration, &p.winit, &p.ainit].iter().enumerate() {
                qm.set(3 * i, 3 * i, s);
            }
            self.cov = am.mul(&self.cov).mul(&am.t()).add(&b.mul(&qm).mul(&b.t()));
        }
        let mini = am.block(0, 0, 9, 9);
        self.hg = mini.mul(&self.hg).add(&am.block(0, 9, 9, 3));
        self.ha = mini.mul(&self.ha).add(&am.block(0, 12, 9, 3));
        let r = rexp(&self.th);
        let aw = r.mv(&a);
        let hw = rjac(&self.th).inv().expect("H invertible").mv(&w);
        for i in 0..3 {
            self.p[i] += self.v[i] * dt + aw[i] * dt * dt * 0.5;
            self.v[i] += aw[i] * dt;
            self.th[i] += hw[i] * dt;
        }
        self.t += dt;
        self.mag_p += self.mag_v * dt + la::norm(&a) * dt * dt;
        self.mag_v += la::norm(&a) * dt;
        self.mag_th += la::norm(&hw) * dt;
        self.max_th = self.max_th.max(la::norm(&self.th));
    }
    /// the documented prediction from a start state
    pub fn predict(&self, s: &State) -> State {
        let db: Vec<f64> = (0..6).map(|i| s.b[i] - self.bias[i]).collect();
        let corr = la::add(&self.hg.mv(&db[0..3]), &self.ha.mv(&db[3..6]));
        self.predict_with(s, &la::add(&self.th, &corr[0..3]), &la::add(&self.v, &corr[3..6]), &la::add(&self.p, &corr[6..9]))
    }
    pub fn predict_with(&self, s: &State, th: &[f64], v: &[f64], p: &[f64]) -> State {
        let (rv, rp) = (s.r.mv(v), s.r.mv(p));
        let t = self.t;
        State {
            r: s.r.mul(&rexp(th)),
            v: [0, 1, 2].map(|i| s.v[i] + self.g[i] * t + rv[i]),
            p: [0, 1, 2].map(|i| s.p[i] + s.v[i] * t + self.g[i] * t * t / 2.0 + rp[i]),
            b: s.b,
        }
    }
    /// tolerance of each residual entry (small-angle approximations are about 1e-8 relative)
    pub fn tol(&self, s1: &State, s2: &State) -> Vec<f64> {
        let k = 2e-8;
        let (n1, n2) = (la::norm(&s1.v) + la::norm(&self.g) * self.t + la::norm(&s2.v), la::norm(&s1.p) + la::norm(&s2.p));
        let dbg = (0..3).map(|i| (s1.b[i] - self.bias[i]).abs()).sum::<f64>();
        let dba = (0..3).map(|i| (s1.b[3 + i] - self.bias[3 + i]).abs()).sum::<f64>();
        let c = |r: usize| self.hg.block(r, 0, 3, 3).max_abs() * dbg + self.ha.block(r, 0, 3, 3).max_abs() * dba;
        let tr = k * (0.01 + self.mag_th + c(0));
        let tv = k * (self.mag_v + c(3)) + 1e-13 * (n1 + 1.0);
        let tp = k * (self.mag_p + c(6)) + 1e-13 * (n2 + n1 * (1.0 + self.t) * (1.0 + self.t) + 1.0);
        let bb: f64 = s1.b.iter().chain(s2.b.iter()).map(|x| x.abs()).sum::<f64>() + 1.0;
        let mut o = vec![1e-15 * bb; 15];
        for i in 0..3 {
            o[i] = tr;
            o[3 + i] = tv;
            o[6 + i] = tp;
        }
        o
    }
}

#[derive(Clone, Debug)]
pub struct State {
    pub r: M,
    pub v: [f64; 3],
    pub p: [f64; 3],
    pub b: [f64; 6],
}
impl State {
    pub fn rand(rng: &mut Rng, moderate: bool) -> State {
        let (q, _) = if moderate { (qaxis(&rng.unit_vec(3), rng.range(-3.0, 3.0)), 0) } else { rand_quat(rng) };
        let s = if moderate { 1.0 } else { *rng.pick(&[0.0, 0.1, 1.0, 10.0]) };
        let f = |rng: &mut Rng, s: f64| [rng.normal() * s, rng.normal() * s, rng.normal() * s];
        let (g, a) = (f(rng, 0.1 * s), f(rng, 0.3 * s));
        State { r: quat_mat(q), v: f(rng, 2.0 * s), p: f(rng, 5.0 * s), b: [g[0], g[1], g[2], a[0], a[1], a[2]] }
    }
    pub fn pose(&self) -> SE3 {
        // through the matrix of a quaternion: build the rotation from its own rotation vector
        let w = rotvec(&self.r);
        let n = la::norm(&w);
        let q = if n == 0.0 { [0.0, 0.0, 0.0, 1.0] } else { qaxis(&la::scale(&w, 1.0 / n), n) };
        SE3::from_rot_trans(so3(q), Vector3::new(d(self.p[0]), d(self.p[1]), d(self.p[2])))
    }
    pub fn vel(&self) -> VectorVar3 {
        VectorVar3::new(d(self.v[0]), d(self.v[1]), d(self.v[2]))
    }
    pub fn bias(&self) -> ImuBias {
        bias(&self.b)
    }
    /// state whose residual against `pred` is r: log(R2^-1 R) = r0.., pred - state = rest
    pub fn offset(pred: &State, r: &[f64]) -> State {
        // R2 = Rpred exp(-r)
        State {
            r: pred.r.mul(&rexp(&la::scale(&r[0..3], -1.0))),
            v: [0, 1, 2].map(|i| pred.v[i] - r[3 + i]),
            p: [0, 1, 2].map(|i| pred.p[i] - r[6 + i]),
            b: [0, 1, 2, 3, 4, 5].map(|i| pred.b[i] - r[9 + i]),
        }
    }
}
pub fn bias(b: &[f64; 6]) -> ImuBias {
    ImuBias::new(Gyro::new(d(b[0]), d(b[1]), d(b[2])), Accel::new(d(b[3]), d(b[4]), d(b[5])))
}
/// documented residual of a predicted and an actual second state
pub fn residual(pred: &State, s2: &State) -> Vec<f64> {
    let mut o = rotvec(&s2.r.t().mul(&pred.r));
    o.extend((0..3).map(|i| pred.v[i] - s2.v[i]));
    o.extend((0..3).map(|i| pred.p[i] - s2.p[i]));
    o.extend((0..6).map(|i| pred.b[i] - s2.b[i]));
    o
}

pub struct Setup {
    pub meas: Vec<Meas>,
    pub params: Params,
    pub bias: [f64; 6],
    pub g: [f64; 3],
    pub regime: u32,
}
impl Setup {
    /// |theta| stays below `max_th` (H is singular at 2 pi)
    pub fn rand(rng: &mut Rng, params: Params, max_n: usize, max_th: f64) -> Setup {
        let g = match rng.below(4) {
            0 => [0.0, 0.0, 9.81],
            1 => [0.0, 0.0, -9.81],
            2 => [0.0; 3],
            _ => [rng.normal() * 5.0, rng.normal() * 5.0, rng.normal() * 5.0],
        };
        let bs = *rng.pick(&[0.0, 0.01, 0.3]);
        let mut bias = [0.0; 6];
        for x in bias.iter_mut() {
            *x = rng.normal() * bs;
        }
        // small biases of either sensor, down to where their effect vanishes in the rounding
        for k in [0, 3] {
            if rng.coin(0.3) {
                let s = rng.logu(1e-7, 1e-2);
                for x in bias.iter_mut().skip(k).take(3) {
                    *x = rng.normal() * s;
                }
            }
        }
        let regime = rng.below(6) as u32;
        let n = match rng.below(4) {
            0 => rng.int(1, 3),
            1 => rng.int(1, 12),
            _ => rng.int(1, max_n.max(1)),
        };
        let ws = match regime {
            0 => 0.0,
            1 => rng.logu(1e-9, 1e-4),
            2 => rng.logu(1e-3, 0.3),
            _ => rng.range(0.3, 4.0),
        };
        let tiny = rng.logu(1e-6, 1e-2);
        let as_ = *rng.pick(&[0.0, 0.1, 3.0, 20.0, tiny]);
        let dt0 = *rng.pick(&[0.0001, 0.001, 0.005, 0.01, 0.1, 0.3, 1.0]);
        let vary = rng.coin(0.5);
        let dir = rng.unit_vec(3);
        let mut probe = Ref::new(bias, g);
        let mut meas = vec![];
        for _ in 0..n {
            let dt = if vary { dt0 * rng.range(0.0, 2.0) } else { dt0 };
            let mut w = [0.0; 3];
            let mut a = [0.0; 3];
            for i in 0..3 {
                w[i] = bias[i] + if regime == 5 { dir[i] * ws } else { rng.normal() * ws };
                a[i] = bias[3 + i] + rng.normal() * as_ - g[i] * 0.5;
            }
            let m = Meas { w, a, dt };
            let mut next = probe.clone();
            next.step(&m, None);
            if la::norm(&next.th) > max_th {
                break;
            }
            probe = next;
            meas.push(m);
        }
        if meas.is_empty() {
            meas.push(Meas { w: [bias[0], bias[1], bias[2]], a: [bias[3], bias[4], bias[5] + 1.0], dt: 0.01 });
        }
        Setup { meas, params, bias, g, regime }
    }
    pub fn reference(&self, cov: bool) -> Ref {
        let mut r = Ref::new(self.bias, self.g);
        for m in &self.meas {
            r.step(m, if cov { Some(&self.params) } else { None });
        }
        r
    }
    pub fn preint(&self) -> ImuPreintegrator {
        let mut p = ImuPreintegrator::new(self.params.real(), bias(&self.bias), Gravity(Vector3::new(d(self.g[0]), d(self.g[1]), d(self.g[2]))));
        for m in &self.meas {
            p.integrate(&Gyro::new(d(m.w[0]), d(m.w[1]), d(m.w[2])), &Accel::new(d(m.a[0]), d(m.a[1]), d(m.a[2])), d(m.dt));
        }
        p
    }
    pub fn factor(&self) -> Factor {
        let k = KEYS.map(Key);
        self.preint().build_unchecked(k[0], k[1], k[2], k[3], k[4], k[5])
    }
    pub fn describe(&self) -> String {
        let head: Vec<String> = self.meas.iter().take(3).map(|m| format!("{m:?}")).collect();
        format!("{} measurements [{}...], bias {:?}, g {:?}, params {:?}", self.meas.len(), head.join(" "), self.bias, self.g, self.params)
    }
}

pub fn values(s1: &State, s2: &State) -> Values {
    let mut v = Values::new();
    let k = KEYS.map(Key);
    v.insert_unchecked(k[0], s1.pose());
    v.insert_unchecked(k[1], s1.vel());
    v.insert_unchecked(k[2], s1.bias());
    v.insert_unchecked(k[3], s2.pose());
    v.insert_unchecked(k[4], s2.vel());
    v.insert_unchecked(k[5], s2.bias());
    v
}

/// The quadratic form e = r'Qr/2 the factor's error is, observed from errors alone around a predicted state, with offsets of
/// size sc[i] in entry i (rotation offsets well inside the principal range).
pub fn observe_q(f: &Factor, s1: &State, pred: &State, sc: &[f64]) -> M {
    let e = |r: &[f64]| 2.0 * f.error(&values(s1, &State::offset(pred, r))) as f64;
    let unit = |i: usize| {
        let mut r = vec![0.0; 15];
        r[i] = sc[i];
        r
    };
    let mut q = M::zeros(15, 15);
    for i in 0..15 {
        q[(i, i)] = 0.5 * (e(&unit(i)) + e(&la::scale(&unit(i), -1.0)));
    }
    for i in 0..15 {
        for j in 0..i {
            let (a, b) = (unit(i), unit(j));
            let x = (e(&la::add(&a, &b)) - e(&la::sub(&a, &b))) / 4.0;
            q[(i, j)] = x;
            q[(j, i)] = x;
        }
    }
    M::from_fn(15, 15, |i, j| q[(i, j)] / sc[i] / sc[j])
}
pub fn quad(q: &M, r: &[f64]) -> f64 {
    la::dot(r, &q.mv(r))
}
/// bound of the change of r'Qr/2 when every entry of r moves by at most tol
pub fn quad_slack(q: &M, r: &[f64], tol: &[f64]) -> f64 {
    let qn: f64 = (0..15).map(|i| q[(i, i)].abs().sqrt() * tol[i]).sum();
    let rn = quad(q, r).abs().sqrt();
    qn * rn + qn * qn
}
/// 2-norm condition bound of the correlation form D Q D, D = diag(Q)^-1/2
pub fn corr_cond(q: &M) -> f64 {
    let c = M::from_fn(q.r, q.r, |i, j| q[(i, j)] / (q[(i, i)] * q[(j, j)]).abs().sqrt());
    match c.inv() {
        Some(i) => i.norm() * c.norm(),
        None => f64::INFINITY,
    }
}

//! C20: IMU preintegration reproduces direct integration of the measurements.
//! The residual is observed through the factor's error alone: the error must be zero exactly at the state the documented
//! recursion predicts, and around it must be one and the same quadratic form of the documented residual, for every pair of states.
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::residuals::{Accel, Gravity, Gyro, ImuPreintegrator};
use factrs::variables::*;
use harness::imu::*;
use harness::*;

assign_symbols!(X: SE3; V: VectorVar3; B: ImuBias);

fn rand_r(rng: &mut Rng, sc: &[f64]) -> Vec<f64> {
    let mut r: Vec<f64> = sc.iter().map(|s| rng.normal() * s * *rng.pick(&[0.0, 0.1, 1.0, 3.0])).collect();
    if rng.coin(0.7) {
        let ax = rng.unit_vec(3);
        let a = if rng.coin(0.3) { rng.range(2.0, 3.1) } else { rng.range(0.0, 2.0) };
        for i in 0..3 {
            r[i] = ax[i] * a;
        }
    }
    r
}

/// standard deviations the recursion gives, floored so that offsets stay representable
fn scales(r: &Ref) -> Vec<f64> {
    (0..15).map(|i| r.cov[(i, i)].sqrt().clamp(if i < 3 { 0.05 } else { 1e-3 }, if i < 3 { 0.5 } else { 10.0 })).collect()
}

fn zero_at(c: &mut Case, label: &str, f: &Factor, q: &M, s1: &State, s2: &State, tol: &[f64]) {
    let e = f.error(&values(s1, s2)) as f64;
    let lim = quad_slack(q, &[0.0; 15], tol);
    c.check(e <= lim, label, || format!("error {e:e} at the predicted state (limit {lim:e}); s1 {s1:?} s2 {s2:?}"));
}

fn main() {
    let ctx = Ctx::from_env("C20");
    // the reference's own closed forms against the matrix exponential
    ctx.family("reference self-check", 500, 5000, |rng, c| {
        let ax = rng.unit_vec(3);
        let a = rng.angle().0 * if rng.coin(0.2) { 1.7 } else { 1.0 };
        let w = la::scale(&ax, a);
        c.close_m("exp", &rexp(&w), &vars::skew(&w).expm(), 1e-13);
        c.close_m("right Jacobian", &rjac(&w), &vars::left_jac(&vars::skew(&w)).t(), 1e-13);
        c.sig((a.to_bits(), 0));
    });
    let general = |rng: &mut Rng, c: &mut Case, max_n: usize| {
        // noise large enough that offsets of every entry are comparable
        let st = Setup::rand(rng, Params::default_vals(), max_n, 5.0);
        let st = Setup { params: Params::rand(rng, 1e-3, 1e-1), ..st };
        c.desc(st.describe());
        c.sig((st.regime, st.meas.len(), (st.g[2] * 10.0) as i64));
        let rf = st.reference(true);
        let f = st.factor();
        for _ in 0..st.meas.len() {
            c.event();
        }
        let sc = scales(&rf);
        let s0 = State::rand(rng, true);
        let q = observe_q(&f, &s0, &rf.predict(&s0), &sc);
        for k in 0..6 {
            let mut s1 = State::rand(rng, k % 2 == 0);
            if k < 3 {
                // at the preintegration bias the increments are the plain Euler ones
                s1.b = st.bias;
            }
            let pred = rf.predict(&s1);
            let tol = rf.tol(&s1, &pred);
            zero_at(c, "zero at the documented prediction", &f, &q, &s1, &pred, &tol);
            let r = rand_r(rng, &sc);
            let s2 = State::offset(&pred, &r);
            let r = residual(&pred, &s2);
            let got = f.error(&values(&s1, &s2)) as f64;
            let want = quad(&q, &r) / 2.0;
            // small-angle log: about 1e-7 of the angle
            let mut tol2 = rf.tol(&s1, &s2);
            for x in tol2.iter_mut().take(3) {
                *x += 1e-7 * la::norm(&r[0..3]);
            }
            let t = quad_slack(&q, &r, &tol2) + 1e-9 * (0..15).map(|i| q[(i, i)].sqrt() * r[i].abs()).sum::<f64>().powi(2);
            c.close("error is the same quadratic form of the documented residual at every state", got, want, t);
            // each component on its own, so that no entry hides behind another
            let i = rng.below(15);
            let mut e = vec![0.0; 15];
            e[i] = sc[i] * rng.range(0.1, 2.0) * rng.sign();
            let s2 = State::offset(&pred, &e);
            let got = f.error(&values(&s1, &s2)) as f64;
            c.close("single entry", got, q[(i, i)] * e[i] * e[i] / 2.0, quad_slack(&q, &e, &rf.tol(&s1, &s2)) + 1e-8 * q[(i, i)] * e[i] * e[i]);
            c.check(got > 0.0, "an offset state is not an exact match", || format!("entry {i}"));
        }
    };
    ctx.family("random measurements", 700, 25000, |rng, c| general(rng, c, 60));
    ctx.family("long", 24, 600, |rng, c| general(rng, c, 2000));
    // order and signs of the residual's blocks: the quadratic form alone cannot tell a residual from one with blocks exchanged
    // or negated, but the factor's weighting is fixed per row. If the observed form is not the documented one yet is exactly the
    // documented one with blocks permuted/negated, the residual's blocks are out of place. (Any other deviation of the weighting
    // is C21's business and is not reported here.)
    ctx.family("block order and signs", 60, 1500, |rng, c| {
        let st = Setup::rand(rng, Params::default_vals(), 30, 3.0);
        let st = Setup { params: Params::rand(rng, 1e-3, 1e-1), ..st };
        c.desc(st.describe());
        c.sig((st.regime, st.meas.len(), 1));
        let rf = st.reference(true);
        let cond = corr_cond(&rf.cov);
        let info = match rf.cov.inv() {
            Some(i) if cond < 1e4 => i,
            _ => return c.skip("covariance too ill-conditioned to judge"),
        };
        let f = st.factor();
        for _ in 0..st.meas.len() {
            c.event();
        }
        let s0 = State::rand(rng, true);
        let q = observe_q(&f, &s0, &rf.predict(&s0), &scales(&rf));
        // distance of q from the documented form whose row block a is (sign * documented block perm[a])
        let dist = |perm: &[usize], sg: &[f64]| {
            let mut worst = 0.0f64;
            for i in 0..15 {
                for j in 0..15 {
                    let (bi, bj) = (perm[i / 3] * 3 + i % 3, perm[j / 3] * 3 + j % 3);
                    let w = sg[i / 3] * sg[j / 3] * info[(bi, bj)];
                    worst = worst.max((q[(i, j)] - w).abs() / (info[(bi, bi)] * info[(bj, bj)]).sqrt());
                    if worst > 1e-3 {
                        return worst;
                    }
                }
            }
            worst
        };
        let plain = dist(&[0, 1, 2, 3, 4], &[1.0; 5]);
        if plain < 1e-3 {
            c.count("weighting as documented", 1);
            return;
        }
        let mut perm = [0usize, 1, 2, 3, 4];
        let mut found = None;
        fn rec(k: usize, p: &mut [usize; 5], out: &mut Vec<[usize; 5]>) {
            if k == 5 {
                return out.push(*p);
            }
            for i in k..5 {
                p.swap(k, i);
                rec(k + 1, p, out);
                p.swap(k, i);
            }
        }
        let mut all = vec![];
        rec(0, &mut perm, &mut all);
        for p in &all {
            for m in 0..16u32 {
                let sg: Vec<f64> = (0..5).map(|b| if b > 0 && m >> (b - 1) & 1 == 1 { -1.0 } else { 1.0 }).collect();
                if dist(p, &sg) < 1e-3 {
                    found = Some((*p, sg));
                }
            }
        }
        c.check(found.is_none(), "residual blocks in the documented order with one sign", || format!("blocks (rotation, velocity, position, gyro bias, accel bias) sit at {:?} with signs {:?}", found.as_ref().unwrap().0, found.as_ref().unwrap().1));
    });
    // physically exact motions, states computed in closed form
    ctx.family("exact motions", 600, 20000, |rng, c| {
        let kind = rng.below(5);
        let n = rng.int(1, 200);
        let dt = *rng.pick(&[0.001, 0.01, 0.05]);
        let t = n as f64 * dt;
        let mut bias = [0.0; 6];
        if rng.coin(0.6) {
            for x in bias.iter_mut() {
                *x = rng.normal() * 0.2;
            }
        }
        let up = rng.coin(0.5);
        let g = if rng.coin(0.5) { [0.0, 0.0, if up { 9.81 } else { -9.81 }] } else { [rng.normal() * 4.0, rng.normal() * 4.0, rng.normal() * 4.0] };
        let mut s1 = State::rand(rng, true);
        s1.b = bias;
        let mut s2 = s1.clone();
        let (mut w, mut a) = ([0.0; 3], [0.0; 3]);
        c.sig((kind, n, (dt * 1000.0) as u32));
        for i in 0..3 {
            s2.v[i] = s1.v[i] + g[i] * t;
            s2.p[i] = s1.p[i] + s1.v[i] * t + g[i] * t * t / 2.0;
        }
        let rate = rng.range(0.0, (4.0 / t).min(6.0));
        let ax = rng.unit_vec(3);
        let spin = |s2: &mut State, w: &mut [f64; 3]| {
            for i in 0..3 {
                w[i] = ax[i] * rate;
            }
            s2.r = s1.r.mul(&rexp(&[w[0] * t, w[1] * t, w[2] * t]));
        };
        let name = match kind {
            0 => {
                // free fall, tumbling at a constant rate
                spin(&mut s2, &mut w);
                "free fall with constant rotation"
            }
            1 => {
                // at rest or uniform motion: the accelerometer carries -g in the body frame
                let b = s1.r.t().mv(&[-g[0], -g[1], -g[2]]);
                a = [b[0], b[1], b[2]];
                s2.v = s1.v;
                s2.p = [0, 1, 2].map(|i| s1.p[i] + s1.v[i] * t);
                "uniform motion"
            }
            2 => {
                // constant world acceleration, no rotation
                let acc = [rng.normal() * 3.0, rng.normal() * 3.0, rng.normal() * 3.0];
                let b = s1.r.t().mv(&[acc[0] - g[0], acc[1] - g[1], acc[2] - g[2]]);
                a = [b[0], b[1], b[2]];
                s2.v = [0, 1, 2].map(|i| s1.v[i] + acc[i] * t);
                s2.p = [0, 1, 2].map(|i| s1.p[i] + s1.v[i] * t + acc[i] * t * t / 2.0);
                "constant acceleration"
            }
            3 => {
                // constant acceleration along the rotation axis
                spin(&mut s2, &mut w);
                let k = rng.normal() * 3.0;
                let aw = s1.r.mv(&ax);
                for i in 0..3 {
                    a[i] = ax[i] * k;
                    s2.v[i] += aw[i] * k * t;
                    s2.p[i] += aw[i] * k * t * t / 2.0;
                }
                "screw motion"
            }
            _ => {
                // a stationary IMU with zero gravity
                "drift"
            }
        };
        let meas: Vec<Meas> = (0..n).map(|_| Meas { w: [0, 1, 2].map(|i| w[i] + bias[i]), a: [0, 1, 2].map(|i| a[i] + bias[3 + i]), dt }).collect();
        let st = Setup { meas, params: Params::rand(rng, 1e-3, 1e-1), bias, g, regime: 0 };
        c.desc(format!("{name}: {}", st.describe()));
        let rf = st.reference(true);
        // the convenience constructors of gravity and zero bias, and typed building, where they say the same
        let f = if g == [0.0, 0.0, 9.81] || g == [0.0, 0.0, -9.81] {
            let grav = if g[2] > 0.0 { Gravity::up() } else { Gravity::down() };
            let b0 = if bias == [0.0; 6] { ImuBias::zeros() } else { imu::bias(&bias) };
            let mut p = ImuPreintegrator::new(st.params.real(), b0, grav);
            for m in &st.meas {
                p.integrate(&Gyro::new(vars::d(m.w[0]), vars::d(m.w[1]), vars::d(m.w[2])), &Accel::new(vars::d(m.a[0]), vars::d(m.a[1]), vars::d(m.a[2])), vars::d(m.dt));
            }
            p.build_unchecked(Key(KEYS[0]), Key(KEYS[1]), Key(KEYS[2]), Key(KEYS[3]), Key(KEYS[4]), Key(KEYS[5]))
        } else {
            st.factor()
        };
        let q = observe_q(&f, &s1, &s2, &scales(&rf));
        let mut tol = rf.tol(&s1, &s2);
        for x in tol.iter_mut() {
            *x = *x * 2.0 + 1e-12 * n as f64;
        }
        zero_at(c, "an exact motion has zero residual", &f, &q, &s1, &s2, &tol);
        c.count(name, 1);
    });
    // keys of the built factor, its dimension, typed and untyped construction
    ctx.family("building", 200, 4000, |rng, c| {
        let par = Params::rand(rng, 1e-4, 1e-1);
        let st = Setup::rand(rng, par, 10, 4.0);
        let i = rng.below(1000) as u64;
        c.sig(i);
        let f = st.preint().build(X(i), V(i), B(i), X(i + 1), V(i + 1), B(i + 1));
        let k = |s: Key| s.0;
        let want = [k(X(i).into()), k(V(i).into()), k(B(i).into()), k(X(i + 1).into()), k(V(i + 1).into()), k(B(i + 1).into())];
        let got: Vec<u64> = f.keys().iter().map(|k| k.0).collect();
        c.check(got == want, "keys in the documented order", || format!("{got:x?}"));
        c.check(f.dim_out() == 15, "15 residual entries", || format!("{}", f.dim_out()));
        let g = st.factor();
        let (s1, s2) = (State::rand(rng, true), State::rand(rng, true));
        let mut v = Values::new();
        v.insert(X(i), s1.pose());
        v.insert(V(i), s1.vel());
        v.insert(B(i), s1.bias());
        v.insert(X(i + 1), s2.pose());
        v.insert(V(i + 1), s2.vel());
        v.insert(B(i + 1), s2.bias());
        let (a, b) = (f.error(&v) as f64, g.error(&values(&s1, &s2)) as f64);
        c.close("typed and untyped construction agree", a, b, 1e-9 * b.abs());
        // splitting the history over clones of the preintegrator changes nothing
        let h = st.preint().clone().build_unchecked(Key(KEYS[0]), Key(KEYS[1]), Key(KEYS[2]), Key(KEYS[3]), Key(KEYS[4]), Key(KEYS[5]));
        c.close("a cloned preintegrator carries the same history", h.error(&values(&s1, &s2)) as f64, b, 1e-9 * b.abs());
    });
    ctx.finish(
        "random measurement sequences (rates 0..4 rad/s, accelerations 0..20 m/s^2, uneven and zero time steps, 1..2000 samples) and closed-form motions; oracle = the README's Euler recursion; signature = regime, length, gravity",
        &["accumulated local rotation below 5 rad (the documented H(theta) is singular at 2 pi)"],
    );
}

//! C21: the IMU factor's covariance follows the documented propagation.
//! The weighting is observed from factor errors at the predicted state plus offsets and compared with the inverse of the
//! covariance of the README's recursion.
use factrs::containers::Key;
use factrs::linalg::Matrix3;
use factrs::residuals::ImuCovariance;
use harness::imu::*;
use harness::vars::*;
use harness::*;

const NAMES: [&str; 7] = ["gyro", "accel", "gyro_bias", "accel_bias", "integration", "winit", "ainit"];

fn sc_of(cov: &M) -> Vec<f64> {
    (0..15).map(|i| cov[(i, i)].sqrt().clamp(if i < 3 { 0.05 } else { 1e-3 }, if i < 3 { 0.5 } else { 10.0 })).collect()
}

/// relative accuracy of the recursion (small-angle approximations, rounding)
fn rel(rf: &Ref, n: usize) -> f64 {
    3e-8 * (1.0 + rf.max_th) + 1e-13 * n as f64
}

/// compares errors at random offsets with r' Sigma^-1 r / 2; returns the information matrix of the reference
fn compare(rng: &mut Rng, c: &mut Case, st: &Setup, k: usize) {
    let rf = st.reference(true);
    let f = st.factor();
    for _ in &st.meas {
        c.event();
    }
    let cov = &rf.cov;
    let cond = corr_cond(cov);
    c.count(if cond < 1e3 { "cond<1e3" } else if cond < 1e6 { "cond<1e6" } else { "cond>=1e6" }, 1);
    let info = match cov.inv() {
        Some(i) if cond < 1e9 => i,
        _ => return c.skip("covariance too ill-conditioned to judge"),
    };
    c.check((0..15).all(|i| cov[(i, i)] > 0.0), "reference covariance", || "not positive".into());
    let s1 = {
        let mut s = State::rand(rng, true);
        if rng.coin(0.5) {
            s.b = st.bias;
        }
        s
    };
    let pred = rf.predict(&s1);
    let sc = sc_of(cov);
    let e_rel = rel(&rf, st.meas.len()) * cond + 2e-7;
    for t in 0..k {
        let r: Vec<f64> = match t % 4 {
            // one direction at a time, pairs, and mixes
            0 => {
                let i = (t / 4) % 15;
                let mut r = vec![0.0; 15];
                r[i] = sc[i];
                r
            }
            1 => {
                let mut r = vec![0.0; 15];
                for _ in 0..2 {
                    let i = rng.below(15);
                    r[i] = sc[i] * rng.sign();
                }
                r
            }
            2 => {
                // direction that the covariance favours: Sigma z
                let z: Vec<f64> = (0..15).map(|i| rng.normal() / cov[(i, i)].sqrt()).collect();
                let mut r = cov.mv(&z);
                let big = (0..3).map(|i| r[i].abs()).fold(0.0, f64::max);
                let small = la::norm(&r[0..3]);
                if big > 0.8 {
                    r = la::scale(&r, 0.8 / big);
                } else if small < 0.05 && small > 0.0 {
                    r = la::scale(&r, 0.05 / small);
                }
                r
            }
            _ => sc.iter().map(|s| s * rng.normal() * 0.5).collect(),
        };
        if la::norm(&r[0..3]) > 3.0 {
            continue;
        }
        let s2 = State::offset(&pred, &r);
        let got = f.error(&values(&s1, &s2)) as f64;
        let want = quad(&info, &r) / 2.0;
        let mut tol = rf.tol(&s1, &s2);
        for x in tol.iter_mut().take(3) {
            *x += 1e-7 * la::norm(&r[0..3]);
        }
        let slack = quad_slack(&info, &r, &tol) + e_rel * want.abs() + 1e-12 * (0..15).map(|i| info[(i, i)].abs().sqrt() * r[i].abs()).sum::<f64>().powi(2);
        if slack > 0.2 * want.abs() {
            c.count("offsets too small to judge", 1);
            continue;
        }
        if !c.close("error = r' Sigma^-1 r / 2", got, want, slack) {
            return;
        }
    }
    c.sig((st.regime, st.meas.len().min(50), (cond.log10() * 2.0) as i64));
}

fn main() {
    let ctx = Ctx::from_env("C21");
    ctx.family("recursion/one step", 1500, 40000, |rng, c| {
        let par = Params::rand(rng, 1e-4, 1e1);
        let mut st = Setup::rand(rng, par, 1, 5.0);
        st.meas.truncate(1);
        c.desc(st.describe());
        compare(rng, c, &st, 60);
    });
    ctx.family("recursion/few steps", 1500, 40000, |rng, c| {
        let par = Params::rand(rng, 1e-4, 1e1);
        let st = Setup::rand(rng, par, 8, 5.0);
        c.desc(st.describe());
        compare(rng, c, &st, 60);
    });
    ctx.family("recursion/many steps", 300, 10000, |rng, c| {
        let par = Params::rand(rng, 1e-4, 1e1);
        let st = Setup::rand(rng, par, 200, 5.0);
        c.desc(st.describe());
        compare(rng, c, &st, 60);
    });
    // realistic magnitudes, defaults included
    ctx.family("recursion/realistic", 300, 10000, |rng, c| {
        let par = if rng.coin(0.5) { Params::default_vals() } else { Params::rand(rng, 1e-8, 1e-3) };
        let st = Setup::rand(rng, par, 100, 5.0);
        c.desc(st.describe());
        compare(rng, c, &st, 60);
    });
    // one noise dominates: it must be that noise's own terms that show
    ctx.family("one noise dominates", 1400, 35000, |rng, c| {
        let mut par = Params::rand(rng, 1e-4, 1e-3);
        let which = (c.idx % 7) as usize;
        let s = rng.logu(10.0, 1e4);
        {
            let m = &mut par.each()[which];
            **m = m.scale(s);
        }
        let n = rng.int(1, 20);
        let mut st = Setup::rand(rng, par, n, 4.0);
        for m in st.meas.iter_mut() {
            m.dt = m.dt.max(0.01);
        }
        let rf = st.reference(false);
        if rf.max_th > 5.0 {
            return c.skip("rotation out of range");
        }
        c.desc(format!("{} x{s:.1}: {}", NAMES[which], st.describe()));
        c.count(NAMES[which], 1);
        compare(rng, c, &st, 40);
    });
    // more noise never makes the factor more certain, in any direction
    ctx.family("monotone", 700, 20000, |rng, c| {
        let par = Params::rand(rng, 1e-4, 1e-1);
        let st = Setup::rand(rng, par, 15, 5.0);
        let which = (c.idx % 7) as usize;
        let mut more = st.params.clone();
        let a = M::from_fn(3, 3, |_, _| rng.normal());
        let s = rng.logu(1e-4, 1.0);
        {
            let m = &mut more.each()[which];
            **m = m.add(&a.mul(&a.t()).scale(s));
        }
        let st2 = Setup { params: more, meas: st.meas.clone(), ..st };
        c.desc(format!("{} grows by {s:e}: {}", NAMES[which], st.describe()));
        c.sig((which, st.meas.len()));
        let (f, g) = (st.factor(), st2.factor());
        let rf = st.reference(true);
        let s1 = State::rand(rng, true);
        let pred = rf.predict(&s1);
        let cond = corr_cond(&rf.cov);
        if !(cond < 1e8) {
            return c.skip("ill-conditioned");
        }
        let sc = sc_of(&rf.cov);
        let mut total = (0.0, 0.0);
        for _ in 0..40 {
            let r: Vec<f64> = sc.iter().map(|s| s * rng.normal() * 0.5).collect();
            let v = values(&s1, &State::offset(&pred, &r));
            let (a, b) = (f.error(&v) as f64, g.error(&v) as f64);
            c.check(a > 0.0 && b > 0.0 && a.is_finite() && b.is_finite(), "positive definite weighting", || format!("{a:e} {b:e}"));
            c.check(b <= a * (1.0 + 1e-9 * cond.max(10.0)), "more noise, less weight", || format!("{a:e} -> {b:e}"));
            total.0 += a;
            total.1 += b;
        }
        c.check(total.1 < total.0, "the noise has an effect", || format!("{total:?}"));
    });
    // integrating more measurements never makes the bias better known; weights stay symmetric positive definite
    ctx.family("definite", 200, 5000, |rng, c| {
        let par = Params::rand(rng, 1e-3, 1e-1);
        let st = Setup::rand(rng, par, 30, 5.0);
        c.desc(st.describe());
        c.sig(st.meas.len());
        let rf = st.reference(true);
        let s1 = State::rand(rng, true);
        let q = observe_q(&st.factor(), &s1, &rf.predict(&s1), &sc_of(&rf.cov));
        let qn = M::from_fn(15, 15, |i, j| q[(i, j)] / (q[(i, i)] * q[(j, j)]).sqrt());
        c.check((0..15).all(|i| q[(i, i)] > 0.0), "positive diagonal", || format!("{q:?}"));
        // Cholesky pivots
        let mut l = qn.clone();
        let mut ok = true;
        for k in 0..15 {
            if !(l[(k, k)] > -1e-7) {
                ok = false;
                break;
            }
            let p = l[(k, k)].max(1e-12);
            for i in k + 1..15 {
                for j in k + 1..15 {
                    let t = l[(i, k)] * l[(k, j)] / p;
                    l[(i, j)] -= t;
                }
            }
        }
        c.check(ok, "weighting is positive definite", || format!("{qn:?}"));
        // an empty history: the factor is still usable and certain
        let e = Setup { meas: vec![], params: st.params.clone(), ..st };
        let v = values(&s1, &s1);
        let err = e.factor().error(&v) as f64;
        c.check(err.is_finite() && err >= 0.0, "no measurement yet", || format!("{err:e}"));
    });
    ctx.family("setters", 300, 3000, |rng, c| {
        let def = ImuCovariance::default();
        let s = |m: &Matrix3| tom!(m);
        let fields = |p: &ImuCovariance| [s(&p.cov_gyro), s(&p.cov_accel), s(&p.cov_gyro_bias), s(&p.cov_accel_bias), s(&p.cov_integration), s(&p.cov_winit), s(&p.cov_ainit)];
        let d0 = fields(&def);
        let want = [1e-5, 1e-5, 1e-6, 1e-6, 1e-7, 1e-7, 1e-7];
        for i in 0..7 {
            c.close_m("default", &d0[i], &M::eye(3).scale(want[i]), 1e-20);
        }
        let x = rng.logu(1e-12, 1e3);
        let mut p = Params::rand(rng, 1e-4, 1e1).real();
        let before = fields(&p);
        let k = rng.below(6);
        c.sig((k, x.to_bits()));
        c.desc(format!("setter {k} value {x:e}"));
        match k {
            0 => p.set_scalar_gyro(d(x)),
            1 => p.set_scalar_accel(d(x)),
            2 => p.set_scalar_gyro_bias(d(x)),
            3 => p.set_scalar_accel_bias(d(x)),
            4 => p.set_scalar_integration(d(x)),
            _ => p.set_scalar_init(d(x)),
        }
        let after = fields(&p);
        for i in 0..7 {
            let hit = i == k || (k == 5 && i >= 5);
            let want = if hit { M::eye(3).scale(d(x) as f64) } else { before[i].clone() };
            c.close_m("a setter sets exactly the named covariance", &after[i], &want, 0.0);
        }
        let _ = Key(0);
    });
    ctx.finish(
        "random SPD parameters and measurement sequences; oracle = the README's Sigma <- A Sigma A' + B Q B' recursion (1e-14 I start), compared through factor errors in single, paired and mixed residual directions; signature = regime, length, conditioning decade",
        &["accumulated local rotation below 5 rad", "covariances whose correlation condition number exceeds 1e9 are not judged", "default parameter values are pinned to the ones the library ships"],
    );
}

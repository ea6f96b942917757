//! C22: the IMU bias correction is the first-order effect of a bias change, and the factor's Jacobian is the true derivative.
use factrs::containers::*;

use harness::imu::*;
use harness::vars::*;
use harness::*;

fn sc_of(cov: &M) -> Vec<f64> {
    (0..15).map(|i| cov[(i, i)].sqrt().clamp(if i < 3 { 0.05 } else { 1e-3 }, if i < 3 { 0.5 } else { 10.0 })).collect()
}

/// derivative of the re-integrated increments with respect to the bias, by central differences
fn exact_h(st: &Setup) -> (M, M) {
    let run = |db: &[f64; 6]| {
        let mut b = st.bias;
        for i in 0..6 {
            b[i] += db[i];
        }
        let mut r = Ref::new(b, st.g);
        for m in &st.meas {
            r.step(m, None);
        }
        let mut o = r.th.clone();
        o.extend(&r.v);
        o.extend(&r.p);
        o
    };
    let h = 1e-5;
    let mut out = (M::zeros(9, 3), M::zeros(9, 3));
    for j in 0..6 {
        let mut e = [0.0; 6];
        e[j] = h;
        let p = run(&e);
        e[j] = -h;
        let m = run(&e);
        for i in 0..9 {
            let v = (p[i] - m[i]) / (2.0 * h);
            if j < 3 {
                out.0[(i, j)] = v;
            } else {
                out.1[(i, j - 3)] = v;
            }
        }
    }
    out
}

/// is the error at the state predicted by `rf` zero?
fn zero(f: &Factor, q: &M, rf: &Ref, s1: &State, extra: f64) -> Result<(), String> {
    let pred = rf.predict(s1);
    let mut tol = rf.tol(s1, &pred);
    for x in tol.iter_mut() {
        *x += extra;
    }
    let e = f.error(&values(s1, &pred)) as f64;
    let lim = quad_slack(q, &[0.0; 15], &tol);
    if e <= lim {
        Ok(())
    } else {
        Err(format!("error {e:e}, limit {lim:e}"))
    }
}

fn main() {
    let ctx = Ctx::from_env("C22");
    let setup = |rng: &mut Rng, n: usize| {
        let par = Params::rand(rng, 1e-3, 1e-1);
        Setup::rand(rng, par, n, 4.5)
    };
    ctx.family("correction", 700, 20000, |rng, c| {
        let st = setup(rng, 60);
        c.desc(st.describe());
        c.sig((st.regime, st.meas.len()));
        let rf = st.reference(true);
        let f = st.factor();
        let mut s0 = State::rand(rng, true);
        s0.b = st.bias;
        let q = observe_q(&f, &s0, &rf.predict(&s0), &sc_of(&rf.cov));
        c.check(zero(&f, &q, &rf, &s0, 0.0).is_ok(), "no effect at the preintegration bias", || zero(&f, &q, &rf, &s0, 0.0).unwrap_err());
        let mut exact: Option<Ref> = None;
        for k in 0..6 {
            let mut s1 = State::rand(rng, true);
            s1.b = st.bias;
            let which = k % 3;
            let s = *rng.pick(&[1e-3, 0.05, 0.5]);
            for i in 0..6 {
                let on = match which {
                    0 => i < 3,
                    1 => i >= 3,
                    _ => true,
                };
                if on {
                    s1.b[i] += rng.normal() * s;
                }
            }
            c.event();
            if which == 1 {
                // exact: the same as re-integrating with the new accelerometer bias
                let mut again = Ref::new(s1.b, st.g);
                for m in &st.meas {
                    again.step(m, None);
                }
                let r = zero(&f, &q, &again, &s1, 1e-9 * (rf.mag_p + rf.mag_v) * (1.0 + s));
                c.check(r.is_ok(), "the accelerometer bias effect is exact", || r.unwrap_err());
            } else {
                let r = zero(&f, &q, &rf, &s1, 0.0);
                if r.is_ok() {
                    c.check(true, "documented", || String::new());
                    continue;
                }
                // an exact first-order derivative instead of the documented approximation is just as right
                let ex = exact.get_or_insert_with(|| {
                    let (hg, ha) = exact_h(&st);
                    Ref { hg, ha, ..rf.clone() }
                });
                let r2 = zero(&f, &q, ex, &s1, 1e-7 * s * (1.0 + ex.hg.max_abs()));
                c.check(r2.is_ok(), "the correction is the documented (or the exact) first-order one", || {
                    format!("documented: {}; exact: {}", r.unwrap_err(), r2.unwrap_err())
                });
            }
        }
    });
    // against re-integration, where the documented approximation is good: little rotation, small bias change
    ctx.family("re-integration", 700, 20000, |rng, c| {
        let mut st = setup(rng, 40);
        for m in st.meas.iter_mut() {
            for i in 0..3 {
                m.w[i] = st.bias[i] + (m.w[i] - st.bias[i]).clamp(-0.1, 0.1);
            }
            m.dt = m.dt.clamp(0.002, 0.05);
            if rng.coin(0.5) {
                m.a[0] += 5.0;
            }
        }
        let rf = st.reference(true);
        if rf.mag_th > 0.06 {
            while st.reference(false).mag_th > 0.06 && st.meas.len() > 1 {
                let n = st.meas.len() / 2;
                st.meas.truncate(n);
            }
        }
        let rf = st.reference(true);
        c.desc(st.describe());
        c.sig((st.regime, st.meas.len()));
        let f = st.factor();
        let mut s1 = State::rand(rng, true);
        s1.b = st.bias;
        let q = observe_q(&f, &s1, &rf.predict(&s1), &sc_of(&rf.cov));
        let u = rng.unit_vec(3);
        let size = (0.02 / rf.t).min(1.0);
        for i in 0..3 {
            s1.b[i] += u[i] * size;
        }
        let mut again = Ref::new(s1.b, st.g);
        for m in &st.meas {
            again.step(m, None);
        }
        // the state re-integration predicts, and the one without any correction
        let good = again.predict(&s1);
        let plain = rf.predict_with(&s1, &rf.th, &rf.v, &rf.p);
        let e = f.error(&values(&s1, &good)) as f64;
        let e0 = quad(&q, &residual(&plain, &good)) / 2.0;
        let lim = 0.05f64.powi(2) * e0 + quad_slack(&q, &[0.0; 15], &rf.tol(&s1, &good));
        // where effects cancel, first order says little: the documented correction itself must be well inside the limit
        let doc = rf.predict(&s1);
        let ed = quad(&q, &residual(&doc, &good)) / 2.0;
        if ed > 0.5 * lim {
            c.count("re-integration: effects cancel", 1);
            return;
        }
        c.event();
        c.check(e <= lim, "correcting reproduces re-integration to first order", || format!("error {e:e} vs {e0:e} uncorrected"));
    });
    ctx.family("jacobian", 500, 15000, |rng, c| {
        let n = *rng.pick(&[1, 3, 30]);
        let st = setup(rng, n);
        c.desc(st.describe());
        let rf = st.reference(true);
        let f = st.factor();
        let mut s1 = State::rand(rng, true);
        if rng.coin(0.5) {
            s1.b = st.bias;
        }
        let sc = sc_of(&rf.cov);
        let pred = rf.predict(&s1);
        let q = observe_q(&f, &s1, &pred, &sc);
        let mode = rng.below(3);
        c.sig((st.regime, st.meas.len(), mode));
        let r: Vec<f64> = match mode {
            0 => vec![0.0; 15],
            1 => sc.iter().map(|s| s * rng.normal() * 0.3).collect(),
            _ => {
                let mut r: Vec<f64> = sc.iter().map(|s| s * rng.normal()).collect();
                let (ax, a) = (rng.unit_vec(3), rng.range(0.5, 2.6));
                for i in 0..3 {
                    r[i] = ax[i] * a;
                }
                r
            }
        };
        let s2 = State::offset(&pred, &r);
        let r = residual(&pred, &s2);
        let vals = values(&s1, &s2);
        let lin = f.linearize(&vals);
        let a = fm(&lin.a.mat().clone_owned());
        let b = fv(&lin.b);
        c.check(a.r == b.len() && a.c == 30, "30 columns", || format!("{}x{} b {}", a.r, a.c, b.len()));
        let ps = [
            ad::arg(&s1.pose()),
            ad::arg(&s1.vel()),
            ad::arg(&s1.bias()),
            ad::arg(&s2.pose()),
            ad::arg(&s2.vel()),
            ad::arg(&s2.bias()),
        ];
        let vec_of = |m: &M, n: usize| m.block(0, n, n, 1).d;
        let fun = |rf: &Ref, ms: &[M]| {
            let st = |x: &M, v: &M, b: &M| State {
                r: x.block(0, 0, 3, 3),
                p: vec_of(x, 3).try_into().unwrap(),
                v: vec_of(v, 3).try_into().unwrap(),
                b: vec_of(b, 6).try_into().unwrap(),
            };
            residual(&rf.predict(&st(&ms[0], &ms[1], &ms[2])), &st(&ms[3], &ms[4], &ms[5]))
        };
        let mut res = vec![];
        for variant in 0..2 {
            let rv = if variant == 0 {
                rf.clone()
            } else {
                let (hg, ha) = exact_h(&st);
                Ref { hg, ha, ..rf.clone() }
            };
            let r = if variant == 0 { r.clone() } else { residual(&rv.predict(&s1), &s2) };
            let j = ad::numjac(&ps, &|ms: &[M]| fun(&rv, ms));
            // A'A = J'QJ and A'b = -J'Qr hold whatever square root of Q whitens
            let want = j.t().mul(&q).mul(&j);
            let got = a.t().mul(&a);
            // scale: |sqrt(Q) J_col|, bounded by the entries' own weights
            let w: Vec<f64> = (0..30).map(|k| (0..15).map(|i| q[(i, i)].abs().sqrt() * (j[(i, k)].abs() + 1e-3)).sum::<f64>()).collect();
            let tol = 3e-6;
            let mut worst = (0.0, 0, 0);
            for x in 0..30 {
                for y in 0..30 {
                    let e = (got[(x, y)] - want[(x, y)]).abs() / (w[x] * w[y]);
                    if !(e <= worst.0) {
                        worst = (e, x, y);
                    }
                }
            }
            let gb = a.t().mv(&b);
            let wb = la::scale(&j.t().mv(&q.mv(&r)), -1.0);
            let rn: f64 = (0..15).map(|i| q[(i, i)].abs().sqrt() * (r[i].abs() + 1e-5)).sum();
            let mut wg = (0.0, 0);
            for x in 0..30 {
                let e = (gb[x] - wb[x]).abs() / (w[x] * rn);
                if !(e <= wg.0) {
                    wg = (e, x);
                }
            }
            if worst.0 <= tol && wg.0 <= tol {
                c.check(true, "jacobian", || String::new());
                return;
            }
            res.push(format!("J'QJ off by {:e} at {:?} (got {:e} want {:e}); J'Qr off by {:e} at {}", worst.0, (worst.1, worst.2), got[(worst.1, worst.2)], want[(worst.1, worst.2)], wg.0, wg.1));
        }
        c.fail("the Jacobian is the derivative of the residual for all six variables", res.join(" / exact-H: "));
    });
    // the gradient the factor reports is the derivative of its own error along every tangent direction
    ctx.family("gradient", 200, 6000, |rng, c| {
        let st = setup(rng, 20);
        let rf = st.reference(true);
        let f = st.factor();
        let s1 = State::rand(rng, true);
        let pred = rf.predict(&s1);
        let sc = sc_of(&rf.cov);
        let r: Vec<f64> = sc.iter().map(|s| s * rng.normal()).collect();
        if la::norm(&r[0..3]) > 2.5 {
            return c.skip("rotation near pi");
        }
        let s2 = State::offset(&pred, &r);
        let v = values(&s1, &s2);
        c.desc(st.describe());
        c.sig((st.regime, st.meas.len()));
        let lin = f.linearize(&v);
        let a = fm(&lin.a.mat().clone_owned());
        let g = la::scale(&a.t().mv(&fv(&lin.b)), -1.0);
        let e0 = f.error(&v) as f64;
        let dims = [6, 3, 6, 6, 3, 6];
        let mut col = 0;
        for (i, n) in dims.iter().enumerate() {
            for k in 0..*n {
                let h = 1e-4;
                let ev = |s: f64| {
                    let mut xi = vec![0.0; *n];
                    xi[k] = s;
                    let mut w = v.clone();
                    let b = w.entry(Key(KEYS[i]));
                    if let std::collections::hash_map::Entry::Occupied(mut o) = b {
                        o.get_mut().oplus_mut(vx(&xi).as_view());
                    }
                    f.error(&w) as f64
                };
                let num = (8.0 * (ev(h) - ev(-h)) - (ev(2.0 * h) - ev(-2.0 * h))) / (12.0 * h);
                let cn: f64 = (0..a.r).map(|i| a[(i, col)].powi(2)).sum::<f64>();
                let tol = 1e-6 * (cn.sqrt() * e0.sqrt() + cn * 1e-2) + 1e-10 * e0 / h;
                c.close("gradient of the error", g[col], num, tol);
                col += 1;
            }
        }
    });
    ctx.finish(
        "random preintegrations evaluated at other biases: documented correction, exact accelerometer effect and re-integration; linearisation against numerical differentiation of the reference residual (whitening-root independent: A'A and A'b) and of the factor's own error; signature = regime, length, residual size",
        &["accumulated local rotation below 4.5 rad", "the gyro correction may be the documented approximation or the exact derivative"],
    );
}

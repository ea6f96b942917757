//! C02: exp is the matrix exponential of the tangent vector, log its principal inverse.
use factrs::variables::*;
use harness::vars::*;
use harness::*;
use std::f64::consts::PI;

fn tols<V: VarX>(mag: f64) -> f64 {
    if V::ROT == 0 {
        1e-13 * mag
    } else if V::ROT == V::DIM {
        8e-10
    } else {
        4e-9 * mag
    }
}

fn expo<V: VarX>(ctx: &Ctx) {
    ctx.family(&format!("exp/{}", V::NAME), 8000, 400000, |rng, c| {
        let (mut xi, b) = V::rand_tangent(rng);
        let mut bucket = b;
        let wide = V::ROT > 0 && rng.coin(0.25);
        if wide {
            // beyond the principal range: exp is defined for every tangent vector
            let n = la::norm(&xi[..V::ROT]);
            if n > 1e-3 {
                let target = match rng.below(4) {
                    0 => rng.range(PI, 2.0 * PI),
                    1 => rng.range(2.0 * PI, 4.0 * PI),
                    2 => rng.range(4.0 * PI, 40.0),
                    _ => 2.0 * PI * rng.int(1, 3) as f64 + rng.range(-1e-3, 1e-3),
                };
                for i in 0..V::ROT {
                    xi[i] *= target / n;
                }
                bucket += 1000 + (target / PI) as u32 * 7;
            }
        }
        c.desc(format!("xi={xi:?}"));
        c.sig((bucket, xi[0] < 0.0));
        let x = V::e_exp(&xi);
        let want = V::ref_exp(&xi);
        let mag = 1.0 + la::norm(&xi);
        // exp itself: small-angle branches are accurate to 2e-11 (rotation) and 2e-9*|t| (translation)
        let te = if V::ROT == 0 { 1e-13 * mag } else if V::ROT == V::DIM { 8e-11 } else { 4e-9 * mag };
        c.close_m("exp(xi) = expm(hat(xi))", &x.mat(), &want, te);
        c.check(x.defect() <= 5e-14, "exp lands on the group", || format!("defect {:e}", x.defect()));
        // exp(-xi) = exp(xi)^-1
        let neg: Vec<f64> = xi.iter().map(|v| -v).collect();
        let p = x.compose(&V::e_exp(&neg));
        // (not a one-parameter group with the approximate exponential of rigid motions)
        if !(cfg!(feature = "fake_exp") && V::ROT > 0 && V::ROT < V::DIM) {
            c.close_m("exp(xi)exp(-xi) = e", &p.mat(), &M::eye(want.r), 2.0 * te);
        }
        // round trip
        let back = x.e_log();
        c.check(back.len() == V::DIM, "log has DIM entries", || format!("{}", back.len()));
        let again = V::ref_exp(&back);
        c.close_m("expm(hat(log(exp(xi)))) = exp(xi)", &again, &x.mat(), 2.0 * tols::<V>(mag));
        let ang = la::norm(&xi[..V::ROT]);
        if ang < PI - 1e-7 {
            let t = tols::<V>(mag);
            c.close_v("log(exp(xi)) = xi within the principal range", &back, &xi, 2.0 * t);
            // relative accuracy of tiny vectors: nothing may be flushed or distorted
            let n = la::norm(&xi);
            if n > 1e-280 && n < 1e-3 {
                let e = la::norm(&la::sub(&back, &xi)) / n;
                c.check(e < 1e-6, "log(exp(xi)) relative accuracy for tiny xi", || format!("rel err {e:e} at |xi|={n:e}"));
            }
        }
    });
}

fn logo<V: VarX>(ctx: &Ctx) {
    ctx.family(&format!("log/{}", V::NAME), 8000, 400000, |rng, c| {
        // elements reached through raw constructors and through products (either quaternion sign)
        let (mut x, mut b) = V::rand(rng);
        for _ in 0..rng.below(4) {
            let (y, by) = V::rand(rng);
            x = x.compose(&y);
            b = b.wrapping_mul(31).wrapping_add(by) % 100003;
        }
        c.desc(format!("x={:?} ({x:?})", x.mat()));
        c.sig(b);
        let l = x.e_log();
        let mag = x.mag();
        if !c.check(l.len() == V::DIM && l.iter().all(|v| v.is_finite()), "log is finite with DIM entries", || format!("{l:?}")) {
            return;
        }
        let r = la::norm(&l[..V::ROT]);
        c.check(r <= PI + 1e-9, "log is principal: rotation angle <= pi", || format!("angle {r}"));
        let t = tols::<V>(mag);
        c.close_m("expm(hat(log(x))) = x", &V::ref_exp(&l), &x.mat(), 2.0 * t);
        c.close_m("exp(log(x)) = x", &V::e_exp(&l).mat(), &x.mat(), 4.0 * t);
        let want = V::ref_log(&x.mat());
        let wr = la::norm(&want[..V::ROT]);
        if wr < PI - 1e-6 {
            c.close_v("log(x) = reference principal logarithm", &l, &want, 4.0 * t + 1e-13 * mag / (PI - wr));
        }
        // log(x^-1) = -log(x) away from the branch cut
        if wr < PI - 1e-6 && !(cfg!(feature = "fake_exp") && V::ROT > 0 && V::ROT < V::DIM) {
            let li = x.inverse().e_log();
            let neg: Vec<f64> = l.iter().map(|v| -v).collect();
            c.close_v("log(x^-1) = -log(x)", &li, &neg, 4.0 * t + 1e-12 * mag / (PI - wr));
        }
    });
}

fn main() {
    let ctx = Ctx::from_env("C02");
    for_all_vars!(expo(&ctx));
    for_all_vars!(logo(&ctx));
    // the two quaternions of one rotation have the same logarithm
    ctx.family("log/double-cover", 8000, 400000, |rng, c| {
        let (q, b) = rand_quat(rng);
        c.desc(format!("q={q:?}"));
        c.sig(b);
        let n = [-q[0], -q[1], -q[2], -q[3]];
        let (a, bb) = (so3(q).e_log(), so3(n).e_log());
        let ang = la::norm(&a);
        if ang < PI - 1e-6 {
            c.close_v("log(q) = log(-q)", &a, &bb, 1e-9);
        } else {
            c.close_m("exp(log(q)) = exp(log(-q))", &V3::ref_exp(&a), &V3::ref_exp(&bb), 1e-9);
        }
    });
    type V3 = SO3;
    // rotations whose coordinates are exact (signed permutation matrices, the 24 Hurwitz quaternions):
    // half turns have b == 0 or w == 0 exactly, which no rounded sine produces
    ctx.family("log/exact", 3000, 100000, |rng, c| {
        fn go<V: VarX>(c: &mut Case, x: &V) {
            let l = x.e_log();
            let mag = x.mag();
            if !c.check(l.len() == V::DIM && l.iter().all(|v| v.is_finite()), "log is finite with DIM entries", || format!("{l:?}")) {
                return;
            }
            let r = la::norm(&l[..V::ROT]);
            c.check(r <= PI + 1e-9, "log is principal: rotation angle <= pi", || format!("angle {r}"));
            let t = tols::<V>(mag);
            c.close_m("expm(hat(log(x))) = x", &V::ref_exp(&l), &x.mat(), 2.0 * t);
            c.close_m("exp(log(x)) = x", &V::e_exp(&l).mat(), &x.mat(), 4.0 * t);
        }
        let which = rng.below(6);
        let (t, tb) = rand_trans(rng, 3);
        if which < 2 {
            let k = rng.below(4);
            let (cs, sn): (f64, f64) = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][k as usize];
            // both signs of an exact zero
            let (cs, sn) = if rng.coin(0.5) { (cs, sn) } else { (if cs == 0.0 { -cs } else { cs }, if sn == 0.0 { -sn } else { sn }) };
            c.desc(format!("a={cs} b={sn} t={t:?}"));
            c.sig((which, k, tb, sn.is_sign_negative()));
            if which == 0 {
                let m = factrs::linalg::Matrix2::new(d(cs), d(-sn), d(sn), d(cs));
                go(c, &SO2::from_matrix(m.as_view()));
            } else {
                let m = factrs::linalg::Matrix3::new(d(cs), d(-sn), d(t[0]), d(sn), d(cs), d(t[1]), d(0.0), d(0.0), d(1.0));
                go(c, &SE2::from_matrix(m.as_view()));
            }
        } else {
            let mut q = [0.0f64; 4];
            let k = if rng.coin(0.5) {
                let k = rng.below(4);
                q[k as usize] = rng.sign();
                k
            } else {
                for v in q.iter_mut() {
                    *v = 0.5 * rng.sign();
                }
                4
            };
            let sgn = (0..4).fold(0u32, |a, i| a * 2 + q[i].is_sign_negative() as u32);
            c.desc(format!("q={q:?} t={t:?}"));
            c.sig((which, k, sgn, tb));
            let r = SO3::from_xyzw(d(q[0]), d(q[1]), d(q[2]), d(q[3]));
            let rm = SO3::from_matrix(r.to_matrix().as_view());
            let tr = factrs::linalg::Vector3::new(d(t[0]), d(t[1]), d(t[2]));
            match which {
                2 => go(c, &r),
                3 => go(c, &rm),
                4 => go(c, &SE3::from_rot_trans(r, tr)),
                _ => go(c, &SE3::from_rot_trans(rm, tr)),
            }
        }
    });
    // planar accessors agree with the log
    ctx.family("theta", 4000, 50000, |rng, c| {
        let (a, b) = rng.angle();
        let a = a * rng.sign() + if rng.coin(0.3) { 2.0 * PI * rng.int(1, 3) as f64 } else { 0.0 };
        let (t, tb) = rand_trans(rng, 2);
        c.desc(format!("theta={a} t={t:?}"));
        c.sig((b, tb));
        let w = a.sin().atan2(a.cos());
        let circ = |c: &mut Case, l: &str, g: f64| {
            let dd = (g - w).abs();
            let dd = dd.min((dd - 2.0 * PI).abs());
            c.check(dd <= 1e-13 + 1e-15 * a.abs(), l, || format!("got {g} want {w}"));
        };
        let s = SO2::from_theta(d(a));
        let e = SE2::new(d(a), d(t[0]), d(t[1]));
        circ(c, "SO2 to_theta", s.to_theta() as f64);
        circ(c, "SO2 log", s.e_log()[0]);
        circ(c, "SE2 theta", e.theta() as f64);
        circ(c, "SE2 log", e.e_log()[0]);
    });
    ctx.finish(
        "tangent vectors whose rotation angle is drawn from 12 regimes (0, denormal, around each small-angle threshold, near pi, special) and, in a quarter of the cases, beyond pi up to 40 rad; group elements from raw constructors and products with either quaternion sign; oracle: scaling-and-squaring matrix exponential and an independent principal logarithm; distinct by regime",
        &["small-angle approximations may cost up to 8e-10 (rotation) / 4e-9*|t| (translation)", "the sign of the rotation axis at exactly pi is free"],
    );
}

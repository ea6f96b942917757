//! C06: numerical differentiation converges to the true derivative.
use factrs::dtype;
use factrs::linalg::*;
use factrs::variables::*;
use harness::ad::*;
use harness::custom::Aff1;
use harness::vars::*;
use harness::*;

/// error allowed for a central difference at step h of a function with O(1) derivatives and values
fn num_tol(h: f64) -> f64 {
    30.0 * h * h + 1e-13 / h
}

include!("../diffcases.rs");

/// Manifold-valued functions: a product chain of the arguments with constants in between.
/// d (f ominus f0) / d xi_i is exact: for right perturbation of x_i in f = L x_i^{s} R, it is an adjoint transport.
macro_rules! manifold_case {
    ($ctx:expr, $V:ident, $num:literal, $q:expr, $( $x:ident ),*) => { paste::paste! {
        $ctx.family(concat!("manifold/", $num, "-", stringify!($V)), $q, $q * 20, |rng, c| {
            let mut sigs = vec![];
            let mut ds = String::new();
            $( let ($x, b) = <$V as VarX>::rand(rng); sigs.push(b); ds += &format!(" {}={:?}", stringify!($x), $x.mat()); )*
            let consts: Vec<$V> = (0..=$num).map(|_| <$V as VarX>::rand(rng).0).collect();
            let inv: Vec<bool> = (0..$num).map(|_| rng.coin(0.4)).collect();
            c.desc(format!("{ds} consts={:?} inv={inv:?}", consts.iter().map(|k| k.mat()).collect::<Vec<_>>()));
            c.sig(sigs);
            let f = |$( $x: $V ),*| -> $V {
                let mut r = consts[0].clone();
                let mut i = 0;
                $( {
                    let a = if inv[i] { $x.inverse() } else { $x };
                    r = r.compose(&a).compose(&consts[i + 1]);
                    i += 1;
                } )*
                let _ = i;
                r
            };
            // reference on matrices
            let ms: Vec<M> = vec![ $( $x.mat() ),* ];
            let cm: Vec<M> = consts.iter().map(|k| k.mat()).collect();
            let chain = |ms: &[M]| {
                let mut r = cm[0].clone();
                for i in 0..ms.len() {
                    let a = if inv[i] { ms[i].inv().unwrap() } else { ms[i].clone() };
                    r = r.mul(&a).mul(&cm[i + 1]);
                }
                r
            };
            let f0 = chain(&ms);
            let ps = [ $( arg(&$x) ),* ];
            let f0i = f0.inv().unwrap();
            let want = numjac(&ps, &|m: &[M]| {
                let r = chain(m);
                <$V as VarX>::ref_log(&if cfg!(feature = "left") { r.mul(&f0i) } else { f0i.mul(&r) })
            });
            let scale = f0.max_abs().max(1.0) * ms.iter().chain(&cm).map(|m| m.max_abs()).fold(1.0, f64::max);
            let mag = 1.0 + scale;
            let (res, h) = match rng.below(3) {
                0 => (NumericalDiff::<3>::[<jacobian_variable_ $num>](&f, $( &$x ),*), 1e-3),
                1 => (NumericalDiff::<4>::[<jacobian_variable_ $num>](&f, $( &$x ),*), 1e-4),
                _ => (NumericalDiff::<5>::[<jacobian_variable_ $num>](&f, $( &$x ),*), 1e-5),
            };
            c.count(&format!("step {h:e}"), 1);
            c.close_m("manifold value (unperturbed)", &res.value.mat(), &f0, 1e-12 * mag);
            let d2 = want.max_abs();
            c.close_m("manifold jacobian", &fm(&res.diff), &want, (num_tol(h) + fake(h) + 3e-6) * (mag + d2));
        });
    } };
}

fn main() {
    let ctx = Ctx::from_env("C06");
    feature_functions!(ctx, numerical);
    library_functions!(ctx, numerical);
    macro_rules! chains { ($V:ident, $q:expr) => {
        manifold_case!(ctx, $V, 1, $q, a);
        manifold_case!(ctx, $V, 2, $q, a, b);
        manifold_case!(ctx, $V, 3, $q / 2, a, b, e);
        manifold_case!(ctx, $V, 4, $q / 3, a, b, e, g);
        manifold_case!(ctx, $V, 5, $q / 4, a, b, e, g, k);
        manifold_case!(ctx, $V, 6, $q / 5, a, b, e, g, k, l);
    } }
    chains!(SO2, 300);
    chains!(SE2, 500);
    chains!(SO3, 500);
    chains!(SE3, 400);
    chains!(VectorVar3, 200);
    chains!(VectorVar6, 200);
    chains!(ImuBias, 200);
    // mixed input types, manifold output
    ctx.family("manifold/mixed", 3000, 60000, |rng, c| {
        let (p, b1) = SE3::rand(rng);
        let (r, b2) = SO3::rand(rng);
        let (t, b3) = VectorVar3::rand(rng);
        c.desc(format!("p={:?} r={:?} t={:?}", p.mat(), r.mat(), t.mat()));
        c.sig((b1, b2, b3));
        let f = |p: SE3, r: SO3, t: VectorVar3| p.compose(&SE3::from_rot_trans(r, t.0));
        let reff = |m: &[M]| {
            let tv = [m[2][(0, 3)], m[2][(1, 3)], m[2][(2, 3)]];
            m[0].mul(&homog(&m[1], &tv))
        };
        let ms = [p.mat(), r.mat(), t.mat()];
        let f0 = reff(&ms);
        let f0i = f0.inv().unwrap();
        let want = numjac(&[arg(&p), arg(&r), arg(&t)], &|m| {
            SE3::ref_log(&if cfg!(feature = "left") { reff(m).mul(&f0i) } else { f0i.mul(&reff(m)) })
        });
        let res = NumericalDiff::<4>::jacobian_variable_3(f, &p, &r, &t);
        let mag = 1.0 + ms.iter().map(|m| m.max_abs()).fold(f0.max_abs(), f64::max) + want.max_abs();
        c.close_m("value", &res.value.mat(), &f0, 1e-12 * mag);
        c.close_m("mixed manifold jacobian", &fm(&res.diff), &want, (num_tol(1e-4) + fake(1e-4) + 3e-6) * mag);
    });
    // the chosen power is the step actually used: functions that vary on the scale of the step (error about (kh)^2/6), and
    // large values of which a step smaller than asked for would drown the derivative in rounding
    macro_rules! stiff { ($P:literal) => {
        ctx.family(concat!("step/", $P), 1200, 24000, |rng, c| {
            let h = 10f64.powi(-$P);
            let n = 1 + rng.below(3);
            let steep = rng.coin(0.6);
            let wave = rng.logu(3e-3, 0.3) / h;
            let big = rng.logu(1.0, 1e6);
            let x: Vec<f64> = (0..6).map(|_| rng.normal() * rng.logu(1e-2, 2.0)).collect();
            let w: Vec<f64> = (0..6).map(|_| if steep { wave * rng.sign() * rng.range(0.2, 1.0) } else { rng.normal() }).collect();
            let ph: Vec<f64> = (0..6).map(|_| rng.range(-3.0, 3.0)).collect();
            c.desc(format!("h={h:e} n={n} steep={steep} big={big} x={x:?} w={w:?} ph={ph:?}"));
            c.sig((n, steep, (wave * h * 30.0) as i64));
            // entry i depends on coordinate i alone
            let f = |t: &[f64]| -> Vec<f64> {
                t.iter().enumerate().map(|(i, t)| if steep { (w[i] * t + ph[i]).sin() } else { big + w[i] * t }).collect()
            };
            let dim = 2 * n;
            let got = match n {
                1 => {
                    let g = |a: VectorVar2| VectorX::from_vec(f(a.0.as_slice()));
                    let v = |a: VectorVar2| { let r = f(a.0.as_slice()); VectorVar2::new(r[0], r[1]) };
                    let a = VectorVar2::new(x[0], x[1]);
                    if rng.coin(0.5) { NumericalDiff::<$P>::jacobian_1(g, &a).diff } else { NumericalDiff::<$P>::jacobian_variable_1(v, &a).diff }
                }
                2 => {
                    let j = |a: &VectorVar3, b: &VectorVar1| vec![a.0[0], a.0[1], a.0[2], b.0[0]];
                    let g = |a: VectorVar3, b: VectorVar1| VectorX::from_vec(f(&j(&a, &b)));
                    let v = |a: VectorVar3, b: VectorVar1| { let r = f(&j(&a, &b)); VectorVar4::new(r[0], r[1], r[2], r[3]) };
                    let (a, b) = (VectorVar3::new(x[0], x[1], x[2]), VectorVar1::new(x[3]));
                    if rng.coin(0.5) { NumericalDiff::<$P>::jacobian_2(g, &a, &b).diff } else { NumericalDiff::<$P>::jacobian_variable_2(v, &a, &b).diff }
                }
                _ => {
                    let j = |a: &VectorVar1, b: &VectorVar3, e: &VectorVar2| vec![a.0[0], b.0[0], b.0[1], b.0[2], e.0[0], e.0[1]];
                    let g = |a: VectorVar1, b: VectorVar3, e: VectorVar2| VectorX::from_vec(f(&j(&a, &b, &e)));
                    let v = |a: VectorVar1, b: VectorVar3, e: VectorVar2| { let r = f(&j(&a, &b, &e)); VectorVar6::new(r[0], r[1], r[2], r[3], r[4], r[5]) };
                    let (a, b, e) = (VectorVar1::new(x[0]), VectorVar3::new(x[1], x[2], x[3]), VectorVar2::new(x[4], x[5]));
                    if rng.coin(0.5) { NumericalDiff::<$P>::jacobian_3(g, &a, &b, &e).diff } else { NumericalDiff::<$P>::jacobian_variable_3(v, &a, &b, &e).diff }
                }
            };
            c.check(got.nrows() == dim && got.ncols() == dim, "shape", || format!("{}x{}", got.nrows(), got.ncols()));
            for i in 0..dim {
                for k in 0..dim {
                    let (want, tol) = if i != k {
                        (0.0, 0.0)
                    } else if steep {
                        let kh = w[i].abs() * h;
                        (w[i] * (w[i] * x[i] + ph[i]).cos(), w[i].abs() * kh * kh / 4.0 + 1e-14 * (1.0 + w[i].abs() * (1.0 + x[i].abs())) / h)
                    } else {
                        (w[i], 2e-15 * (big + (1.0 + w[i].abs()) * (1.0 + x[i].abs())) / h)
                    };
                    c.close(if steep { "steep function: error (kh)^2/6" } else { "large value: error eps/h" }, got[(i, k)], want, tol);
                }
            }
        });
    } }
    stiff!(2);
    stiff!(3);
    stiff!(4);
    stiff!(5);
    stiff!(6);
    stiff!(7);
    ctx.family("scalar", 20000, 400000, |rng, c| {
        let x = if rng.coin(0.2) { 0.0 } else { rng.normal() * rng.logu(1e-3, 20.0) };
        let eps = rng.logu(1e-7, 0.5);
        let (a, b, k) = (rng.normal(), rng.normal(), rng.normal());
        c.desc(format!("x={x} eps={eps} {a} {b} {k}"));
        c.sig((x.to_bits(), eps.to_bits()));
        let g = numerical_derivative(|t| d(a) * (d(k) * t).sin() + d(b) * t * t * t, d(x), d(eps));
        let f = |t: f64| a * (k * t).sin() + b * t * t * t;
        // exact central difference: a cos(kx) sin(k eps)/eps + b(3x^2 + eps^2)
        let want = a * (k * x).cos() * (k * eps).sin() / eps + b * (3.0 * x * x + eps * eps);
        let mag = 1.0 + f(x).abs() + (b * x * x * x).abs() * 4.0 + a.abs();
        c.close("scalar value", g.value as f64, f(x), 1e-13 * mag);
        c.close("central difference at the requested step", g.diff as f64, want, 1e-12 * mag + 4e-15 * mag / eps);
    });
    ctx.finish(
        "one evaluation = one function at one point and one step size (powers 3 to 6): value and every Jacobian column compared with the exact derivative (feature functions) or 4th-order differences of an independent matrix-level map; distinct = regimes of the inputs",
        &["step/N: functions with k*h from 3e-3 to 0.3 within k(kh)^2/4, and values up to 1e6 within 2e-15 of the value over the step","tolerance 30 h^2 + 1e-13/h (relative), plus 4e-9/h where log/exp switch to their small-angle branch within the stencil"],
    );
}

/// with the approximate logarithm the central difference of a rigid motion is only first order accurate
fn fake(h: f64) -> f64 {
    if cfg!(feature = "fake_exp") {
        2.0 * h
    } else {
        0.0
    }
}

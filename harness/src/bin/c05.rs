//! C05: forward-mode differentiation is exact for every function and mix of inputs.
use factrs::dtype;
use factrs::linalg::*;
use factrs::variables::*;
use harness::ad::*;
use harness::custom::Aff1;
use harness::vars::*;
use harness::*;

include!("../diffcases.rs");

fn main() {
    let ctx = Ctx::from_env("C05");
    feature_functions!(ctx, forward);
    library_functions!(ctx, forward);
    ctx.family("scalar", 20000, 400000, |rng, c| {
        let x = if rng.coin(0.2) { 0.0 } else { rng.normal() * rng.logu(1e-3, 20.0) };
        let (a, b, p, q) = (rng.normal(), rng.normal(), rng.normal(), rng.normal());
        c.desc(format!("x={x} coef {a} {b} {p} {q}"));
        c.sig(x.to_bits());
        let g = forward_prop_derivative(
            |t| {
                let s = num_dual::DualNum::sin(&(t * d(p)));
                let e = num_dual::DualNum::exp(&(t * d(q) * d(0.05)));
                s * d(a) + e * t * d(b) + t * t * t
            },
            d(x),
        );
        let e = (q * 0.05 * x).exp();
        let want = a * p * (p * x).cos() + b * e * (1.0 + q * 0.05 * x) + 3.0 * x * x;
        let val = a * (p * x).sin() + b * e * x + x * x * x;
        let mag = 1.0 + val.abs() + want.abs() + (a * p * p * x).abs();
        c.close("scalar value", g.value as f64, val, 1e-12 * mag);
        c.close("scalar derivative", g.diff as f64, want, 1e-12 * mag);
    });
    ctx.finish(
        "one evaluation = one function (random coefficients / one library operation) at one point: the value and every Jacobian column compared with the exact matrix derivative (feature functions) or 4th-order differences of an independent matrix-level map (library functions); distinct = regimes of the inputs (angle and translation buckets, types)",
        &["points within 0.03 rad of the log's cut locus are skipped for functions containing log", "small-angle approximations inside log/exp are granted 3e-6*scale"],
    );
}

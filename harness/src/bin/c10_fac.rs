//! C10 (macro part): every accepted form of fac! builds the factor the builder would build.
use factrs::assign_symbols;
use factrs::containers::{Factor, FactorBuilder, Key, TypedSymbol, Values};
use factrs::linalg::{Const, ForwardProp, Numeric, VectorX};
use factrs::noise::GaussianNoise;
use factrs::residuals::*;
use factrs::robust::*;
use factrs::variables::*;
use harness::users::*;
use harness::vars::*;
use harness::*;
use std::fmt;

assign_symbols!(X: SE2; Y: VectorVar3; R: SO3; P: SE3; A: VectorVar1; S: SO2; B: ImuBias, VectorVar3; D: VectorVar2, VectorVar4);
use harness::custom::Aff1;
assign_symbols!(W: Aff1);

fn same(c: &mut Case, label: &str, got: &Factor, want: &Factor, vals: &Values) {
    c.event();
    let Some(e) = c.no_panic(label, || got.error(vals) as f64) else { return };
    let w = want.error(vals) as f64;
    c.close(&format!("{label}: error"), e, w, 1e-12 * (1.0 + w.abs()));
    c.check(got.keys() == want.keys(), &format!("{label}: keys"), || format!("{:?} want {:?}", got.keys(), want.keys()));
    c.check(got.dim_out() == want.dim_out(), &format!("{label}: dim_out"), || "differs".into());
    let (l, m) = (got.linearize(vals), want.linearize(vals));
    let (a, b) = (tom!(l.a.mat()), tom!(m.a.mat()));
    c.close_m(&format!("{label}: A"), &a, &b, 1e-12 * (1.0 + b.max_abs()));
    c.close_v(&format!("{label}: b"), &fv(&l.b), &fv(&m.b), 1e-12 * (1.0 + la::norm(&fv(&m.b))));
    for i in 0..want.keys().len() {
        c.close_m(&format!("{label}: block"), &tom!(l.a.get_block(i)), &tom!(m.a.get_block(i)), 1e-12 * (1.0 + b.max_abs()));
    }
}
fn gn<const N: usize>(rng: &mut Rng) -> GaussianNoise<N> {
    GaussianNoise::<N>::from_scalar_sigma(d(rng.logu(0.05, 5.0)))
}
#[derive(Clone, Debug)]
struct Q1;
impl fmt::Display for Q1 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Q1")
    }
}
#[factrs::mark]
impl Residual1 for Q1 {
    type DimIn = Const<1>;
    type DimOut = Const<1>;
    type V1 = VectorVar1;
    type Differ = ForwardProp<Const<1>>;
    fn residual1<T: Numeric>(&self, v: VectorVar1<T>) -> VectorX<T> {
        VectorX::from_element(1, v.0[0] * v.0[0] - T::from(d(2.0)))
    }
}
fn typed<V: VariableUmbrella, T: TypedSymbol<V>>(t: T) -> Key {
    t.into()
}

fn main() {
    let ctx = Ctx::from_env("C10");
    ctx.family("macro-forms", 600, 20000, |rng, c| {
        let i = if rng.coin(0.3) { u32::MAX as u64 - rng.below(3) as u64 } else { rng.below(100) as u64 };
        let j = i.wrapping_sub(1 + rng.below(5) as u64) & 0xffff_ffff;
        let mut vals = Values::new();
        let se2 = SE2::rand(rng).0;
        let z = SE2::rand(rng).0;
        vals.insert(X(i), se2.clone());
        vals.insert(X(j), se2.compose(&z).oplus(vx(&SE2::small_tangent(rng, 0.3)).as_view()));
        vals.insert(Y(i), VectorVar3::rand(rng).0);
        vals.insert(R(i), SO3::rand(rng).0);
        vals.insert(P(i), SE3::rand(rng).0);
        vals.insert(A(i), VectorVar1::rand(rng).0);
        vals.insert(A(j), VectorVar1::rand(rng).0);
        vals.insert(S(i), SO2::rand(rng).0);
        vals.insert(B(i), ImuBias::rand(rng).0);
        vals.insert(D(i), VectorVar2::rand(rng).0);
        vals.insert(D(j), VectorVar4::rand(rng).0);
        vals.insert(W(i), Aff1::rand(rng).0);
        let noise = gn::<3>(rng);
        let kp = rng.logu(0.1, 10.0);
        let k = || Cauchy::new(d(kp));
        c.desc(format!("i={i} j={j} z={:?} noise={noise:?} cauchy={kp}", z.mat()));
        c.sig((i, j, (kp * 4.0) as u32));
        let pr = || PriorResidual::new(z.clone());
        let be = || BetweenResidual::new(z.clone());
        let xi: X = X(i);
        let w0 = FactorBuilder::new1_unchecked(pr(), Key::from(X(i))).build();
        let w1 = FactorBuilder::new1_unchecked(pr(), X(i)).noise(noise.clone()).build();
        let w2 = FactorBuilder::new1_unchecked(pr(), X(i)).noise(noise.clone()).robust(k()).build();
        let v0 = FactorBuilder::new2_unchecked(be(), X(i), X(j)).build();
        let v1 = FactorBuilder::new2_unchecked(be(), X(i), X(j)).noise(noise.clone()).build();
        let v2 = FactorBuilder::new2_unchecked(be(), X(i), X(j)).robust(k()).noise(noise.clone()).build();
        // the typed builder and the unchecked one
        same(c, "new1", &FactorBuilder::new1(pr(), X(i)).build(), &w0, &vals);
        same(c, "new2", &FactorBuilder::new2(be(), X(i), X(j)).noise(noise.clone()).robust(k()).build(), &v2, &vals);
        // set again: the last noise and kernel are the factor's
        let other = GaussianNoise::from_scalar_sigma(d(7.0));
        same(c, "noise set twice", &FactorBuilder::new1(pr(), X(i)).noise(other).noise(noise.clone()).build(), &w1, &vals);
        same(c, "kernel set twice", &FactorBuilder::new1(pr(), X(i)).robust(factrs::robust::L2).noise(noise.clone()).robust(k()).build(), &w2, &vals);
        // one key
        same(c, "fac![r, X(i)]", &factrs::fac![pr(), X(i)], &w0, &vals);
        same(c, "fac![r, x]", &factrs::fac![pr(), xi], &w0, &vals);
        same(c, "fac![r, (x,)]", &factrs::fac![pr(), (X(i),)], &w0, &vals);
        same(c, "fac![r, [x]]", &factrs::fac![pr(), [X(i)]], &w0, &vals);
        same(c, "fac!(r, x, )", &factrs::fac!(pr(), X(i),), &w0, &vals);
        same(c, "fac![r, X(i), n]", &factrs::fac![pr(), X(i), noise.clone()], &w1, &vals);
        same(c, "fac![r, x, n]", &factrs::fac![pr(), xi, noise.clone()], &w1, &vals);
        same(c, "fac![r, (x,), n]", &factrs::fac![pr(), (xi,), noise.clone()], &w1, &vals);
        same(c, "fac![r, [x], n]", &factrs::fac![pr(), [xi], noise.clone()], &w1, &vals);
        same(c, "fac![r, X(i), n, k]", &factrs::fac![pr(), X(i), noise.clone(), k()], &w2, &vals);
        same(c, "fac![r, (x,), n, k]", &factrs::fac![pr(), (xi,), noise.clone(), k()], &w2, &vals);
        same(c, "fac![r, [x], n, k]", &factrs::fac![pr(), [X(i)], noise.clone(), k()], &w2, &vals);
        // two keys
        same(c, "fac![r, (x, y)]", &factrs::fac![be(), (X(i), X(j))], &v0, &vals);
        same(c, "fac![r, [x, y]]", &factrs::fac![be(), [X(i), X(j)]], &v0, &vals);
        same(c, "fac![r, (x, y), n]", &factrs::fac![be(), (X(i), X(j)), noise.clone()], &v1, &vals);
        same(c, "fac![r, [x, y], n]", &factrs::fac![be(), [X(i), X(j)], noise.clone()], &v1, &vals);
        same(c, "fac![r, (x, y), n, k]", &factrs::fac![be(), (X(i), X(j)), noise.clone(), k()], &v2, &vals);
        same(c, "fac![r, [x, y], n, k,]", &factrs::fac![be(), [X(i), X(j)], noise.clone(), k(),], &v2, &vals);
        // the given order of keys is kept
        let sw = FactorBuilder::new2_unchecked(be(), X(j), X(i)).noise(noise.clone()).build();
        same(c, "fac![r, (y, x), n]", &factrs::fac![be(), (X(j), X(i)), noise.clone()], &sw, &vals);
        // more keys, mixed types
        let u3 = U3::rand(rng, 5.0);
        let (n3, n5, n6) = (gn::<3>(rng), gn::<5>(rng), gn::<6>(rng));
        let t = FactorBuilder::new3_unchecked(u3.clone(), X(i), S(i), W(i)).noise(n3.clone()).robust(k()).build();
        same(c, "fac! three keys", &factrs::fac![u3.clone(), (X(i), S(i), W(i)), n3.clone(), k()], &t, &vals);
        same(c, "new3", &FactorBuilder::new3(u3, X(i), S(i), W(i)).noise(n3).robust(k()).build(), &t, &vals);
        let u4 = U4::rand(rng, 5.0);
        let t = FactorBuilder::new4_unchecked(u4.clone(), A(i), P(i), S(i), Y(i)).noise(n5.clone()).build();
        same(c, "fac! four keys", &factrs::fac![u4.clone(), [A(i), P(i), S(i), Y(i)], n5.clone()], &t, &vals);
        same(c, "new4", &FactorBuilder::new4(u4, A(i), P(i), S(i), Y(i)).noise(n5).build(), &t, &vals);
        let u5 = U5::rand(rng, 5.0);
        let t = FactorBuilder::new5_unchecked(u5.clone(), W(i), D(j), R(i), X(i), A(j)).build();
        same(c, "fac! five keys", &factrs::fac![u5.clone(), (W(i), D(j), R(i), X(i), A(j))], &t, &vals);
        same(c, "new5", &FactorBuilder::new5(u5, W(i), D(j), R(i), X(i), A(j)).build(), &t, &vals);
        let u6 = U6::rand(rng, 5.0);
        let t = FactorBuilder::new6_unchecked(u6.clone(), Y(i), S(i), A(i), P(i), R(i), B(i)).noise(n6.clone()).robust(L1).build();
        same(c, "fac! six keys", &factrs::fac![u6.clone(), (Y(i), S(i), A(i), P(i), R(i), B(i)), n6.clone(), L1], &t, &vals);
        same(c, "new6", &FactorBuilder::new6(u6, Y(i), S(i), A(i), P(i), R(i), B(i)).robust(L1).noise(n6).build(), &t, &vals);
        // a small factor with known numbers: default noise and kernel, and each given alone
        let v = vals.get(A(i)).unwrap().0[0] as f64;
        let r = v * v - 2.0;
        let tol = 1e-12 * (1.0 + r * r);
        c.close("defaults are unit noise and L2", factrs::fac![Q1, A(i)].error(&vals) as f64, 0.5 * r * r, tol);
        let s = rng.logu(0.1, 10.0);
        let n1 = GaussianNoise::<1>::from_scalar_sigma(d(s));
        c.close("noise alone", factrs::fac![Q1, A(i), n1.clone()].error(&vals) as f64, 0.5 * r * r / (s * s), tol / (s * s) * 10.0);
        let want = (r.abs() / s).abs();
        c.close("noise and kernel", factrs::fac![Q1, A(i), n1, L1].error(&vals) as f64, want, 1e-11 * (1.0 + want));
        c.close("kernel alone", FactorBuilder::new1(Q1, A(i)).robust(L1).build().error(&vals) as f64, r.abs(), 1e-11 * (1.0 + r.abs()));
        c.check(typed::<SE2, X>(X(i)) == Key::from(X(i)), "typed symbol key", || "differs".into());
    });
    ctx.finish(
        "one evaluation = every accepted form of the fac! macro (one to six keys as call, path, tuple or array; with noise; with noise and kernel; trailing commas) compared with the builder's factor, plus a factor with analytic error; distinct = indices and kernel parameters",
        &["compilation of the accepted forms is part of the check"],
    );
}

//! C26: every feature configuration keeps the same guarantees (left, fake_exp, rayon, f32 and combinations).
//! One program judged under every configuration: the reference model follows the same documented switches, and
//! tolerances follow the precision of `dtype`.
use factrs::linear::{CholeskySolver, LUSolver, LinearSolver, QRSolver};
use factrs::optimizers::OptError;
use factrs::variables::*;
use factrs::linalg::{Const, Diff, DualVector, ForwardProp, VectorX};
use factrs::{dtype, linalg::MatrixX, noise::*};
use harness::ad::*;
use faer::sparse::SparseColMat;
use faer::Mat;
use harness::custom::Aff1;
use harness::gen::*;
use harness::kernels::{self, SPECS};
use harness::mixed::Any;
use harness::opt::*;
use harness::vars::*;
use harness::*;

const F32: bool = cfg!(feature = "f32");
const LEFT: bool = cfg!(feature = "left");
const FAKE: bool = cfg!(feature = "fake_exp");
const EPS: f64 = if F32 { 1.2e-7 } else { 2.3e-16 };
fn tol(f64tol: f64, f32tol: f64) -> f64 {
    if F32 {
        f32tol
    } else {
        f64tol
    }
}
/// value of a precision-rounded coordinate
fn r(x: f64) -> f64 {
    d(x) as f64
}
fn rv(v: &[f64]) -> Vec<f64> {
    v.iter().map(|x| r(*x)).collect()
}
/// tangent of moderate size: angle in (0.05, 2.8) or exactly zero, translations of a few units
fn tangent<V: VarX>(rng: &mut Rng) -> Vec<f64> {
    let mut v = rng.nvec(V::DIM, 1.5);
    if V::ROT > 0 {
        let a = if rng.coin(0.1) { 0.0 } else { rng.range(0.05, 2.8) };
        let ax = if V::ROT == 1 { vec![rng.sign()] } else { rng.unit_vec(3) };
        for i in 0..V::ROT {
            v[i] = ax[i] * a;
        }
    }
    rv(&v)
}
fn group<V: VarX>(ctx: &Ctx, q: u64) {
    ctx.family(&format!("group/{}", V::NAME), q, q * 30, |rng, c| {
        let (xa, xb) = (tangent::<V>(rng), tangent::<V>(rng));
        let a = V::e_exp(&xa);
        let b = V::e_exp(&xb);
        c.desc(format!("a=exp {xa:?} b=exp {xb:?}"));
        c.sig((xa[0].to_bits(), xb[0].to_bits()));
        c.event();
        let (ma, mb) = (a.mat(), b.mat());
        let s = 1.0 + ma.max_abs() * mb.max_abs();
        let t = tol(1e-13, 3e-6) * s * s;
        c.close_m("exp", &ma, &V::ref_exp(&xa), tol(1e-11, 1e-5) * (1.0 + la::norm(&xa)));
        c.close_m("compose", &a.compose(&b).mat(), &ma.mul(&mb), t);
        let ai = ma.inv().unwrap();
        c.close_m("inverse", &a.inverse().mat(), &ai, t);
        c.close_m("identity", &V::identity().mat(), &M::eye(ma.r), 0.0);
        // log: principal
        let want = V::ref_log(&ma);
        c.close_v("log", &a.e_log(), &want, tol(1e-10, 1e-4) * (1.0 + la::norm(&want)));
        c.close_v("log(exp(xi)) = xi", &a.e_log(), &xa, tol(1e-10, 1e-4) * (1.0 + la::norm(&xa)));
        // updates on either side and the configured default
        let e = V::ref_exp(&xb);
        let right = ma.mul(&e);
        let left = e.mul(&ma);
        let st = tol(1e-10, 3e-5) * s * s;
        c.close_m("oplus_right", &a.oplus_right(vx(&xb).as_view()).mat(), &right, st);
        c.close_m("oplus_left", &a.oplus_left(vx(&xb).as_view()).mat(), &left, st);
        c.close_m("oplus follows the configured side", &a.oplus(vx(&xb).as_view()).mat(), if LEFT { &left } else { &right }, st);
        let bi = mb.inv().unwrap();
        let rel = |m: &M| {
            let v = V::ref_log(m);
            let near = V::ROT > 0 && la::norm(&v[..V::ROT]) > 3.0;
            (v, near)
        };
        // documented: x ominus y = log(y^-1 x) (right), log(x y^-1) (left)
        for (name, got, m) in [
            ("ominus_right", fv(&a.ominus_right(&b)), bi.mul(&ma)),
            ("ominus_left", fv(&a.ominus_left(&b)), ma.mul(&bi)),
            ("ominus follows the configured side", fv(&a.ominus(&b)), if LEFT { ma.mul(&bi) } else { bi.mul(&ma) }),
        ] {
            let (w, near) = rel(&m);
            if near {
                c.count("near the cut locus", 1);
                continue;
            }
            c.close_v(name, &got, &w, tol(1e-9, 2e-3) * s * s);
        }
        // y oplus (x ominus y) = x, and the converse
        c.close_m("oplus undoes ominus", &b.oplus(a.ominus(&b).as_view()).mat(), &ma, tol(1e-9, 1e-3) * s * s);
        let back = fv(&a.oplus(vx(&xb).as_view()).ominus(&a));
        c.close_v("ominus undoes oplus", &back, &xb, tol(1e-9, 1e-3) * s * s);
    });
}

fn problem(rng: &mut Rng, kernels: bool) -> Problem {
    let mut o = opts(rng.int(1, 5), rng.below(4));
    o.disp = *rng.pick(&[0.1, 0.3]);
    o.kernels = kernels;
    o.sig = (0.5, 2.0);
    if rng.coin(0.5) {
        o.kinds = vec![rng.below(Any::KINDS.len())];
    }
    Problem::rand(rng, &o)
}
fn describe(c: &mut Case, p: &Problem) {
    c.desc(p.describe());
    let mut kinds: Vec<&str> = p.init.values().map(|v| v.kind()).collect();
    kinds.sort();
    c.sig((kinds, p.facs.len(), p.facs.iter().map(|f| f.keys.len()).sum::<usize>()));
}
/// values and derivatives of exp and log at rotations of every size, down to the smallest
macro_rules! small { ($ctx:expr, $V:ident, $q:expr) => {
    $ctx.family(concat!("small angles/", stringify!($V)), $q, $q * 30, |rng, c| {
        const DIM: usize = <$V as Variable>::DIM;
        let a = if rng.coin(0.05) { 0.0 } else { rng.logu(1e-7, 2.5) };
        let xi = rv(&la::scale(&if DIM == 1 { vec![rng.sign()] } else { rng.unit_vec(3) }, a));
        let x = <$V as VarX>::e_exp(&xi);
        c.desc(format!("xi={xi:?}"));
        c.sig((xi[0].to_bits(), xi[DIM - 1].to_bits()));
        c.event();
        c.close_m("exp, small angles", &x.mat(), &<$V as VarX>::ref_exp(&xi), tol(1e-8, 1e-5));
        c.close_v("log, small angles", &fv(&x.log()), &<$V as VarX>::ref_log(&x.mat()), tol(1e-6 * a + 1e-15, 1e-4 * a + 3e-7));
        let want = numjac(&[arg(&x)], &|m: &[M]| <$V as VarX>::ref_log(&m[0]));
        let got = ForwardProp::<Const<DIM>>::jacobian_1(|x: $V<DualVector<Const<DIM>>>| x.log(), &x);
        c.close_m("derivative of log, small angles", &fm(&got.diff), &want, tol(1e-5, 1e-2));
    });
};
($ctx:expr, $V:ident, $W:ident, $q:expr, |$e:ident| $tr:expr) => {
    $ctx.family(concat!("small angles/", stringify!($V)), $q, $q * 30, |rng, c| {
        const DIM: usize = <$V as Variable>::DIM;
        const ROT: usize = <$V as VarX>::ROT;
        let mut xi = rng.nvec(DIM, 1.5);
        let a = if rng.coin(0.05) { 0.0 } else { rng.logu(1e-7, 2.5) };
        let ax = if ROT == 1 { vec![rng.sign()] } else { rng.unit_vec(3) };
        for i in 0..ROT {
            xi[i] = ax[i] * a;
        }
        let xi = rv(&xi);
        let x = <$V as VarX>::e_exp(&xi);
        c.desc(format!("xi={xi:?}"));
        c.sig((xi[0].to_bits(), xi[DIM - 1].to_bits()));
        c.event();
        let t = 1.0 + la::norm(&xi[ROT..]);
        c.close_m("exp, small angles", &x.mat(), &<$V as VarX>::ref_exp(&xi), tol(1e-8, 1e-4) * t);
        c.close_v("log, small angles", &fv(&x.log()), &<$V as VarX>::ref_log(&x.mat()), tol(1e-7, 2e-4) * t);
        let want = numjac(&[arg(&x)], &|m: &[M]| <$V as VarX>::ref_log(&m[0]));
        let got = ForwardProp::<Const<DIM>>::jacobian_1(|x: $V<DualVector<Const<DIM>>>| x.log(), &x);
        c.close_m("derivative of log, small angles", &fm(&got.diff), &want, tol(1e-5, 2e-2) * t);
        let v = <$W as VarX>::e_exp(&xi);
        let got = ForwardProp::<Const<DIM>>::jacobian_1(|v: $W<DualVector<Const<DIM>>>| {
            let $e = $V::<DualVector<Const<DIM>>>::exp(VectorX::from_iterator(DIM, v.0.iter().cloned()).as_view());
            $tr
        }, &v);
        let want = numjac(&[arg(&v)], &|m: &[M]| {
            let z = <$V as VarX>::ref_exp(&(0..DIM).map(|i| m[0][(i, DIM)]).collect::<Vec<_>>());
            (0..z.r - 1).map(|i| z[(i, z.c - 1)]).collect()
        });
        c.close_m("derivative of exp's translation, small angles", &fm(&got.diff), &want, tol(1e-5, 2e-2) * t);
    });
} }
fn factors(rng: &mut Rng, c: &mut Case) {
    let mut p = problem(rng, false);
    for f in p.facs.iter_mut() {
        f.ker = KerS::rand(rng);
    }
    describe(c, &p);
    if size(&p.init) > 30.0 || p.max_angle(&p.init) > 2.9 {
        return c.skip("large");
    }
    let order = p.order(rng);
    let vals = to_values(&p.init, &order);
    let m = &p.init;
    let s = size(m) + size(&p.truth);
    let mut sum = 0.0;
    for f in &p.facs {
        c.event();
        let lib = f.build();
        let e = lib.error(&vals) as f64;
        sum += e;
        let res = f.resid(m);
        let inf = f.noise.inf(res.len());
        let sc = inf.max_abs().sqrt() * s;
        let w = f.error(m);
        c.close("factor error", e, w, tol(1e-6, 2e-3) * (1.0 + w.abs()) * sc);
        let d2 = f.d2(m);
        let wt = f.ker.weight(d2);
        if wt.is_nan() || near_kink(&f.ker, d2) {
            continue;
        }
        let l = lib.linearize(&vals);
        let (la_, lb) = (tom!(l.a.mat()), fv(&l.b));
        // compare what the whitening leaves invariant: A'A, A'b and b'b
        let j = f.jac(m);
        let want_h = j.t().mul(&inf).mul(&j).scale(wt);
        let want_g = la::scale(&j.t().mv(&inf.mv(&res)), -wt);
        let rel = tol(2e-5, 5e-3) * (1.0 + j.max_abs()) * (1.0 + j.max_abs()) * inf.max_abs().max(1.0) * s;
        c.close_m("linearised information", &la_.t().mul(&la_), &want_h, rel);
        c.close_v("linearised gradient", &la_.t().mv(&lb), &want_g, rel * (1.0 + la::norm(&res)));
        c.close("linearised squared norm", la::dot(&lb, &lb), wt * d2, rel * (1.0 + d2));
    }
    let g = p.graph();
    c.close("graph error = sum", g.error(&vals) as f64, sum, 20.0 * EPS * (1.0 + sum) * p.facs.len() as f64);
}
/// kernels with a kink or a steep weight where precision decides the branch
fn near_kink(k: &KerS, d2: f64) -> bool {
    let d = d2.sqrt();
    match k.name {
        "L1" => d < 0.05,
        "Huber" | "Tukey" => {
            let p = k.p.unwrap_or(if k.name == "Huber" { 1.345 } else { 4.6851 });
            (d - p).abs() < 1e-3 * p
        }
        _ => false,
    }
}
fn steps(rng: &mut Rng, c: &mut Case, solver: usize) {
    let p = problem(rng, true);
    describe(c, &p);
    if size(&p.init) > 30.0 || p.max_angle(&p.init) > 2.9 || p.facs.iter().any(|f| near_kink(&f.ker, f.d2(&p.init))) {
        return c.skip("large");
    }
    let order = p.order(rng);
    let vals = to_values(&p.init, &order);
    let (h, g) = model_normal(&p, &p.init);
    let cd = cond(&h);
    if !(cd < tol(1e6, 3e2)) {
        return c.skip("ill-conditioned");
    }
    let Some(x) = h.solve(&M::col(&g)) else { return };
    let want = moved_ref(&p.init, &x.d);
    let sz = size(&p.init) + la::norm(&x.d) + 1.0;
    c.event();
    let mut opt = make(Algo::GN, solver, p.graph());
    c.close("optimizer error = model error", opt.error(&vals), p.error(&p.init), tol(1e-6, 3e-3) * sz * (1.0 + p.error(&p.init)));
    opt.init(&vals);
    let Some(r) = c.no_panic("step panicked", || opt.step(vals.clone(), 1)) else { return };
    match r {
        Ok(v) => match read_back(&v, &p.init) {
            Some(got) => {
                let dm = got.iter().map(|(k, v)| v.mat().sub(&want[k]).max_abs()).fold(0.0, f64::max);
                c.close("Gauss-Newton step = dense reference step", dm, 0.0, tol(2e-6, 2e-4) * cd.max(10.0) * sz * sz);
            }
            None => c.fail("variables kept", "a variable disappeared"),
        },
        Err(e) => c.fail("step failed", format!("{e:?}")),
    }
}
fn optimise(rng: &mut Rng, c: &mut Case, algo: Algo, solver: usize) {
    let mut o = opts(rng.int(1, 6), rng.below(4));
    o.meas = 0.0;
    o.disp = 0.1;
    o.kernels = rng.coin(0.4);
    o.sig = (0.5, 2.0);
    if rng.coin(0.5) {
        o.kinds = vec![rng.below(Any::KINDS.len())];
    }
    let p = Problem::rand(rng, &o);
    describe(c, &p);
    if size(&p.init) > 30.0 {
        return c.skip("large");
    }
    let (h, _) = model_normal(&p, &p.truth);
    let cd = cond(&h);
    if !(cd < tol(1e6, 3e2)) {
        return c.skip("ill-conditioned");
    }
    let order = p.order(rng);
    let vals = to_values(&p.init, &order);
    c.event();
    let mut opt = make(algo, solver, p.graph());
    let pr = opt.params();
    pr.error_tol_absolute = tol(1e-12, 1e-7) as _;
    pr.error_tol_relative = tol(1e-12, 1e-7) as _;
    pr.max_iterations = 60;
    let Some(r) = c.no_panic("optimize panicked", || opt.optimize(vals)) else { return };
    let fin = match r {
        Ok(v) => v,
        Err(OptError::MaxIterations(v)) if F32 => v,
        Err(OptError::FailedToStep) if algo == Algo::LM => return c.count("failed to step", 1),
        Err(e) => return c.fail("optimize failed", format!("{e:?}")),
    };
    let Some(got) = read_back(&fin, &p.truth) else { return c.fail("variables kept", "a variable disappeared") };
    let sz = size(&p.truth);
    c.close("exact measurements are recovered", diff(&got, &p.truth), 0.0, tol(1e-4, 2e-2) * cd.sqrt().max(1.0) * sz);
}
fn noise<const N: usize>(ctx: &Ctx, q: u64) {
    ctx.family(&format!("noise/{N}"), q, q * 30, |rng, c| {
        let m = spd(rng, N, 0.3, 3.0);
        let v = rv(&rng.nvec(N, 1.0));
        c.desc(format!("{m:?} {v:?}"));
        c.sig(v[0].to_bits());
        let lib = factrs::linalg::Matrix::<N, N>::from_fn(|i, j| d(m[(i, j)]));
        let md2 = |inf: &M| la::dot(&v, &inf.mv(&v));
        let sig: Vec<f64> = (0..N).map(|_| r(rng.logu(0.2, 5.0))).collect();
        let sv = factrs::linalg::Vector::<N>::from_fn(|i, _| d(sig[i]));
        let s0 = r(rng.logu(0.2, 5.0));
        let mut one = |name: &str, n: GaussianNoise<N>, inf: M| {
            c.event();
            let w = fv(&n.whiten_vec(vx(&v)));
            let want = md2(&inf);
            c.close(name, la::dot(&w, &w), want, tol(1e-10, 2e-3) * (1.0 + want));
            let wm = tom!(n.whiten_mat(MatrixX::identity(N, N)));
            c.close_m(name, &wm.t().mul(&wm), &inf, tol(1e-10, 2e-3) * (1.0 + inf.max_abs()));
        };
        one("information", GaussianNoise::from_matrix_inf(lib.as_view()), m.clone());
        one("covariance", GaussianNoise::from_matrix_cov(lib.as_view()), m.inv().unwrap());
        one("sigmas", GaussianNoise::from_vec_sigma(sv.as_view()), M::diag(&sig.iter().map(|x| 1.0 / (x * x)).collect::<Vec<_>>()));
        one("variances", GaussianNoise::from_vec_cov(sv.as_view()), M::diag(&sig.iter().map(|x| 1.0 / x).collect::<Vec<_>>()));
        one("scalar sigma", GaussianNoise::from_scalar_sigma(d(s0)), M::eye(N).scale(1.0 / (s0 * s0)));
        one("scalar variance", GaussianNoise::from_scalar_cov(d(s0)), M::eye(N).scale(1.0 / s0));
    });
}
fn solve_all(a: &M, b: &[f64]) -> Vec<(&'static str, Result<Vec<f64>, String>)> {
    let mut t = vec![];
    for i in 0..a.r {
        for j in 0..a.c {
            if a[(i, j)] != 0.0 {
                t.push((i, j, d(a[(i, j)])));
            }
        }
    }
    let sp = SparseColMat::<usize, dtype>::try_new_from_triplets(a.r, a.c, &t).unwrap();
    let rb = Mat::<dtype>::from_fn(a.r, 1, |i, _| d(b[i]));
    let go = |f: &mut dyn FnMut() -> Mat<dtype>| rep::quiet_catch(|| f()).map(|x| (0..x.nrows()).map(|i| x.read(i, 0) as f64).collect());
    vec![
        ("Cholesky", go(&mut || CholeskySolver::default().solve_lst_sq(sp.as_ref(), rb.as_ref()))),
        ("QR", go(&mut || QRSolver::default().solve_lst_sq(sp.as_ref(), rb.as_ref()))),
        ("LU", go(&mut || LUSolver::default().solve_lst_sq(sp.as_ref(), rb.as_ref()))),
    ]
}

fn main() {
    let ctx = Ctx::from_env("C26");
    ctx.family("scalar type", 1, 1, |_rng, c| {
        // the feature selects the scalar in which everything is stored, and nothing else does
        let digits = -((1.0 as factrs::dtype + factrs::dtype::EPSILON - 1.0) as f64).log2().round();
        let size = std::mem::size_of::<factrs::dtype>();
        c.check(size == if F32 { 4 } else { 8 }, "single precision exactly with the feature", || format!("{size} bytes, {digits} bits"));
        c.event();
    });
    group::<SO2>(&ctx, 800);
    group::<SE2>(&ctx, 1500);
    group::<SO3>(&ctx, 1500);
    group::<SE3>(&ctx, 1500);
    group::<VectorVar2>(&ctx, 200);
    group::<VectorVar3>(&ctx, 200);
    group::<VectorVar6>(&ctx, 200);
    group::<ImuBias>(&ctx, 200);
    if !F32 {
        // the harness' own test type; its exponential is not written for single precision
        group::<Aff1>(&ctx, 500);
    }
    small!(ctx, SO2, 1500);
    small!(ctx, SO3, 3000);
    small!(ctx, SE2, VectorVar3, 3000, |e| VectorX::from_vec(vec![e.x(), e.y()]));
    small!(ctx, SE3, VectorVar6, 3000, |e| VectorX::from_iterator(3, e.xyz().iter().cloned()));
    ctx.family("factors", 700, 20000, factors);
    for s in 0..3 {
        ctx.family(&format!("steps/{}", SOLVERS[s]), 250, 8000, |rng, c| steps(rng, c, s));
        for a in [Algo::GN, Algo::LM] {
            ctx.family(&format!("optimise/{a:?}/{}", SOLVERS[s]), 60, 1500, |rng, c| optimise(rng, c, a, s));
        }
    }
    noise::<1>(&ctx, 200);
    noise::<3>(&ctx, 300);
    noise::<6>(&ctx, 300);
    ctx.family("kernels", 4000, 100000, |rng, c| {
        let s = &SPECS[rng.below(8)];
        let p = if rng.coin(0.3) { None } else { Some(r(rng.logu(0.1, 20.0))) };
        let pv = p.unwrap_or(s.default);
        let d2 = r(rng.logu(1e-2, 1e3));
        let x = d2.sqrt();
        c.desc(format!("{} {p:?} d2={d2}", s.name));
        c.sig((s.name, d2.to_bits()));
        if ["Huber", "Tukey"].contains(&s.name) && (x - pv).abs() < 1e-3 * pv {
            return c.skip("kink");
        }
        c.event();
        let k = kernels::make(s.name, p);
        let w = (s.loss)(x, pv);
        // single precision: the parameter-sized terms of Fair, Tukey and Welsch cancel for small d/c
        c.close("kernel loss", k.loss(d(d2)) as f64, w, tol(1e-12, 3e-6) * (1.0 + w + pv * pv + pv * x));
        c.close("kernel weight", k.weight(d(d2)) as f64, (s.weight)(x, pv), tol(1e-12, 1e-4) * (1.0 + (s.weight)(x, pv)));
    });
    ctx.family("solvers", 1500, 40000, |rng, c| {
        let n = rng.int(1, 20);
        let m = n + rng.below(20);
        let mut a = M::from_fn(m, n, |_, _| if rng.coin(0.3) { r(rng.normal()) } else { 0.0 });
        for j in 0..n {
            a[(j, j)] = r(rng.sign() * rng.range(2.0, 4.0));
        }
        let b = rv(&rng.nvec(m, 1.0));
        c.desc(format!("{m}x{n} {a:?}"));
        c.sig((m, n, a[(0, 0)].to_bits()));
        let cd = cond(&a.t().mul(&a));
        if !(cd < tol(1e8, 1e3)) {
            return c.skip("ill-conditioned");
        }
        let Some((want, _)) = a.lstsq(&b) else { return };
        c.event();
        for (name, got) in solve_all(&a, &b) {
            match got {
                Ok(x) => {
                    c.close_v(name, &x, &want, 2e3 * EPS * cd * (1.0 + la::norm(&want)));
                }
                Err(e) => c.fail(format!("{name} panicked"), e),
            }
        }
    });
    let _ = FAKE;
    ctx.finish(
        "one evaluation = one group pair, factor graph, optimisation step or run, noise model, kernel or linear system under one feature configuration, against a reference model following the same documented switches; distinct = regimes of the inputs",
        &["tolerances follow the precision of dtype; single precision is judged on well-conditioned systems only (cond < 300)", "kernel weights within 0.1 % of a kink and L1 below 0.05 are not judged"],
    );
}

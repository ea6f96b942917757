//! C25: no input makes the library corrupt memory, overflow, hang or crash.
//! The program runs in a debug build (overflow checks, bounds checks, faer/nalgebra debug assertions) and again under
//! AddressSanitizer. Finite inputs of any magnitude must not panic; non-finite ones may be refused but must come back within
//! a bounded number of solver calls and leave the process healthy. A counting allocator watches for memory that is not
//! given back, and a linear solver handed to the optimizers counts how often it is called.
use factrs::containers::*;
use factrs::dtype;
use factrs::linear::*;
use factrs::noise::*;
use factrs::optimizers::*;
use factrs::robust::*;
use factrs::utils::load_g20;
use factrs::variables::*;
use faer::sparse::SparseColMatRef;
use faer::{Mat, MatRef};
use harness::custom::Aff1;
use harness::gen::*;
use harness::imu;
use harness::mixed::*;
use harness::opt::opts;
use harness::vars::*;
use harness::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

// ---- memory kept by this thread
struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn live() -> i64 {
    LIVE.with(|c| c.get())
}

// ---- logical clock: calls of the linear solver
thread_local! { static SOLVES: Cell<u64> = const { Cell::new(0) }; static CAP: Cell<u64> = const { Cell::new(u64::MAX) }; }
const RUNAWAY: &str = "RUNAWAY: the linear solver was called more often than the stopping rules allow";
fn tick() {
    let n = SOLVES.with(|c| { c.set(c.get() + 1); c.get() });
    if n > CAP.with(|c| c.get()) {
        panic!("{RUNAWAY}");
    }
}
macro_rules! counted {
    ($n:ident, $s:ty) => {
        #[derive(Default)]
        struct $n($s);
        impl LinearSolver for $n {
            fn solve_symmetric(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
                tick();
                self.0.solve_symmetric(a, b)
            }
            fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
                tick();
                self.0.solve_lst_sq(a, b)
            }
        }
    };
}
counted!(Chol, CholeskySolver);
counted!(Qr, QRSolver);
counted!(Lu, LUSolver);

/// optimises with the given algorithm and solver under a bound on the number of solves
fn run(algo: usize, g: Graph, v: Values, iters: usize) -> OptResult<Values> {
    SOLVES.with(|c| c.set(0));
    // every step may raise lambda from its minimum to its maximum, ten-fold each time (30 times), with slack
    CAP.with(|c| c.set((iters as u64).min(100_000) * 60 + 60));
    macro_rules! go { ($t:ident, $s:ty, $p:ident) => {{ let mut o: $t<$s> = $t::new(g); o.$p.max_iterations = iters; o.optimize(v) }} }
    match algo {
        0 => go!(GaussNewton, Chol, params),
        1 => go!(GaussNewton, Qr, params),
        2 => go!(GaussNewton, Lu, params),
        3 => go!(LevenMarquardt, Chol, params_base),
        4 => go!(LevenMarquardt, Qr, params_base),
        _ => go!(LevenMarquardt, Lu, params_base),
    }
}

// ---- hostile numbers
fn hostile(rng: &mut Rng) -> f64 {
    let s = rng.sign();
    s * match rng.below(12) {
        0 => 0.0,
        1 => f64::MIN_POSITIVE,
        2 => 5e-324,
        3 => f64::MAX,
        4 => rng.logu(1e-320, 1e-200),
        5 => rng.logu(1e100, 1e300),
        6 => rng.logu(1e-20, 1e-5),
        7 => rng.logu(1e5, 1e20),
        8 => std::f64::consts::PI * rng.int(0, 6) as f64,
        9 => f64::EPSILON,
        10 => 1.0,
        _ => rng.normal(),
    }
}
fn poison(rng: &mut Rng) -> f64 {
    *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN])
}
fn hv(rng: &mut Rng, n: usize, bad: bool) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|_| hostile(rng)).collect();
    if bad && n > 0 {
        let i = rng.below(n);
        v[i] = poison(rng);
    }
    v
}

/// every operation of a variable type on hostile elements
fn ops<V: VarX>(ctx: &Ctx) {
    ctx.family(&format!("operations/{}", V::NAME), 1500, 100_000, |rng, c| {
        let bad = rng.coin(0.3);
        let (xi, eta) = (hv(rng, V::DIM, bad), hv(rng, V::DIM, false));
        c.desc(format!("xi {xi:?} eta {eta:?}"));
        c.sig((bad, xi.iter().map(|x| if *x == 0.0 || !x.is_finite() { 0 } else { x.abs().log10() as i32 / 40 }).collect::<Vec<_>>()));
        let f = || {
            let (a, b) = (V::e_exp(&xi), V::e_exp(&eta));
            let l = a.log();
            assert_eq!(l.len(), V::DIM, "log has the wrong length");
            let ab = a.compose(&b);
            let _ = (ab.inverse(), ab.log(), a.ominus(&b), a.minus(&b), a.ominus_left(&b), a.ominus_right(&b));
            let e = vx(&eta);
            let (p, q, r) = (a.oplus(e.as_view()), a.oplus_left(e.as_view()), a.oplus_right(e.as_view()));
            let mut bx: Box<dyn VariableSafe> = Box::new(p.clone());
            bx.oplus_mut(e.as_view());
            let t = format!("{p} {p:?} {p:#} {q} {r:?} {bx:?}");
            assert!(!t.is_empty());
            let mut v = Values::new();
            v.insert_unchecked(Key(1), a.clone());
            v.insert_unchecked(Key(2), b.clone());
            let lv = LinearValues::from_values_and_vector(&v, vx(&[xi.clone(), eta.clone()].concat()));
            v.oplus_mut(&lv);
            format!("{v:?} {v:#}").len()
        };
        c.event();
        match rep::quiet_catch(f) {
            Ok(n) => {
                c.check(n > 0, "prints", || "empty".into());
            }
            Err(m) => {
                if bad {
                    c.count("refused non-finite", 1);
                } else {
                    c.fail("an operation panicked on finite input", m);
                }
            }
        }
    });
}

fn chain(rng: &mut Rng, n: usize, kind: usize) -> (Graph, Values) {
    let mut g = Graph::new();
    let mut v = Values::new();
    let x0 = moderate(rng, kind);
    let unit = NoiseS::Unit;
    g.add_factor(x0.prior()(0).finish(&unit, &KerS::NONE, false));
    x0.insert(&mut v, 0);
    let mut x = x0;
    for i in 1..n as u64 {
        let st = x.small_tangent(rng, 0.3);
        let step = x.exp_like(&st);
        g.add_factor(step.between()(i - 1, i).finish(&unit, &KerS::NONE, false));
        x = x.compose(&step);
        let t = x.small_tangent(rng, 0.01);
        x.oplus(&t).insert(&mut v, i);
        if i > 10 && rng.coin(0.1) {
            // loop closures to the recent past
            let j = i - rng.int(2, 10) as u64;
            let back = rng.coin(0.5);
            let m = moderate(rng, kind);
            let m = m.inverse().compose(&m);
            let b = m.between();
            g.add_factor(if back { b(i, j) } else { b(j, i) }.finish(&NoiseS::Sigmas(vec![50.0; m.dim()]), &KerS::NONE, false));
        }
    }
    (g, v)
}

fn scratch(c: &Case) -> String {
    let dir = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string());
    format!("{dir}/hostile_{}.g2o", c.idx)
}
fn g2o_text(rng: &mut Rng) -> Vec<u8> {
    let mut t = String::new();
    let n = rng.int(1, 5);
    for i in 0..n {
        if rng.coin(0.5) {
            t += &format!("VERTEX_SE2 {i} {} {} {}\n", rng.normal(), rng.normal(), rng.normal());
        } else {
            t += &format!("VERTEX_SE3:QUAT {i} {} {} {} 0 0 0 1\n", rng.normal(), rng.normal(), rng.normal());
        }
    }
    t += "EDGE_SE2 0 1 1 0 0.1 10 0 0 10 0 10\n";
    t += "EDGE_SE3:QUAT 0 1 1 0 0 0 0 0 1 1 0 0 0 0 0 1 0 0 0 0 1 0 0 0 1 0 0 1 0 1\n";
    let mut b = t.into_bytes();
    for _ in 0..rng.int(1, 8) {
        if b.is_empty() {
            break;
        }
        let i = rng.below(b.len());
        match rng.below(8) {
            0 => b[i] = rng.u64() as u8,
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, *rng.pick(b" \n\t-+.eE09:\0\xff\r")),
            3 => b.truncate(i),
            4 => {
                let j = rng.int(i, (i + 40).min(b.len() - 1));
                let s: Vec<u8> = b[i..j].to_vec();
                let at = rng.below(b.len());
                for (k, x) in s.into_iter().enumerate() {
                    b.insert(at + k, x);
                }
            }
            5 => {
                let w: &[u8] = *rng.pick(&[&b"nan"[..], b"inf", b"-inf", b"1e999", b"1e-999", b"18446744073709551616", b"-1", b"99999999999999999999999999999"]);
                for (k, x) in w.iter().enumerate() {
                    b.insert(i + k, *x);
                }
            }
            6 => {
                let l = rng.below(3000);
                let x = *rng.pick(b" 1a\n");
                b.splice(i..i, std::iter::repeat(x).take(l));
            }
            _ => b.swap(i, 0),
        }
    }
    b
}

fn main() {
    let ctx = Ctx::from_env("C25");
    ops::<SO2>(&ctx);
    ops::<SE2>(&ctx);
    ops::<SO3>(&ctx);
    ops::<SE3>(&ctx);
    ops::<ImuBias>(&ctx);
    ops::<VectorVar1>(&ctx);
    ops::<VectorVar3>(&ctx);
    ops::<VectorVar6>(&ctx);
    ops::<Aff1>(&ctx);
    ctx.family("matrix group operations", 2000, 100_000, |rng, c| {
        let bad = rng.coin(0.3);
        let (v, w) = (hv(rng, 6, bad), hv(rng, 6, false));
        c.desc(format!("{v:?} {w:?}"));
        c.sig((bad, c.idx % 512));
        c.event();
        let f = || {
            let x3 = nalgebra::Vector3::new(d(v[0]), d(v[1]), d(v[2]));
            let x6 = nalgebra::Vector6::from_iterator(v.iter().map(|x| d(*x)));
            let p3 = nalgebra::Vector3::new(d(w[0]), d(w[1]), d(w[2]));
            let p2 = nalgebra::Vector2::new(d(w[0]), d(w[1]));
            let x1 = nalgebra::Vector1::new(d(v[0]));
            let r = SO3::e_exp(&v[..3]);
            let s = SE3::e_exp(&v);
            let a = SE2::e_exp(&v[..3]);
            let b = SO2::e_exp(&v[..1]);
            let _ = (r.adjoint(), s.adjoint(), a.adjoint(), b.adjoint());
            let _ = (SO3::hat(x3.as_view()), SE3::hat(x6.as_view()), SE2::hat(x3.as_view()), SO2::hat(x1.as_view()));
            let _ = (SO3::hat_swap(p3.as_view()), SE3::hat_swap(p3.as_view()), SE2::hat_swap(p2.as_view()), SO2::hat_swap(p2.as_view()));
            let _ = (r.apply(p3.as_view()), s.apply(p3.as_view()), a.apply(p2.as_view()), b.apply(p2.as_view()));
            let _ = SO3::dexp(x3.as_view());
            let m = (r.to_matrix(), s.to_matrix(), a.to_matrix(), b.to_matrix());
            let _ = (SO3::from_matrix(m.0.as_view()), SE3::from_matrix(m.1.as_view()), SE2::from_matrix(m.2.as_view()), SO2::from_matrix(m.3.as_view()));
            let _ = (SE2::new(d(v[0]), d(v[1]), d(v[2])), SO2::from_theta(d(v[0])).to_theta());
        };
        if let Err(m) = rep::quiet_catch(f) {
            if bad {
                c.count("refused non-finite", 1);
            } else {
                c.fail("an operation panicked on finite input", m);
            }
        }
        c.check(true, "ran", || String::new());
    });
    ctx.family("residuals, noise and kernels", 1500, 80_000, |rng, c| {
        let bad = rng.coin(0.25);
        // magnitudes whose squares stay representable, so a number exists
        let mag = |r: &mut Rng| r.sign() * r.logu(1e-60, 1e60);
        let (a, b, z) = (Any::rand(rng), Any::rand(rng), Any::rand(rng));
        let t: Vec<f64> = (0..a.dim()).map(|_| if bad && rng.coin(0.3) { poison(rng) } else { mag(rng).clamp(-1e60, 1e60) }).collect();
        let a2 = if matches!(a, Any::Custom(_)) { a.clone() } else { a.oplus(&t) };
        c.desc(format!("{} at {:?}", a.kind(), a2.mat()));
        c.sig((a.kind(), bad, c.idx % 128));
        let sg: Vec<f64> = (0..a.dim()).map(|_| rng.logu(1e-60, 1e60)).collect();
        let noise = if rng.coin(0.7) { NoiseS::Sigmas(sg) } else { NoiseS::Unit };
        let ker = KerS::rand(rng);
        let pr = a.prior()(1).finish(&noise, &ker, true);
        let bt = a.between()(1, 2).finish(&noise, &ker, false);
        let mut v = Values::new();
        a2.insert(&mut v, 1);
        a.insert(&mut v, 2);
        b.insert(&mut v, 3);
        z.insert(&mut v, 4);
        c.event();
        let g = || {
            let e = pr.error(&v) + bt.error(&v);
            let (l1, l2) = (pr.linearize(&v), bt.linearize(&v));
            let lv = LinearValues::zero_from_values(&v);
            let q = l1.error(&lv) + l2.error(&lv);
            (e, q)
        };
        match rep::quiet_catch(g) {
            Ok((e, _)) => {
                c.check(bad || !e.is_nan(), "a finite problem has an error", || format!("{e}"));
            }
            Err(m) if !bad => c.fail("evaluating a factor panicked on finite input", m),
            Err(_) => c.count("refused non-finite", 1),
        }
        let x = hostile(rng);
        let k: Vec<Box<dyn RobustCost>> = vec![
            Box::new(L1), Box::new(L2), Box::new(Huber::default()), Box::new(Fair::default()), Box::new(Cauchy::default()),
            Box::new(GemanMcClure::default()), Box::new(Welsch::default()), Box::new(Tukey::default()),
        ];
        for k in k {
            let (l, w) = (k.loss(d(x.abs())), k.weight(d(x.abs())));
            c.check(!l.is_nan() && !w.is_nan(), "kernels are defined everywhere", || format!("{k:?} at {x:e}: loss {l} weight {w}"));
        }
        let n = GaussianNoise::<3>::from_scalar_sigma(d(rng.logu(1e-100, 1e100)));
        let _ = (n.whiten_vec(vx(&hv(rng, 3, bad))), format!("{n} {n:?}"));
    });
    ctx.family("optimising scaled problems", 400, 20_000, |rng, c| {
        // the same well-posed problem with all uncertainties scaled over 60 decades
        let mut o = opts(rng.int(1, 8), rng.below(6));
        o.disp = 0.1;
        o.meas = 0.05;
        o.kernels = false;
        let s = rng.logu(1e-30, 1e30);
        let mut p = Problem::rand(rng, &o);
        for f in p.facs.iter_mut() {
            f.noise = NoiseS::Sigmas((0..f.dim()).map(|_| s * rng.logu(0.3, 3.0)).collect());
        }
        let algo = rng.below(6);
        c.desc(format!("algo {algo}, sigma scale {s:e}: {}", p.describe()));
        c.sig((algo, (s.log10() / 5.0) as i32, p.truth.len()));
        let v = to_values(&p.init, &p.order(rng));
        c.event();
        let r = rep::quiet_catch(|| run(algo, p.graph(), v, 30));
        match r {
            Ok(Ok(v)) | Ok(Err(OptError::MaxIterations(v))) => {
                c.check(v.len() == p.init.len(), "all variables come back", || format!("{} of {}", v.len(), p.init.len()));
            }
            Ok(Err(_)) => c.count("reported a failed step", 1),
            Err(m) => c.fail("optimising panicked on a well-posed problem", m),
        }
    });
    // limits a caller may set, from no step to no limit
    ctx.family("iteration limits", 60, 1500, |rng, c| {
        let mut o = opts(rng.int(1, 5), rng.below(4));
        o.meas = 0.01;
        o.disp = 0.05;
        o.kernels = false;
        let p = Problem::rand(rng, &o);
        let algo = rng.below(6);
        let iters = *rng.pick(&[0, 1, usize::MAX, usize::MAX - 1, u32::MAX as usize, 1 << 40]);
        c.desc(format!("algo {algo} limit {iters} {}", p.describe()));
        c.sig((algo, iters));
        c.event();
        let order = p.order(rng);
        let v = to_values(&p.init, &order);
        match rep::quiet_catch(|| run(algo, p.graph(), v, iters)) {
            Ok(r) => c.count(if r.is_ok() { "converged" } else { "limit or failed step" }, 1),
            Err(e) => c.fail("an iteration limit makes optimisation panic", e),
        }
    });
    ctx.family("optimising non-finite problems", 400, 20_000, |rng, c| {
        let mut o = opts(rng.int(1, 6), rng.below(5));
        o.disp = 0.1;
        o.kernels = rng.coin(0.5);
        let p = Problem::rand(rng, &o);
        let mut m = p.init.clone();
        let ks: Vec<u64> = m.keys().copied().collect();
        let k = *rng.pick(&ks);
        let t: Vec<f64> = (0..m[&k].dim()).map(|_| if rng.coin(0.5) { poison(rng) } else { 0.1 }).collect();
        let bad = m[&k].oplus(&t);
        m.insert(k, bad);
        let algo = rng.below(6);
        c.desc(format!("algo {algo}, variable {k:#x} ({}) moved by {t:?}", m[&k].kind()));
        c.sig((algo, m[&k].kind(), c.idx % 64));
        let v = to_values(&m, &ks);
        c.event();
        match rep::quiet_catch(|| run(algo, p.graph(), v, 20)) {
            Ok(Ok(_)) => c.count("returned ok", 1),
            Ok(Err(OptError::MaxIterations(_))) => c.count("iteration limit", 1),
            Ok(Err(_)) => c.count("failed step", 1),
            Err(m) => {
                c.count("panicked", 1);
                c.check(!m.contains("RUNAWAY"), "stops within the iteration limits", || m.clone());
                c.check(!m.contains("overflow"), "no arithmetic overflow", || m.clone());
            }
        }
        c.check(true, "came back", || String::new());
        // the process is healthy afterwards
        let v = to_values(&p.init, &ks);
        c.no_panic("a good start still works", || p.graph().error(&v));
    });
    ctx.family("large chains", 6, 60, |rng, c| {
        let kind = *rng.pick(&[1usize, 3, 6, 0, 2]);
        let n = rng.int(200, if ctx.thorough { 3000 } else { 600 });
        let (g, v) = chain(rng, n, kind);
        let algo = rng.below(6);
        c.desc(format!("{n} variables of kind {}, algo {algo}", Any::KINDS[kind]));
        c.sig((kind, algo, n / 100));
        c.event();
        let e0 = g.error(&v);
        match rep::quiet_catch(|| run(algo, g, v, 5)) {
            Ok(Ok(v)) | Ok(Err(OptError::MaxIterations(v))) => {
                c.check(v.len() == n, "all variables come back", || format!("{} of {n}", v.len()));
            }
            Ok(Err(_)) => c.count("reported a failed step", 1),
            Err(m) => c.fail(format!("optimising a large chain panicked (error {e0})"), m),
        }
    });
    ctx.family("wide graphs", 4, 40, |rng, c| {
        // one hub shared by many variables, many factors on one pair
        let n = rng.int(100, if ctx.thorough { 800 } else { 300 }) as u64;
        let mut g = Graph::new();
        let mut v = Values::new();
        let kind = *rng.pick(&[1usize, 3, 7]);
        let hub = moderate(rng, kind);
        g.add_factor(hub.prior()(0).finish(&NoiseS::Unit, &KerS::NONE, false));
        hub.insert(&mut v, 0);
        for i in 1..n {
            let z = moderate(rng, kind);
            g.add_factor(z.between()(0, i).finish(&NoiseS::Unit, &KerS::NONE, false));
            let t = z.small_tangent(rng, 0.1);
            hub.compose(&z).oplus(&t).insert(&mut v, i);
        }
        for _ in 0..500 {
            let z = moderate(rng, kind);
            g.add_factor(z.inverse().compose(&z).between()(1, 2).finish(&NoiseS::Sigmas(vec![1e4; z.dim()]), &KerS::NONE, false));
        }
        let algo = rng.below(6);
        c.desc(format!("hub of {n}, algo {algo}"));
        c.sig((n, algo));
        c.event();
        match rep::quiet_catch(|| run(algo, g, v, 4)) {
            Ok(Ok(v)) | Ok(Err(OptError::MaxIterations(v))) => {
                c.check(v.len() == n as usize, "all variables come back", || format!("{} of {n}", v.len()));
            }
            Ok(Err(_)) => c.count("reported a failed step", 1),
            Err(m) => c.fail("optimising a wide graph panicked", m),
        }
    });
    ctx.family("inertial histories", 60, 2000, |rng, c| {
        let n = *rng.pick(&[1usize, 10, 300, 2000]);
        let dt: f64 = *rng.pick(&[1e-12, 1e-6, 1e-3, 0.1]);
        let ws: f64 = *rng.pick(&[0.0, 1e-12, 1e-3, 1.0]);
        let mag = rng.logu(1e-6, 1e3);
        let mut prm = imu::Params::default_vals();
        if rng.coin(0.5) {
            for m in prm.each() {
                *m = m.scale(mag);
            }
        }
        let bad = rng.coin(0.2);
        c.desc(format!("{n} measurements, dt {dt}, rate {ws}, covariances x{mag:e}, poisoned {bad}"));
        c.sig((n, dt.to_bits(), ws.to_bits(), bad));
        let meas: Vec<imu::Meas> = (0..n)
            .map(|i| imu::Meas {
                w: [rng.normal() * ws, rng.normal() * ws, if bad && i == n / 2 { poison(rng) } else { rng.normal() * ws }],
                a: [rng.normal(), rng.normal(), 9.81],
                dt,
            })
            .collect();
        let s = imu::Setup { meas, params: prm, bias: [0.0; 6], g: [0.0, 0.0, 9.81], regime: 0 };
        let (a, b) = (imu::State::rand(rng, true), imu::State::rand(rng, true));
        c.event();
        let f = || {
            let f = s.factor();
            let v = imu::values(&a, &b);
            let e = f.error(&v);
            f.linearize(&v);
            e
        };
        match rep::quiet_catch(f) {
            Ok(e) => {
                c.check(bad || e.is_finite(), "a finite history has a finite error", || format!("{e}"));
            }
            Err(_) if bad => c.count("refused non-finite", 1),
            Err(m) => c.fail("preintegration panicked on a finite history", m),
        }
    });
    ctx.family("hostile files", 2000, 100_000, |rng, c| {
        let b = g2o_text(rng);
        c.desc(String::from_utf8_lossy(&b).chars().take(300).collect::<String>());
        c.sig(b.iter().take(400).copied().collect::<Vec<u8>>());
        let p = scratch(c);
        std::fs::write(&p, &b).unwrap();
        c.event();
        match rep::quiet_catch(|| load_g20(&p)) {
            Ok((g, v)) => {
                c.count("loaded", 1);
                // whatever was loaded must be usable: an error value or a loud refusal
                let r = rep::quiet_catch(|| g.error(&v));
                c.check(r.as_ref().map_or(true, |e| *e >= 0.0 || e.is_nan()), "the loaded graph has an error", || format!("{r:?}"));
            }
            Err(m) => {
                c.count("refused", 1);
                c.check(!m.contains("overflow"), "no arithmetic overflow", || m.clone());
            }
        }
        let _ = std::fs::remove_file(&p);
    });
    ctx.family("symbols of any key", 2000, 100_000, |rng, c| {
        let k = if rng.coin(0.5) { rng.u64() } else { rand_key(rng) };
        c.sig(k >> 40);
        c.desc(format!("{k:#x}"));
        c.event();
        c.no_panic("decoding a key", || format!("{:?} {:?}", DefaultSymbol::from(Key(k)), Key(k)));
        let ch = char::from_u32((rng.u64() % 0x110000) as u32).unwrap_or('x');
        c.no_panic("encoding a symbol", || Key::from(DefaultSymbol::new(ch, rng.u64() & 0xffff_ffff)));
        c.check(true, "ran", || String::new());
    });
    ctx.family("memory is given back", 24, 600, |rng, c| {
        let mut o = opts(rng.int(2, 8), rng.below(6));
        o.disp = 0.1;
        o.kernels = true;
        let p = Problem::rand(rng, &o);
        let what = *rng.pick(&["optimizer reuse", "fresh optimizers", "values history", "files", "imu", "linear"]);
        c.desc(what.to_string());
        c.sig((what, c.idx));
        let ord = p.order(rng);
        let path = scratch(c);
        std::fs::write(&path, "VERTEX_SE2 0 0 0 0\nVERTEX_SE2 1 1 0 0\nEDGE_SE2 0 1 1 0 0.1 10 0 0 10 0 10\n").unwrap();
        let algo = rng.below(2);
        let mut keep: Option<(GaussNewton<Chol>, LevenMarquardt<Chol>)> = None;
        let setup = imu::Setup::rand(rng, imu::Params::default_vals(), 20, 1.5);
        let mut vals = Values::new();
        let mut seedr = Rng::new(rng.u64());
        CAP.with(|c| c.set(u64::MAX));
        let mut round = |r: &mut Rng| match what {
            "optimizer reuse" => {
                let k = keep.get_or_insert_with(|| (GaussNewton::new(p.graph()), LevenMarquardt::new(p.graph())));
                let v = to_values(&p.init, &ord);
                let _ = rep::quiet_catch(|| if algo == 0 { k.0.optimize(v) } else { k.1.optimize(v) });
            }
            "fresh optimizers" => {
                let v = to_values(&p.init, &ord);
                let _ = rep::quiet_catch(|| run(r.below(6), p.graph(), v, 10));
                CAP.with(|c| c.set(u64::MAX));
            }
            "values history" => {
                for i in 0..20 {
                    Any::rand(r).insert(&mut vals, i);
                }
                for i in 0..20 {
                    if let std::collections::hash_map::Entry::Occupied(e) = vals.entry(Key(i)) {
                        e.remove();
                    }
                }
                let _ = vals.clone();
            }
            "files" => {
                let _ = load_g20(&path);
            }
            "imu" => {
                let _ = setup.factor();
            }
            _ => {
                let v = to_values(&p.init, &ord);
                let g = p.graph();
                let go = g.sparsity_pattern(ValuesOrder::from_values(&v));
                let _ = g.linearize(&v).residual_jacobian(&go);
            }
        };
        for _ in 0..10 {
            round(&mut seedr);
        }
        let a = live();
        for _ in 0..20 {
            round(&mut seedr);
        }
        let b = live();
        for _ in 0..40 {
            round(&mut seedr);
        }
        let z = live();
        c.event();
        // a bounded cache may still fill up; growth in proportion to use may not
        c.check(!(z - b > 2000 && b - a > 1000 && (z - b) as f64 > 1.5 * (b - a) as f64), "live memory does not grow with use", || {
            format!("{what}: {} bytes more after 20 rounds, {} more after 40", b - a, z - b)
        });
        let _ = std::fs::remove_file(&path);
    });
    ctx.finish(
        "distinct by operation, orders of magnitude of the input and solver/algorithm",
        &[
            "a panic is an acceptable answer to non-finite input and to malformed files (no result, no damage)",
            "finite problems for the optimizers are well-posed: uncertainties scaled together over 60 decades",
        ],
    )
}

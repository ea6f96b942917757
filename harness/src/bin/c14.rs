//! C14: Levenberg-Marquardt takes damped steps with the documented schedule.
use factrs::containers::Factor;
use factrs::dtype;
use factrs::linear::{CholeskySolver, LinearSolver};
use factrs::optimizers::{GraphOptimizer, LevenMarquardt, OptError};
use faer::sparse::SparseColMatRef;
use faer::{Mat, MatRef};
use harness::gen::*;
use harness::mixed::Any;
use harness::opt::*;
use harness::*;
use std::cell::RefCell;

/// A linear solver that records every system it is handed and answers as scripted.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ans {
    True,
    Zero,
    Neg,
    Nan,
    Huge,
    Half,
}
#[derive(Default)]
struct SpyState {
    systems: Vec<(M, Vec<f64>)>,
    script: Vec<Ans>,
    at: usize,
}
thread_local! { static SPY: RefCell<SpyState> = RefCell::default(); }
#[derive(Default)]
struct Spy(CholeskySolver);
fn dense(a: SparseColMatRef<usize, dtype>) -> M {
    let m = a.to_dense();
    M::from_fn(m.nrows(), m.ncols(), |i, j| m.read(i, j) as f64)
}
impl Spy {
    fn record(&mut self, a: M, b: Vec<f64>) -> Mat<dtype> {
        let x = a.solve(&M::col(&b)).map(|x| x.d).unwrap_or(vec![0.0; b.len()]);
        SPY.with(|s| {
            let mut s = s.borrow_mut();
            let ans = s.script.get(s.at).cloned().unwrap_or(Ans::True);
            s.at += 1;
            s.systems.push((a, b));
            let f = match ans {
                Ans::True => 1.0,
                Ans::Zero => 0.0,
                Ans::Neg => -1.0,
                Ans::Nan => f64::NAN,
                Ans::Huge => 1e6,
                Ans::Half => 0.5,
            };
            Mat::from_fn(x.len(), 1, |i, _| (x[i] * f) as dtype)
        })
    }
}
impl LinearSolver for Spy {
    fn solve_symmetric(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
        let b = (0..b.nrows()).map(|i| b.read(i, 0) as f64).collect();
        self.record(dense(a), b)
    }
    fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
        let a = dense(a);
        let b: Vec<f64> = (0..b.nrows()).map(|i| b.read(i, 0) as f64).collect();
        let (h, g) = (a.t().mul(&a), a.t().mv(&b));
        self.record(h, g)
    }
}
fn damp(h: &M, lambda: f64, diag: bool) -> M {
    let mut m = h.clone();
    for i in 0..h.r {
        m[(i, i)] += lambda * if diag { h[(i, i)] } else { 1.0 };
    }
    m
}
struct Par {
    min: f64,
    max: f64,
    factor: f64,
    diag: bool,
}
fn rand_par(rng: &mut Rng) -> Par {
    let dflt = rng.coin(0.25);
    if dflt {
        return Par { min: 0.0, max: 1e5, factor: 10.0, diag: true };
    }
    if rng.coin(0.25) {
        // powers of two are exact: the damping can equal the maximum, which does not exceed it
        let k = rng.int(0, 12) as i32;
        return Par { min: 0.0, max: 1e-5 * 2f64.powi(k), factor: *rng.pick(&[2.0, 4.0]), diag: rng.coin(0.6) };
    }
    Par {
        min: *rng.pick(&[0.0, 1e-9, 1e-5, 1e-2, 1.0, 30.0]),
        max: *rng.pick(&[1e-4, 1e-1, 1e2, 1e5]),
        factor: *rng.pick(&[2.0, 3.0, 10.0, 50.0]),
        diag: rng.coin(0.6),
    }
}
/// what the documented schedule does with one step
enum Sim {
    Step(Vec<f64>, f64, usize),
    Fail(usize),
    Ambiguous,
}
/// `answers`: scripted answers consumed by the trials (None: true solutions)
fn simulate(sys: &Sys, lambda0: f64, par: &Par, answers: &mut dyn FnMut() -> Ans) -> Sim {
    let (h, g) = sys.normal();
    let old = sys.lin_error(&vec![0.0; g.len()]);
    let mut lambda = lambda0;
    let mut trials = 0;
    loop {
        let Some(x) = damp(&h, lambda, par.diag).solve(&M::col(&g)) else { return Sim::Ambiguous };
        let ans = answers();
        let dx = match ans {
            Ans::True => x.d,
            Ans::Zero => vec![0.0; g.len()],
            Ans::Neg => la::scale(&x.d, -1.0),
            Ans::Nan => vec![f64::NAN; g.len()],
            Ans::Huge => la::scale(&x.d, 1e6),
            Ans::Half => la::scale(&x.d, 0.5),
        };
        trials += 1;
        let cur = sys.lin_error(&dx);
        if ans != Ans::Zero && (cur - old).abs() <= 1e-9 * (old + 1e-300) {
            return Sim::Ambiguous; // within rounding of the acceptance test
        }
        if cur < old {
            let mut l = lambda / par.factor;
            if l < par.min {
                l = par.min;
            }
            return Sim::Step(dx, l, trials);
        }
        lambda *= par.factor;
        if lambda != par.max && (lambda / par.max - 1.0).abs() < 1e-9 {
            return Sim::Ambiguous;
        }
        if lambda > par.max {
            return Sim::Fail(trials);
        }
    }
}
fn problem(rng: &mut Rng, c: &mut Case) -> (Problem, Vec<Factor>) {
    let vars = rng.int(1, 5);
    let mut o = opts(vars, rng.below(5));
    o.disp = *rng.pick(&[0.02, 0.2, 0.7]);
    o.sig = *rng.pick(&[(0.3, 3.0), (0.8, 1.2), (3.0, 10.0), (3e2, 3e3), (1e4, 1e5), (1e-4, 1e-3)]);
    if rng.coin(0.4) {
        o.kinds = vec![rng.below(Any::KINDS.len())];
    }
    let p = Problem::rand(rng, &o);
    c.desc(p.describe());
    let f = singles(&p);
    (p, f)
}

fn main() {
    let ctx = Ctx::from_env("C14");
    for solver in 0..3 {
        // real solvers, judged from outside: every step must be the damped step of the simulated schedule
        ctx.family(&format!("schedule/{}", SOLVERS[solver]), 300, 15000, |rng, c| {
            let (p, facs) = problem(rng, c);
            let par = rand_par(rng);
            let order = p.order(rng);
            let mut vals = to_values(&p.init, &order);
            let mut opt = make(Algo::LM, solver, p.graph());
            if !(par.diag && par.min == 0.0 && par.max == 1e5 && par.factor == 10.0) {
                opt.set_leven(par.min, par.max, par.factor, par.diag);
            }
            c.sig((p.facs.len(), p.init.len(), par.diag, par.factor as u32, par.min.to_bits(), par.max.to_bits()));
            let e = opt.error(&vals);
            let sum: f64 = facs.iter().map(|f| f.error(&vals) as f64).sum();
            c.close("reported error = graph error", e, sum, 1e-14 * facs.len() as f64 * sum);
            opt.init(&vals);
            let mut lambda = 1e-5;
            let mut model = p.init.clone();
            for i in 1..=rng.int(1, 6) {
                let sys = system(&facs, &model, &vals);
                let (h, _) = sys.normal();
                let cd = cond(&damp(&h, lambda, par.diag));
                if !(cd < 1e8) || size(&model) > 1e3 {
                    return;
                }
                let sim = simulate(&sys, lambda, &par, &mut || Ans::True);
                if rng.coin(0.3) {
                    // a driver of its own may hand over the same variables in another container
                    vals = rebuilt(rng, &vals);
                    c.count("steps from a rebuilt container", 1);
                }
                let res = c.no_panic("step panicked", || opt.step(vals, i));
                match (sim, res) {
                    (_, None) => return,
                    (Sim::Ambiguous, _) => {
                        c.count("ambiguous (at the optimum)", 1);
                        return;
                    }
                    (Sim::Step(dx, l, _), Some(Ok(v))) => {
                        c.event();
                        let Some(got) = read_back(&v, &model) else {
                            c.fail("variables kept", "shape changed".to_string());
                            return;
                        };
                        let want = moved(&model, &dx);
                        let dn = 1.0 + la::norm(&dx);
                        let sz = size(&want) + size(&model);
                        // resolution of the comparison relative to the damping's effect
                        let tol = 1e-13 * cd * dn * sz * 10.0 + 1e-12 * sz;
                        if !c.close(&format!("step = (J'J + lambda D)^-1 J'r with lambda {}", if i == 1 { "1e-5" } else { "from the schedule" }), diff(&got, &want), 0.0, tol) {
                            return;
                        }
                        if la::norm(&dx) * lambda > 100.0 * tol {
                            c.count("steps that resolve lambda", 1);
                        }
                        lambda = l;
                        model = got;
                        vals = v;
                    }
                    (Sim::Fail(_), Some(Err(OptError::FailedToStep))) => {
                        c.event();
                        c.count("failed as documented", 1);
                        return;
                    }
                    (Sim::Step(..), Some(Err(e))) => {
                        c.fail("step accepted", format!("failed: {e:?} though the damped step reduces the linearised error"));
                        return;
                    }
                    (Sim::Fail(_), Some(_)) => {
                        c.fail("exceeding the maximum fails", "step accepted".to_string());
                        return;
                    }
                }
            }
        });
    }
    // scripted solver: every rejected trial is seen, with the exact damped system
    ctx.family("trials", 1200, 60000, |rng, c| {
        let (p, facs) = problem(rng, c);
        let par = rand_par(rng);
        let order = p.order(rng);
        let mut vals = to_values(&p.init, &order);
        let mut opt = LevenMarquardt::<Spy>::new(p.graph());
        Opt::set_leven(&mut opt, par.min, par.max, par.factor, par.diag);
        let log = Opt::observe(&mut opt);
        let n = rng.int(1, 14);
        let bad = rng.unit();
        let script: Vec<Ans> = (0..n)
            .map(|_| if rng.coin(bad) { *rng.pick(&[Ans::Zero, Ans::Neg, Ans::Nan, Ans::Huge]) } else { *rng.pick(&[Ans::True, Ans::True, Ans::Half]) })
            .collect();
        c.sig((script.clone(), par.diag, par.factor as u32, par.min.to_bits(), par.max.to_bits()));
        SPY.with(|s| *s.borrow_mut() = SpyState { script: script.clone(), ..Default::default() });
        Opt::init(&mut opt, &vals);
        let mut lambda = 1e-5;
        let mut model = p.init.clone();
        let mut at = 0;
        let mut steps = 0;
        for i in 1..=rng.int(1, 5) {
            let sys = system(&facs, &model, &vals);
            let (h, _) = sys.normal();
            if size(&model) > 1e3 {
                return;
            }
            let start = at;
            let sim = simulate(&sys, lambda, &par, &mut || {
                at += 1;
                script.get(at - 1).cloned().unwrap_or(Ans::True)
            });
            let nsys = SPY.with(|s| s.borrow().systems.len());
            let res = c.no_panic("step panicked", || Opt::step(&mut opt, vals, i));
            let Some(res) = res else { return };
            let (trials, next) = match (&sim, &res) {
                (Sim::Ambiguous, _) => return c.count("ambiguous (at the optimum)", 1),
                (Sim::Step(_, l, t), Ok(_)) => (*t, Some(*l)),
                (Sim::Fail(t), Err(OptError::FailedToStep)) => (*t, None),
                (Sim::Step(..), Err(e)) => return c.fail("accepted trial", format!("step failed with {e:?} although a trial reduced the linearised error, script {:?}", &script[start.min(script.len())..])),
                (Sim::Fail(_), Ok(_)) => return c.fail("exceeding the maximum fails", format!("accepted, script {script:?}")),
                (Sim::Fail(_), Err(e)) => return c.fail("exceeding the maximum fails", format!("wrong error {e:?}")),
            };
            // the systems solved: J'J + lambda_k D for lambda_k = lambda * factor^k, same right-hand side (up to column order)
            let seen: Vec<(M, Vec<f64>)> = SPY.with(|s| s.borrow().systems[nsys..].to_vec());
            c.check(seen.len() == trials, "number of trials", || format!("{} systems solved, schedule has {trials}", seen.len()));
            let (_, g) = sys.normal();
            let mut lam = lambda;
            for (k, (a, b)) in seen.iter().enumerate() {
                c.event();
                // column order is the optimizer's choice: compare order-free invariants of the diagonal and rhs
                let want = damp(&h, lam, par.diag);
                let sorted = |v: Vec<f64>| {
                    let mut v = v;
                    v.sort_by(|x, y| x.partial_cmp(y).unwrap());
                    v
                };
                let dw = sorted((0..h.r).map(|i| want[(i, i)]).collect());
                let dg = sorted((0..a.r.min(a.c)).map(|i| a[(i, i)]).collect());
                let s = h.max_abs() * (1.0 + lam) + lam;
                c.close_v(&format!("trial {}: damped diagonal (lambda {})", k.min(2), if par.diag { "diag" } else { "identity" }), &dg, &dw, 1e-11 * s);
                // entry by entry: sums of squares keep their relative accuracy, also next to much larger ones
                let ok = dg.len() == dw.len() && dg.iter().zip(&dw).all(|(x, y)| (x - y).abs() <= 1e-9 * y.abs());
                c.check(ok, "trial: every diagonal entry damped in proportion", || format!("lambda {lam:e}: {dg:?} want {dw:?}"));
                let off = |m: &M| sorted((0..m.r).flat_map(|i| (0..m.c).filter(move |j| *j != i).map(move |j| (i, j))).map(|q| m[q]).collect());
                c.close_v("trial: off-diagonal of J'J untouched", &off(a), &off(&want), 1e-11 * s);
                c.close_v("trial: right-hand side J'r", &sorted(b.clone()), &sorted(g.clone()), 1e-11 * (h.max_abs() * 2.0 * sys.lin_error(&vec![0.0; g.len()])).sqrt());
                lam *= par.factor;
            }
            match (sim, res) {
                (Sim::Step(dx, _, _), Ok(v)) => {
                    steps += 1;
                    let Some(got) = read_back(&v, &model) else { return c.fail("variables kept", "shape changed") };
                    let want = moved(&model, &dx);
                    let cd = cond(&damp(&h, lambda, par.diag));
                    let dn = 1.0 + la::norm(&dx);
                    c.close("accepted trial applied", diff(&got, &want), 0.0, 1e-12 * cd.min(1e9) * dn * (size(&want) + size(&model)));
                    c.check(sys.lin_error(&dx) < sys.lin_error(&vec![0.0; dx.len()]) , "accepted steps reduce the linearised cost", || "increased".into());
                    model = got;
                    vals = v;
                    lambda = next.unwrap();
                }
                _ => {
                    c.count("failed as documented", 1);
                    break;
                }
            }
        }
        let l = log.borrow();
        c.check(l.len() == steps && l.iter().enumerate().all(|(i, x)| x.0 == (i + 1) as f64), "observers see accepted steps only", || format!("{} notifications for {steps} steps", l.len()));
    });
    // whole runs: lambda restarts at 1e-5 in every optimize call, linearised cost never increases
    ctx.family_n("defaults", 1, |_, c| {
        c.sig(0);
        c.event();
        let o: LevenMarquardt = factrs::optimizers::GraphOptimizer::new(factrs::containers::Graph::new());
        let l = &o.params_leven;
        let got = (l.lambda_min as f64, l.lambda_max as f64, l.lambda_factor as f64, l.diagonal_damping);
        c.desc(format!("{got:?}"));
        c.check(got == (0.0, vars::d(1e5) as f64, 10.0, true), "default damping parameters", || format!("{got:?}"));
    });
    // problems far larger than a dense reference can solve: the damped normal equations at the steps taken
    ctx.family("large", 12, 400, |rng, c| {
        let vars = if c.idx < 2 { 1500 } else { *rng.pick(&[20, 40, 70, 130, 260, 520]) };
        let mut o = opts(vars, rng.below(vars));
        o.disp = *rng.pick(&[0.02, 0.1]);
        if rng.coin(0.3) {
            o.kinds = vec![rng.below(Any::KINDS.len())];
        }
        let p = Problem::rand(rng, &o);
        let diag = rng.coin(0.5);
        // a high minimum keeps the damping visible after the first step
        let min = *rng.pick(&[0.0, 1e-2, 1.0]);
        c.desc(format!("{vars} variables {} factors kinds {:?} diag {diag} min {min}", p.facs.len(), o.kinds));
        c.sig((vars, p.facs.len(), o.kinds.len(), diag));
        let order = p.order(rng);
        let mut vals = to_values(&p.init, &order);
        let facs = singles(&p);
        let mut opt = make(Algo::LM, rng.below(3), p.graph());
        opt.set_leven(min, 1e5, 10.0, diag);
        opt.init(&vals);
        let mut model = p.init.clone();
        let mut lambda = 1e-5f64;
        for i in 1..=2 {
            let before = vals.clone();
            let e = facs.iter().map(|f| f.error(&before) as f64).sum::<f64>();
            vals = match c.no_panic("step panicked", || opt.step(vals, i)) {
                Some(Ok(v)) => v,
                Some(Err(e)) => return c.fail("step failed", format!("{e:?}")),
                None => return,
            };
            let Some(m) = judge_large(c, &facs, &model, &before, &vals, lambda, diag) else { return };
            model = m;
            lambda = (lambda / 10.0).max(min);
            let now = facs.iter().map(|f| f.error(&vals) as f64).sum::<f64>();
            if (now - e).abs() <= 1e-6 * e {
                return; // at the optimum rounding decides what is accepted
            }
        }
    });
    // vectors in any unit: the damped step scales with it
    ctx.family("units", 500, 20000, |rng, c| {
        let mut o = opts(rng.int(1, 6), rng.below(6));
        o.kinds = vec![4, 5, 6, 7, 8, 9, 10];
        o.kernels = false;
        let mut p = Problem::rand(rng, &o);
        let s = rng.logu(1e-12, 1e9);
        rescale(&mut p, s);
        let par = rand_par(rng);
        c.desc(format!("unit {s:e} {}", p.describe()));
        c.sig((s.log10() as i32, p.init.len(), p.facs.len(), par.diag));
        let order = p.order(rng);
        let vals = to_values(&p.init, &order);
        let facs = singles(&p);
        let sys = system(&facs, &p.init, &vals);
        let cd = cond(&damp(&sys.normal().0, 1e-5, par.diag));
        if !(cd < 1e7) {
            return c.skip("ill-conditioned");
        }
        let mut opt = make(Algo::LM, rng.below(3), p.graph());
        opt.set_leven(par.min, par.max, par.factor, par.diag);
        opt.init(&vals);
        let Sim::Step(dx, _, 1) = simulate(&sys, 1e-5, &par, &mut || Ans::True) else { return };
        let Some(Ok(v1)) = c.no_panic("step panicked", || opt.step(vals, 1)) else { return c.fail("step in other units", "failed") };
        let Some(got) = read_back(&v1, &p.init) else { return c.fail("step in other units", "shape") };
        c.event();
        let sz = p.init.values().map(|v| v.ref_log(&v.mat()).iter().fold(0.0f64, |m, x| m.max(x.abs()))).fold(0.0, f64::max);
        c.close("step in other units", diff(&got, &moved(&p.init, &dx)), 0.0, 1e-12 * cd * (sz + la::norm(&dx)));
    });
    ctx.family("runs", 300, 15000, |rng, c| {
        let (p, facs) = problem(rng, c);
        let par = rand_par(rng);
        c.sig((p.facs.len(), p.init.len(), par.diag, par.factor as u32, par.min.to_bits()));
        let order = p.order(rng);
        let mut opt = make(Algo::LM, 0, p.graph());
        opt.set_leven(par.min, par.max, par.factor, par.diag);
        let log = opt.observe();
        for run in 0..2 {
            log.borrow_mut().clear();
            let vals = to_values(&p.init, &order);
            opt.params().max_iterations = rng.int(1, 5);
            let _ = c.no_panic("optimize panicked", || opt.optimize(vals.clone()));
            let mut lambda = 1e-5;
            let (mut model, mut cur) = (p.init.clone(), vals);
            for (_, v) in log.borrow().iter() {
                let sys = system(&facs, &model, &cur);
                let cd = cond(&damp(&sys.normal().0, lambda, par.diag));
                if !(cd < 1e8) {
                    return;
                }
                let Some(got) = read_back(v, &model) else { return c.fail("variables kept", "shape changed") };
                match simulate(&sys, lambda, &par, &mut || Ans::True) {
                    Sim::Step(dx, l, _) => {
                        c.event();
                        let want = moved(&model, &dx);
                        let sz = size(&want) + size(&model);
                        if !c.close(if run == 0 { "first run follows the schedule" } else { "second run restarts the schedule" }, diff(&got, &want), 0.0, 1e-12 * cd * (1.0 + la::norm(&dx)) * sz + 1e-12 * sz) {
                            return;
                        }
                        lambda = l;
                    }
                    _ => return,
                }
                model = got;
                cur = v.clone();
            }
        }
    });
    ctx.finish(
        "one evaluation = one random problem and damping parameters stepped 1-6 times; with the real solvers every step is compared with the step of a simulated damping schedule, with a recording solver every trial system (lambda, D, right-hand side) and every rejection (zero, reversed, NaN, overshooting answers) is compared too; events = steps/trials judged; distinct = script, parameters and problem sizes",
        &["steps whose linearised gain is within 1e-9 of the acceptance test (at the optimum) are not judged", "systems with condition above 1e8 are not judged", "trial systems are compared up to the optimizer's column order (sorted entries)"],
    );
}

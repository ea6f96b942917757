//! C15: the optimisation loop honours its stopping rules and observers.
use factrs::containers::Values;
use factrs::dtype;
use factrs::optimizers::*;
use factrs::symbols::X;
use factrs::variables::VectorVar2;
use harness::gen::*;
use harness::opt::*;
use harness::vars::d;
use harness::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Init(usize),
    Step(usize, usize),
    Seen(usize, usize, f64),
}
/// A user-defined optimizer whose state is a counter and whose errors are scripted.
struct Scripted {
    params: OptParams,
    errs: Vec<f64>,
    fail_at: Option<(usize, u8)>,
    observers: OptObserverVec<usize>,
    log: Rc<RefCell<Vec<Ev>>>,
}
impl Optimizer for Scripted {
    type Input = usize;
    fn params(&self) -> &OptParams {
        &self.params
    }
    fn error(&self, v: &usize) -> dtype {
        d(self.errs[(*v).min(self.errs.len() - 1)])
    }
    fn init(&mut self, v: &usize) {
        self.log.borrow_mut().push(Ev::Init(*v));
    }
    fn step(&mut self, v: usize, idx: usize) -> OptResult<usize> {
        self.log.borrow_mut().push(Ev::Step(v, idx));
        if let Some((at, how)) = self.fail_at {
            if idx == at {
                return Err(match how {
                    0 => OptError::FailedToStep,
                    1 => OptError::InvalidSystem,
                    _ => OptError::MaxIterations(v + 1000),
                });
            }
        }
        self.observers.notify(&(v + 1), idx);
        Ok(v + 1)
    }
}
struct See(usize, Rc<RefCell<Vec<Ev>>>);
impl OptObserver for See {
    type Input = usize;
    fn on_step(&self, v: &usize, t: f64) {
        self.1.borrow_mut().push(Ev::Seen(self.0, *v, t));
    }
}
#[derive(Debug, PartialEq, Clone)]
enum Out {
    Ok(usize),
    Max(usize),
    Failed,
    Invalid,
}
/// the documented loop over a scripted sequence of errors
/// (outcome, completed steps, whether rounding of an equivalent formula could decide otherwise)
fn spec(errs: &[f64], p: &OptParams, fail_at: Option<(usize, u8)>) -> (Out, usize, bool) {
    let mut amb = false;
    let at = |i: usize| errs[i.min(errs.len() - 1)];
    let (tol, abs, rel) = (p.error_tol as f64, p.error_tol_absolute as f64, p.error_tol_relative as f64);
    if at(0) <= tol {
        return (Out::Ok(0), 0, false);
    }
    for i in 1..=p.max_iterations {
        if let Some((f, how)) = fail_at {
            if f == i {
                return ([Out::Failed, Out::Invalid, Out::Max(i - 1 + 1000)][how as usize].clone(), i - 1, amb);
            }
        }
        let (o, n) = (at(i - 1), at(i));
        let exact = [1.0, 0.5, 0.25, 0.0].iter().any(|q| n == o * q);
        let close = |x: f64, t: f64, s: f64| (x - t).abs() <= 1e-10 * (s + t.abs().min(s));
        amb |= !exact && (close(o - n, abs, o.abs()) || close((o - n) / o, rel, 1.0));
        if n <= tol || o - n <= abs || (o - n) / o <= rel {
            return (Out::Ok(i), i, amb);
        }
    }
    (Out::Max(p.max_iterations), p.max_iterations, amb)
}
fn rand_errs(rng: &mut Rng) -> Vec<f64> {
    let n = rng.int(1, 14);
    let mut e = rng.logu(1e-8, 1e8);
    let mut v = vec![e];
    for _ in 0..n {
        let r = match rng.below(10) {
            0 => 1.0,
            1 => rng.range(1.0, 2.0),
            2 => 1.0 - rng.logu(1e-9, 1e-3),
            3 => 0.0,
            4 => 0.5,
            5 => 0.25,
            _ => rng.range(0.01, 0.99),
        };
        e *= r;
        v.push(e);
    }
    // an error that is not a number is neither at nor below anything
    if rng.coin(0.08) {
        let i = rng.below(v.len());
        v[i] = f64::NAN;
    }
    v
}
fn rand_params(rng: &mut Rng, errs: &[f64]) -> OptParams {
    let mut p = OptParams::default();
    if rng.coin(0.8) {
        p.max_iterations = rng.below(16);
    }
    let pick = |rng: &mut Rng| errs[rng.below(errs.len())];
    if rng.coin(0.7) {
        let e = pick(rng);
        let r = rng.range(0.5, 2.0);
        let e = if e.is_nan() { 1e-3 } else { e };
        p.error_tol = d(*rng.pick(&[0.0, e, e * r, 1e-6, 1.0]));
    }
    if rng.coin(0.7) {
        let i = rng.below(errs.len().max(2) - 1);
        let dlt = errs[i] - errs[(i + 1).min(errs.len() - 1)];
        let dlt = if dlt.is_finite() { dlt } else { 0.1 };
        let r = rng.range(0.5, 2.0);
        p.error_tol_absolute = d(*rng.pick(&[0.0, dlt, dlt * r, 1e-6, -1e300, 1e-3]));
    }
    if rng.coin(0.7) {
        let i = rng.below(errs.len().max(2) - 1);
        let dlt = (errs[i] - errs[(i + 1).min(errs.len() - 1)]) / errs[i];
        let dlt = if dlt.is_finite() { dlt } else { 0.1 };
        let r = rng.range(0.5, 2.0);
        p.error_tol_relative = d(*rng.pick(&[0.0, dlt, dlt * r, 1e-6, -1e300, 0.5, 0.25]));
    }
    p
}

fn main() {
    let ctx = Ctx::from_env("C15");
    ctx.family("scripted", 60000, 3000000, |rng, c| {
        let errs = rand_errs(rng);
        let params = rand_params(rng, &errs);
        let fail_at = if rng.coin(0.15) { Some((rng.int(1, 8), rng.below(3) as u8)) } else { None };
        let nobs = if rng.coin(0.05) { rng.int(4, 40) } else { rng.below(4) };
        let log = Rc::new(RefCell::new(vec![]));
        let mut o = Scripted { params: params.clone(), errs: errs.clone(), fail_at, observers: Default::default(), log: log.clone() };
        for i in 0..nobs {
            o.observers.add(See(i, log.clone()));
        }
        c.desc(format!("errors {errs:?} {params:?} fail {fail_at:?} observers {nobs}"));
        let runs = if rng.coin(0.3) { 2 } else { 1 };
        let (want, steps, amb) = spec(&errs, &params, fail_at);
        if amb {
            return c.skip("threshold hit within rounding");
        }
        c.sig((format!("{want:?}"), steps, nobs, params.max_iterations, runs));
        c.count(&format!("outcome {}", format!("{want:?}").split('(').next().unwrap()), 1);
        for _ in 0..runs {
            log.borrow_mut().clear();
            let got = match o.optimize(0) {
                Ok(v) => Out::Ok(v),
                Err(OptError::MaxIterations(v)) => Out::Max(v),
                Err(OptError::FailedToStep) => Out::Failed,
                Err(OptError::InvalidSystem) => Out::Invalid,
            };
            c.check(got == want, "outcome of optimize", || format!("got {got:?} want {want:?}"));
            let l = log.borrow();
            // trace: init before anything, steps numbered from 1 on the values reached, observers right after each completed step
            let inits = l.iter().filter(|e| matches!(e, Ev::Init(_))).count();
            c.check(inits >= 1 && l[0] == Ev::Init(0), "initialised with the initial values first", || format!("{:?}", l.first()));
            let mut exp = vec![];
            let done = steps + if matches!(want, Out::Failed | Out::Invalid) || fail_at.map_or(false, |f| f.0 == steps + 1 && matches!(want, Out::Max(v) if v >= 1000)) { 1 } else { 0 };
            for i in 1..=done {
                exp.push(Ev::Step(i - 1, i));
                if i <= steps {
                    for k in 0..nobs {
                        exp.push(Ev::Seen(k, i, i as f64));
                    }
                }
            }
            let tr: Vec<Ev> = l.iter().filter(|e| !matches!(e, Ev::Init(_))).cloned().collect();
            for _ in &tr {
                c.event();
            }
            c.check(tr == exp, "step and observer trace", || format!("got {tr:?} want {exp:?}"));
        }
    });
    ctx.family_n("defaults", 1, |_, c| {
        let p = OptParams::default();
        c.desc(format!("{p:?}"));
        c.sig(0);
        c.event();
        let want = (100, d(1e-6), d(1e-6), d(0.0));
        c.check((p.max_iterations, p.error_tol_relative, p.error_tol_absolute, p.error_tol) == want, "default parameters", || format!("{p:?}"));
    });
    // runs far longer than any fixed-width counter or history buffer: no rule ever stops them but the limit
    ctx.family("long runs", 24, 240, |rng, c| {
        let n = if c.idx == 0 { 66_000 } else { *rng.pick(&[100, 255, 256, 257, 300, 700, 1500]) };
        let scripted = c.idx % 2 == 1;
        c.desc(format!("{n} iterations, scripted {scripted}"));
        c.sig((n, scripted));
        let mut pr = OptParams::default();
        pr.max_iterations = n;
        if scripted {
            // errors fall by one each time, so that the decrease is always above the tolerances
            let mut end = rng.int(1, n + 40);
            // "no limit" is a limit like any other
            if rng.below(2) == 0 {
                end = end.min(n);
                pr.max_iterations = *rng.pick(&[usize::MAX, usize::MAX - 1, u32::MAX as usize, i64::MAX as usize]);
            }
            let errs: Vec<f64> = (0..=n).map(|i| if i >= end { 0.0 } else { (4 * n - i) as f64 }).collect();
            pr.error_tol_relative = d(0.0);
            pr.error_tol_absolute = d(0.5);
            let (want, steps, _) = spec(&errs, &pr, None);
            let log = Rc::new(RefCell::new(vec![]));
            let mut o = Scripted { params: pr.clone(), errs, fail_at: None, observers: Default::default(), log: log.clone() };
            o.observers.add(See(0, log.clone()));
            let got = match o.optimize(0) {
                Ok(v) => Out::Ok(v),
                Err(OptError::MaxIterations(v)) => Out::Max(v),
                Err(OptError::FailedToStep) => Out::Failed,
                Err(OptError::InvalidSystem) => Out::Invalid,
            };
            c.sig((n, pr.max_iterations, end));
            c.check(got == want, "outcome of a long run", || format!("got {got:?} want {want:?}"));
            let tr: Vec<Ev> = log.borrow().iter().filter(|e| !matches!(e, Ev::Init(_))).cloned().collect();
            let exp: Vec<Ev> = (1..=steps).flat_map(|i| [Ev::Step(i - 1, i), Ev::Seen(0, i, i as f64)]).collect();
            (0..tr.len()).for_each(|_| c.event());
            c.check(tr == exp, "trace of a long run", || format!("{} events, first difference at {:?}", tr.len(), tr.iter().zip(&exp).position(|(a, b)| a != b)));
            return;
        }
        // contradictory priors: the error stays well above zero at the optimum
        let mut g = factrs::containers::Graph::new();
        for z in [rng.normal(), 5.0 + rng.normal()] {
            let r = factrs::residuals::PriorResidual::new(VectorVar2::new(d(z), d(-z)));
            g.add_factor(factrs::containers::FactorBuilder::new1_unchecked(r, X(0)).build());
        }
        let mut vals = Values::new();
        vals.insert_unchecked(X(0), VectorVar2::new(d(rng.normal()), d(rng.normal())));
        let mut opt = make(Algo::GN, rng.below(3), g);
        pr.error_tol = d(-1.0);
        pr.error_tol_absolute = d(-1e300);
        pr.error_tol_relative = d(-1e300);
        *opt.params() = pr;
        let seen = opt.observe();
        let res = match c.no_panic("optimize panicked", || opt.optimize(vals.clone())) {
            Some(r) => r,
            None => return,
        };
        let seen = seen.borrow();
        (0..seen.len()).for_each(|_| c.event());
        let bad = seen.iter().enumerate().find(|(i, (t, _))| *t != (i + 1) as f64).map(|(i, (t, _))| (i, *t));
        c.check(bad.is_none(), "steps of a long run numbered from 1", || format!("notification (index, number) {bad:?}"));
        c.check(seen.len() == n, "a long run makes every step it is allowed", || format!("{} of {n}", seen.len()));
        c.check(matches!(res, Err(OptError::MaxIterations(_))), "a long run reports the limit", || "not MaxIterations".into());
    });
    for algo in [Algo::GN, Algo::LM] {
        ctx.family(&format!("real/{algo:?}"), 500, 25000, |rng, c| {
            let mut op = opts(rng.int(1, 5), rng.below(5));
            op.disp = *rng.pick(&[0.0, 0.01, 0.2, 0.6]);
            op.meas = *rng.pick(&[0.0, 0.05]);
            op.kernels = rng.coin(0.5);
            let p = Problem::rand(rng, &op);
            c.desc(p.describe());
            let order = p.order(rng);
            let vals = to_values(&p.init, &order);
            let solver = rng.below(3);
            let mut opt = make(algo, solver, p.graph());
            let e0 = opt.error(&vals);
            let mut pr = OptParams::default();
            if rng.coin(0.7) {
                pr.max_iterations = rng.below(7);
            }
            pr.error_tol = d(*rng.pick(&[0.0, 0.0, e0 * 0.5, e0 * 2.0, 1e-3]));
            pr.error_tol_absolute = d(*rng.pick(&[1e-6, 0.0, 1e-2, e0 * 0.3, -1e300]));
            pr.error_tol_relative = d(*rng.pick(&[1e-6, 0.0, 0.3, 0.9, -1e300]));
            *opt.params() = pr.clone();
            let nobs = if rng.coin(0.05) { rng.int(4, 40) } else { rng.below(4) };
            let logs: Vec<Log> = (0..nobs).map(|_| opt.observe()).collect();
            let runs = rng.int(1, 2);
            for run in 0..runs {
                if run == 1 && rng.coin(0.5) {
                    // registered late: sees only later steps
                    let extra = opt.observe();
                    let before: usize = logs.iter().map(|l| l.borrow().len()).sum();
                    let _ = before;
                    logs.iter().for_each(|l| l.borrow_mut().clear());
                    check_run(c, opt.as_mut(), make(algo, solver, p.graph()), &pr, &vals, &p, &[logs.clone(), vec![extra]].concat());
                    continue;
                }
                logs.iter().for_each(|l| l.borrow_mut().clear());
                check_run(c, opt.as_mut(), make(algo, solver, p.graph()), &pr, &vals, &p, &logs);
            }
            c.sig((p.init.len(), p.facs.len(), pr.max_iterations, solver, nobs, (pr.error_tol_relative as f64).to_bits(), (op.disp * 100.0) as u32));
        });
    }
    ctx.finish(
        "one evaluation = one optimize call of a user-defined optimizer over a scripted error sequence (plateaus, increases, exact-threshold decreases, zero errors, failing steps, 0-15 iterations) checked against the documented loop with its full event trace, or one Gauss-Newton/Levenberg-Marquardt run checked step by step against a manually driven twin; events = step/observer events checked; distinct = outcome, steps, observers, limits",
        &["infinite errors are not generated", "for real optimizers, runs whose decrease is within 1e-6 of a tolerance are not judged"],
    );
}
/// optimize must do what stepping a twin by hand and applying the documented rules does
fn check_run(c: &mut Case, opt: &mut dyn Opt, mut twin: Box<dyn Opt>, pr: &OptParams, vals: &Values, p: &Problem, logs: &[Log]) {
    let (tol, abs, rel) = (pr.error_tol as f64, pr.error_tol_absolute as f64, pr.error_tol_relative as f64);
    let res = match c.no_panic("optimize panicked", || opt.optimize(vals.clone())) {
        Some(r) => r,
        None => return,
    };
    let mut trace: Vec<Values> = vec![];
    let mut cur = vals.clone();
    let mut want = "max";
    let mut border = false;
    if twin.error(&cur) <= tol {
        want = "ok";
    } else {
        twin.init(&cur);
        let mut old = twin.error(&cur);
        for i in 1..=pr.max_iterations {
            match twin.step(cur.clone(), i) {
                Ok(v) => cur = v,
                Err(OptError::FailedToStep) => {
                    want = "failed";
                    // at the optimum acceptance is decided by rounding
                    border = true;
                    break;
                }
                Err(_) => {
                    want = "other";
                    break;
                }
            }
            trace.push(cur.clone());
            let new = twin.error(&cur);
            let da = old - new;
            let dr = da / old;
            let near = |x: f64, t: f64, s: f64| (x - t).abs() <= 1e-6 * (t.abs() + 1e-12 * s);
            border |= near(new, tol, old) || near(da, abs, old) || near(dr, rel, 1.0) || (da.abs() <= 1e-12 * old);
            if new <= tol || da <= abs || dr <= rel {
                want = "ok";
                break;
            }
            old = new;
        }
    }
    if border {
        c.count("borderline runs", 1);
        // rounding may decide where it stops; the observer protocol holds all the same
    }
    let got = match &res {
        Ok(_) => "ok",
        Err(OptError::MaxIterations(_)) => "max",
        Err(OptError::FailedToStep) => "failed",
        Err(_) => "other",
    };
    if !border {
        c.check(got == want, "outcome of optimize", || format!("got {got} want {want}"));
    }
    let returned = match &res {
        Ok(v) => Some(v),
        Err(OptError::MaxIterations(v)) => Some(v),
        _ => None,
    };
    let same = |a: &Values, b: &Values, tolr: f64| match (read_back(a, &p.init), read_back(b, &p.init)) {
        (Some(x), Some(y)) => diff(&x, &y) <= tolr * (size(&x) + size(&y)),
        _ => false,
    };
    let lens: Vec<usize> = logs.iter().map(|l| l.borrow().len()).collect();
    if !border {
        c.check(lens.iter().all(|l| *l == trace.len()), "every observer sees every completed step once", || format!("{lens:?} notifications for {} steps", trace.len()));
    }
    c.check(lens.iter().all(|l| *l == lens[0]), "all observers see the same steps", || format!("{lens:?}"));
    for l in logs {
        let l = l.borrow();
        for (i, (t, v)) in l.iter().enumerate() {
            c.event();
            c.check(*t == (i + 1) as f64, "steps numbered from 1", || format!("notification {i} carries {t}"));
            if i < trace.len() && size(&read_back(v, &p.init).unwrap_or_default()) < 1e4 {
                c.check(same(v, &trace[i], 1e-7), "observer gets the values after the step", || format!("step {}", i + 1));
            }
        }
        if let (Some(r), Some((_, last))) = (returned, l.last()) {
            c.check(same(r, last, 0.0), "returned values are those of the last step", || "differ".into());
        }
        if let (Some(r), true) = (returned, l.is_empty()) {
            c.check(same(r, vals, 0.0), "no step: returned unchanged", || "values changed".into());
        }
    }
    if let (Some(r), false) = (returned, border) {
        let last = trace.last().unwrap_or(vals);
        c.check(same(r, last, 1e-7), "returned values", || "differ from the twin's last step".into());
    }
}

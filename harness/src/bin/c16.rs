//! C16: optimisations are independent: results never depend on what the optimizer ran before.
use factrs::containers::Values;
use factrs::optimizers::{OptError, OptParams, OptResult};
use harness::gen::*;
use harness::mixed::Any;
use harness::opt::*;
use harness::vars::d;
use harness::*;

#[derive(Clone)]
struct Run {
    vals: Values,
    model: Model,
    params: OptParams,
    what: &'static str,
}
fn outcome(r: &OptResult<Values>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(OptError::MaxIterations(_)) => "max",
        Err(OptError::FailedToStep) => "failed",
        Err(OptError::InvalidSystem) => "invalid",
    }
}
fn vals_of(r: &OptResult<Values>) -> Option<&Values> {
    match r {
        Ok(v) | Err(OptError::MaxIterations(v)) => Some(v),
        _ => None,
    }
}
fn main() {
    let ctx = Ctx::from_env("C16");
    for algo in [Algo::GN, Algo::LM] {
        for solver in 0..3 {
            ctx.family(&format!("reuse/{algo:?}/{}", SOLVERS[solver]), 120, 6000, |rng, c| {
                let vars = if rng.coin(0.04) { rng.int(20, 120) } else { rng.int(1, 7) };
                let mut o = opts(vars, rng.below(6));
                o.disp = if vars > 7 { 0.05 } else { 0.3 };
                o.kernels = rng.coin(0.3);
                let p = Problem::rand(rng, &o);
                // extra variables only where the damped system stays regular
                let ident = algo == Algo::LM && rng.coin(0.5);
                let nruns = if vars <= 7 && rng.coin(0.05) { rng.int(8, 40) } else { rng.int(2, 5) };
                let mut runs: Vec<Run> = vec![];
                let converged = {
                    let mut q = make(algo, solver, p.graph());
                    let v = to_values(&p.init, &p.order(rng));
                    let l = q.observe();
                    let _ = rep::quiet_catch(|| q.optimize(v));
                    let b = l.borrow();
                    b.last().and_then(|x| read_back(&x.1, &p.init))
                };
                for _ in 0..nruns {
                    let which = rng.below(6);
                    let mut model = p.init.clone();
                    let mut what = "same start";
                    match which {
                        0 => {}
                        1 | 2 => {
                            what = "other start";
                            for v in model.values_mut() {
                                let t = v.small_tangent(rng, 0.3);
                                *v = v.oplus(&t);
                            }
                        }
                        3 => {
                            if let Some(m) = &converged {
                                what = "start at the solution";
                                model = m.clone();
                            }
                        }
                        _ => {
                            if ident {
                                what = "extra variables";
                                for _ in 0..rng.int(1, 3) {
                                    let k = fresh(rng, &model);
                                    let q = rng.below(Any::KINDS.len());
                                    model.insert(k, moderate(rng, q));
                                }
                            }
                        }
                    }
                    let mut order: Vec<u64> = model.keys().cloned().collect();
                    rng.shuffle(&mut order);
                    let vals = if !runs.is_empty() && what == "same start" && rng.coin(0.3) {
                        model = runs[0].model.clone();
                        runs[0].vals.clone()
                    } else if rng.coin(0.4) {
                        // a different insertion history
                        churn(rng, &model, &order)
                    } else {
                        to_values(&model, &order)
                    };
                    let mut params = OptParams::default();
                    params.error_tol_absolute = d(*rng.pick(&[1e-6, 1e-3, -1e300]));
                    params.error_tol_relative = d(*rng.pick(&[1e-6, 1e-2, -1e300]));
                    params.max_iterations = *rng.pick(&[100, 1, 2, 3, 0]);
                    if params.max_iterations == 100 && (params.error_tol_absolute as f64) < 0.0 {
                        params.max_iterations = 8;
                    }
                    runs.push(Run { vals, model, params, what });
                }
                c.desc(format!("{} runs {:?}", p.describe(), runs.iter().map(|r| (r.what, r.params.max_iterations)).collect::<Vec<_>>()));
                c.sig((p.init.len(), p.facs.len(), runs.iter().map(|r| (r.what, r.params.max_iterations)).collect::<Vec<_>>()));
                let mut opt = make(algo, solver, p.graph());
                if ident {
                    opt.set_leven(0.0, 1e5, 10.0, false);
                }
                let log = opt.observe();
                let facs = singles(&p);
                let probe = to_values(&p.truth, &p.order(rng));
                let e_probe = opt.graph().error(&probe) as f64;
                let lin0 = graph_dense(opt.graph(), &probe);
                for (i, r) in runs.iter().enumerate() {
                    log.borrow_mut().clear();
                    *opt.params() = r.params.clone();
                    let used = rep::quiet_catch(|| opt.optimize(r.vals.clone()));
                    let tr_used: Vec<(f64, Values)> = log.borrow().clone();
                    let mut fresh = make(algo, solver, p.graph());
                    if ident {
                        fresh.set_leven(0.0, 1e5, 10.0, false);
                    }
                    *fresh.params() = r.params.clone();
                    let fl = fresh.observe();
                    let new = rep::quiet_catch(|| fresh.optimize(r.vals.clone()));
                    let tr_new: Vec<(f64, Values)> = fl.borrow().clone();
                    c.event();
                    c.count(r.what, 1);
                    let lbl = if i == 0 { "first run" } else { "later run" };
                    let (used, new) = match (used, new) {
                        (Ok(a), Ok(b)) => (a, b),
                        (Err(_), Err(_)) => {
                            c.count("both panicked", 1);
                            return;
                        }
                        (Err(m), Ok(_)) => return c.fail(format!("{lbl}: reused optimizer panicked"), format!("run {i} ({}): {m}", r.what)),
                        (Ok(_), Err(m)) => return c.fail(format!("{lbl}: only a fresh optimizer panics"), format!("run {i}: {m}")),
                    };
                    // where rounding decides (at the optimum) only the reached values are compared
                    let tail = tr_new.last().map(|x| facs.iter().map(|f| f.error(&x.1) as f64).sum::<f64>());
                    let prev = if tr_new.len() > 1 { Some(&tr_new[tr_new.len() - 2].1) } else { Some(&r.vals) };
                    let flat = match (tail, prev) {
                        (Some(t), Some(pv)) => {
                            let e: f64 = facs.iter().map(|f| f.error(pv) as f64).sum();
                            (e - t).abs() <= 1e-9 * e
                        }
                        _ => r.what == "start at the solution",
                    };
                    if !flat {
                        c.check(outcome(&used) == outcome(&new), &format!("{lbl}: same outcome"), || format!("run {i} ({}): {} instead of {}", r.what, outcome(&used), outcome(&new)));
                        c.check(tr_used.len() == tr_new.len(), &format!("{lbl}: same observer trace"), || format!("run {i} ({}): {} steps instead of {}", r.what, tr_used.len(), tr_new.len()));
                    } else {
                        c.count("flat runs", 1);
                    }
                    for (k, (a, b)) in tr_used.iter().zip(&tr_new).enumerate() {
                        let (x, y) = (read_back(&a.1, &r.model), read_back(&b.1, &r.model));
                        let (Some(x), Some(y)) = (x, y) else { return c.fail(format!("{lbl}: variables kept"), "shape differs".to_string()) };
                        if size(&y) > 1e4 {
                            break;
                        }
                        if !c.close(&format!("{lbl}: same steps"), diff(&x, &y), 0.0, 1e-8 * (size(&x) + size(&y))) {
                            return c.fail("where", format!("run {i} ({}) step {}", r.what, k + 1));
                        }
                        c.check(a.0 == b.0, &format!("{lbl}: same step numbers"), || format!("{} vs {}", a.0, b.0));
                    }
                    if let (Some(a), Some(b), false) = (vals_of(&used), vals_of(&new), flat) {
                        if let (Some(x), Some(y)) = (read_back(a, &r.model), read_back(b, &r.model)) {
                            if size(&y) < 1e4 {
                                c.close(&format!("{lbl}: same result"), diff(&x, &y), 0.0, 1e-8 * (size(&x) + size(&y)));
                            }
                        } else {
                            c.fail(format!("{lbl}: variables kept"), "shape differs".to_string());
                        }
                    }
                    // the caller's graph is untouched
                    c.check(opt.graph().len() == p.facs.len(), "graph keeps its factors", || format!("{} want {}", opt.graph().len(), p.facs.len()));
                    c.close("graph error unchanged", opt.graph().error(&probe) as f64, e_probe, 1e-12 * (1.0 + e_probe));
                }
                c.close_m("factors unchanged", &graph_dense(opt.graph(), &probe), &lin0, 1e-13);
            });
        }
    }
    ctx.finish(
        "one evaluation = one optimizer object run 2-5 times in a row (same/other start, at the solution, extra variables, other insertion history, different limits) with every run compared, step by step, with a fresh optimizer on the same values; events = runs compared; distinct = run scripts and problem sizes",
        &["extra variables are used with Levenberg-Marquardt identity damping only (the undamped system is singular)", "runs ending where the error no longer changes (relative 1e-9) are compared by their values, not by their outcome"],
    );
}
fn churn(rng: &mut Rng, model: &Model, order: &[u64]) -> Values {
    let mut v = Values::new();
    // overwrite entries in another order, growing and cloning the container on the way
    let mut o2 = order.to_vec();
    rng.shuffle(&mut o2);
    for k in &o2 {
        model[k].insert(&mut v, *k);
        if rng.coin(0.3) {
            v = v.clone();
        }
    }
    for k in order {
        model[k].insert(&mut v, *k);
    }
    v
}
fn graph_dense(g: &factrs::containers::Graph, v: &Values) -> M {
    let go = g.sparsity_pattern(factrs::containers::ValuesOrder::from_values(v));
    let m = g.linearize(v).residual_jacobian(&go).diff.to_dense();
    M::from_fn(m.nrows(), m.ncols(), |i, j| m.read(i, j) as f64)
}

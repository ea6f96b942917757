//! C13: every Gauss-Newton step solves the linearised least-squares problem.
use factrs::optimizers::OptError;
use harness::gen::*;
use harness::mixed::Any;
use harness::opt::*;
use harness::users::NUSERS;
use harness::*;

fn add_users(rng: &mut Rng, p: &mut Problem) {
    for _ in 0..rng.below(4) {
        let w = rng.below(NUSERS);
        if let Some(f) = user_factor(rng, w, &p.init, (0.5, 5.0)) {
            let at = rng.below(p.facs.len() + 1);
            p.facs.insert(at, f);
        }
    }
}
fn judge_step(c: &mut Case, p: &Problem, facs: &[factrs::containers::Factor], before: &Model, vals: &factrs::containers::Values, after: &factrs::containers::Values, what: &str) -> Option<Model> {
    c.event();
    let sys = system(facs, before, vals);
    let (h, g) = sys.normal();
    let cd = cond(&h);
    let got = read_back(after, before);
    if !c.check(got.is_some(), &format!("{what}: variables kept"), || "a variable disappeared or changed type".into()) {
        return None;
    }
    let got = got.unwrap();
    if !(cd < 1e9) {
        c.count("ill-conditioned steps", 1);
        return Some(got);
    }
    let Some((dx, _)) = sys.a.lstsq(&sys.b) else { return Some(got) };
    let dn = 1.0 + la::norm(&dx);
    let want = moved(before, &dx);
    let sz = size(&want) + size(before);
    let ok = c.close(&format!("{what}: values after = oplus of the least-squares solution"), diff(&got, &want), 0.0, 1e-12 * cd * dn * sz + 1e-10 * sz);
    if !ok {
        return None;
    }
    // the same from the independent model (coarser: small-angle approximations)
    if p.max_angle(before) < 3.0 && dn < 50.0 && cd < 1e5 {
        let (h2, g2) = model_normal(p, before);
        if let Some(x) = h2.solve(&M::col(&g2)) {
            let want = moved_ref(before, &x.d);
            let dmax = got.iter().map(|(k, v)| v.mat().sub(&want[k]).max_abs()).fold(0.0, f64::max);
            c.close(&format!("{what}: step of the independent model"), dmax, 0.0, 1e-5 * cd.max(1.0) * dn * sz * sz);
            c.count("model-checked steps", 1);
        }
    }
    let _ = g;
    Some(got)
}

fn main() {
    let ctx = Ctx::from_env("C13");
    for solver in 0..3 {
        ctx.family(&format!("steps/{}", SOLVERS[solver]), 250, 12000, |rng, c| {
            let vars = rng.int(1, 7);
            let extra = rng.below(6);
            let mut o = opts(vars, extra);
            o.disp = *rng.pick(&[0.0, 0.02, 0.2, 0.7]);
            if rng.coin(0.4) {
                o.kinds = vec![rng.below(Any::KINDS.len())];
            }
            let mut p = Problem::rand(rng, &o);
            add_users(rng, &mut p);
            c.desc(p.describe());
            let mut kinds: Vec<&str> = p.init.values().map(|v| v.kind()).collect();
            kinds.sort();
            c.sig((kinds, p.facs.len(), p.facs.iter().map(|f| f.keys.len()).sum::<usize>()));
            let order = p.order(rng);
            let mut vals = to_values(&p.init, &order);
            let facs = singles(&p);
            let mut opt = make(Algo::GN, solver, p.graph());
            let log = opt.observe();
            let mut model = p.init.clone();
            let e = opt.error(&vals);
            let sum: f64 = facs.iter().map(|f| f.error(&vals) as f64).sum();
            c.close("reported error = graph error", e, sum, 1e-14 * facs.len() as f64 * sum);
            c.close("reported error = model error", e, p.error(&p.init), 1e-5 * (1.0 + sum));
            let steps = rng.int(1, 4);
            if rng.coin(0.5) {
                opt.init(&vals);
                for i in 1..=steps {
                    // stop before the linearisation point leaves the principal range or blows up
                    if size(&model) > 1e3 {
                        break;
                    }
                    if rng.coin(0.3) {
                        // a driver of its own may hand over the same variables in another container
                        vals = rebuilt(rng, &vals);
                        c.count("steps from a rebuilt container", 1);
                    }
                    let before = vals.clone();
                    vals = match c.no_panic("step panicked", || opt.step(vals, i)) {
                        Some(Ok(v)) => v,
                        Some(Err(e)) => {
                            c.fail("step failed", format!("{e:?}"));
                            return;
                        }
                        None => return,
                    };
                    let Some(m) = judge_step(c, &p, &facs, &model, &before, &vals, "step") else { return };
                    model = m;
                }
            } else {
                let pr = opt.params();
                pr.max_iterations = steps;
                pr.error_tol_absolute = -1e300 as _;
                pr.error_tol_relative = -1e300 as _;
                pr.error_tol = -1.0;
                let start = vals.clone();
                let res = c.no_panic("optimize panicked", || opt.optimize(vals));
                // an exactly zero error on the way ends the loop legitimately (relative decrease -inf); stopping is C15's subject
                let fin = match res {
                    Some(Err(OptError::MaxIterations(fin))) | Some(Ok(fin)) => fin,
                    Some(Err(e)) => return c.fail("optimize failed", format!("{e:?}")),
                    None => return,
                };
                let l = log.borrow();
                let mut prev = start;
                for (_, v) in l.iter() {
                    if size(&model) > 1e3 {
                        return;
                    }
                    let Some(m) = judge_step(c, &p, &facs, &model, &prev, v, "optimize") else { return };
                    model = m;
                    prev = v.clone();
                }
                if let Some(f) = read_back(&fin, &model) {
                    c.close("returned values = last step", diff(&f, &model), 0.0, 0.0);
                } else {
                    c.fail("returned values = last step", "shape differs");
                }
            }
        });
        // linear problems: one step reaches the minimum
        ctx.family(&format!("linear-one-step/{}", SOLVERS[solver]), 300, 15000, |rng, c| {
            let mut o = opts(rng.int(1, 8), rng.below(8));
            o.kinds = vec![4, 5, 6, 7, 8, 9, 10];
            o.disp = *rng.pick(&[0.1, 3.0, 100.0]);
            o.meas = *rng.pick(&[0.0, 0.3]);
            o.kernels = false;
            let p = Problem::rand(rng, &o);
            c.desc(p.describe());
            c.sig((o.vars, o.extra, (o.disp * 10.0) as u32, o.meas > 0.0, p.init.len()));
            let order = p.order(rng);
            let vals = to_values(&p.init, &order);
            let mut opt = make(Algo::GN, solver, p.graph());
            let facs = singles(&p);
            let sys = system(&facs, &p.init, &vals);
            let cd = cond(&sys.normal().0);
            if !(cd < 1e7) {
                return c.skip("ill-conditioned");
            }
            opt.init(&vals);
            let Some(Ok(v1)) = c.no_panic("step panicked", || opt.step(vals, 1)) else {
                c.fail("linear step", "failed".to_string());
                return;
            };
            let Some(m1) = read_back(&v1, &p.init) else {
                c.fail("linear step", "shape".to_string());
                return;
            };
            c.event();
            let min = {
                let (dx, _) = sys.a.lstsq(&sys.b).unwrap();
                sys.lin_error(&dx)
            };
            let sz = size(&p.init) + 10.0 * o.disp;
            let scale = 1e-13 * cd * sz * sz * sys.a.max_abs().powi(2) * facs.len() as f64;
            c.close("minimum reached in one step", opt.error(&v1), min, scale + 1e-9 * min);
            if o.meas == 0.0 {
                c.close("exact measurements recovered in one step", diff(&m1, &p.truth), 0.0, 1e-12 * cd * sz);
            }
            // a second step does not move
            let Some(Ok(v2)) = c.no_panic("second step panicked", || opt.step(v1, 2)) else { return };
            if let Some(m2) = read_back(&v2, &p.init) {
                c.close("second step stays", diff(&m1, &m2), 0.0, 1e-12 * cd * sz);
            }
        });
    }
    // problems far larger than a dense reference can solve: the normal equations at the step taken
    ctx.family("large", 12, 400, |rng, c| {
        let vars = if c.idx < 2 { 1500 } else { *rng.pick(&[20, 40, 70, 130, 260, 520]) };
        let mut o = opts(vars, rng.below(vars));
        o.disp = *rng.pick(&[0.02, 0.1]);
        if rng.coin(0.3) {
            o.kinds = vec![rng.below(Any::KINDS.len())];
        }
        let p = Problem::rand(rng, &o);
        c.desc(format!("{vars} variables {} factors kinds {:?}", p.facs.len(), o.kinds));
        c.sig((vars, p.facs.len(), o.kinds.len()));
        let order = p.order(rng);
        let mut vals = to_values(&p.init, &order);
        let facs = singles(&p);
        let mut opt = make(Algo::GN, rng.below(3), p.graph());
        let sum: f64 = facs.iter().map(|f| f.error(&vals) as f64).sum();
        c.close("reported error = graph error", opt.error(&vals), sum, 1e-14 * facs.len() as f64 * sum);
        opt.init(&vals);
        let mut model = p.init.clone();
        for i in 1..=2 {
            let before = vals.clone();
            vals = match c.no_panic("step panicked", || opt.step(vals, i)) {
                Some(Ok(v)) => v,
                Some(Err(e)) => return c.fail("step failed", format!("{e:?}")),
                None => return,
            };
            let Some(m) = judge_large(c, &facs, &model, &before, &vals, 0.0, true) else { return };
            model = m;
        }
    });
    // vectors in any unit: the step scales with it
    ctx.family("units", 500, 20000, |rng, c| {
        let mut o = opts(rng.int(1, 6), rng.below(6));
        o.kinds = vec![4, 5, 6, 7, 8, 9, 10];
        o.kernels = false;
        let mut p = Problem::rand(rng, &o);
        let s = rng.logu(1e-12, 1e9);
        rescale(&mut p, s);
        c.desc(format!("unit {s:e} {}", p.describe()));
        c.sig((s.log10() as i32, p.init.len(), p.facs.len()));
        let order = p.order(rng);
        let vals = to_values(&p.init, &order);
        let facs = singles(&p);
        let sys = system(&facs, &p.init, &vals);
        let cd = cond(&sys.normal().0);
        if !(cd < 1e7) {
            return c.skip("ill-conditioned");
        }
        let mut opt = make(Algo::GN, rng.below(3), p.graph());
        opt.init(&vals);
        let Some(Ok(v1)) = c.no_panic("step panicked", || opt.step(vals, 1)) else { return c.fail("step in other units", "failed") };
        let Some(got) = read_back(&v1, &p.init) else { return c.fail("step in other units", "shape") };
        c.event();
        let Some((dx, _)) = sys.a.lstsq(&sys.b) else { return };
        let sz = p.init.values().map(|v| v.ref_log(&v.mat()).iter().fold(0.0f64, |m, x| m.max(x.abs()))).fold(0.0, f64::max);
        c.close("step in other units", diff(&got, &moved(&p.init, &dx)), 0.0, 1e-12 * cd * (sz + la::norm(&dx)));
    });
    ctx.finish(
        "one evaluation = one random well-posed problem (1-7 variables of mixed types, priors/betweens/user factors, any noise and kernel) stepped 1-4 times through step or optimize, every step compared with the dense Householder least-squares solution of freshly linearised factors and with the normal equations of an independent model, or one linear problem solved in one step; events = steps judged; distinct = multisets of types and graph sizes",
        &["steps with cond(A'A) above 1e9 are not judged", "the model-level comparison skips residual rotations above 3 rad"],
    );
}

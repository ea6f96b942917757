//! C17: optimisation finds the minimum regardless of order, naming and solver.
use factrs::containers::Graph;
use factrs::optimizers::OptError;
use harness::gen::*;
use harness::mixed::{rand_key, Any};
use harness::opt::*;
use harness::vars::d;
use harness::*;
use std::collections::BTreeMap;

/// independent Gauss-Newton on the model; None if it does not settle
fn reference(p: &Problem, start: &Model, iters: usize) -> Option<Model> {
    let mut m = start.clone();
    let mut e = p.error(&m);
    for _ in 0..iters {
        if p.max_angle(&m) > 2.5 {
            return None;
        }
        let (h, g) = model_normal(p, &m);
        let x = h.solve(&M::col(&g))?;
        m = moved(&m, &x.d);
        let n = p.error(&m);
        if !n.is_finite() || n > e * 1.0001 + 1e-9 {
            return None;
        }
        let done = la::norm(&x.d) < 1e-9 * size(&m) || (e - n).abs() <= 1e-13 * e;
        e = n;
        if done {
            return Some(m);
        }
    }
    None
}
fn grad_norm(p: &Problem, m: &Model) -> f64 {
    p.gradient(m).values().map(|v| la::dot(v, v)).sum::<f64>().sqrt()
}
/// rename keys and permute factors and insertion
fn rename(rng: &mut Rng, p: &Problem) -> (Problem, BTreeMap<u64, u64>) {
    let mut map = BTreeMap::new();
    let mut used = std::collections::HashSet::new();
    for k in p.init.keys() {
        loop {
            let q = rand_key(rng);
            if used.insert(q) {
                map.insert(*k, q);
                break;
            }
        }
    }
    let mv = |m: &Model| m.iter().map(|(k, v)| (map[k], v.clone())).collect::<Model>();
    let mut facs: Vec<FacS> = p
        .facs
        .iter()
        .map(|f| {
            let mut f = f.clone();
            f.keys = f.keys.iter().map(|k| map[k]).collect();
            f
        })
        .collect();
    rng.shuffle(&mut facs);
    (Problem { truth: mv(&p.truth), init: mv(&p.init), facs }, map)
}
struct Res {
    model: Model,
    ok: bool,
    how: String,
}
fn solve(rng: &mut Rng, c: &mut Case, p: &Problem, algo: Algo, solver: usize, tight: bool) -> Option<Res> {
    let order = p.order(rng);
    let vals = to_values(&p.init, &order);
    let mut opt = make(algo, solver, p.graph());
    if tight {
        let pr = opt.params();
        pr.max_iterations = 400;
        pr.error_tol_absolute = d(1e-14);
        pr.error_tol_relative = d(1e-14);
    }
    let log = opt.observe();
    let r = c.no_panic("optimize panicked", || opt.optimize(vals.clone()))?;
    c.event();
    let (v, ok, how) = match r {
        Ok(v) => (v, true, "ok"),
        Err(OptError::MaxIterations(v)) => (v, false, "max"),
        // no further decrease possible: the last values are those of the last step
        Err(OptError::FailedToStep) => (log.borrow().last().map(|x| x.1.clone()).unwrap_or(vals), false, "failed"),
        Err(_) => (vals, false, "invalid"),
    };
    let Some(model) = read_back(&v, &p.init) else {
        c.fail("variables kept", "shape changed");
        return None;
    };
    Some(Res { model, ok, how: format!("{algo:?}/{} {how}", SOLVERS[solver]) })
}
/// all the guarantees on one problem
fn judge(rng: &mut Rng, c: &mut Case, p: &Problem, exact: bool, configs: usize, refiters: usize) {
    let start = p.error(&p.init);
    let Some(best) = reference(p, &p.init, refiters) else {
        return c.skip("reference does not settle");
    };
    let (h, _) = model_normal(p, &best);
    let hm = h.max_abs();
    let Some(hi) = h.inv() else { return c.skip("singular") };
    let lmin = 1.0 / (hi.max_abs() * h.r as f64);
    if hm / lmin > 1e9 {
        return c.skip("ill-conditioned");
    }
    let e = p.error(&best);
    let n = h.r as f64;
    let sz = size(&best);
    let gtol = n.sqrt() * (2e-5 * (hm * (e + 1e-6)).sqrt() + 1e-6 * hm * sz);
    // distance equivalent to an undetectable decrease of the error, plus the approximations inside the residuals
    let xtol = 30.0 * (1e-13 * (e + 1e-12) / lmin).sqrt() * sz + 1e-6 * sz * (1.0 + hm / lmin).sqrt() + if exact { 0.0 } else { 3e-7 * sz * (hm / lmin) };
    let mut all: Vec<(usize, usize)> = (0..6).map(|i| (i % 2, i / 2)).collect();
    rng.shuffle(&mut all);
    for (i, (a, s)) in all.into_iter().take(configs).enumerate() {
        let algo = [Algo::GN, Algo::LM][a];
        let (q, map) = if i == 0 { (p.clone(), p.init.keys().map(|k| (*k, *k)).collect()) } else { rename(rng, p) };
        let Some(r) = solve(rng, c, &q, algo, s, true) else { return };
        let m: Model = map.iter().map(|(k, v)| (*k, r.model[v].clone())).collect();
        c.count(&r.how, 1);
        let g = grad_norm(p, &m);
        if !c.check(g <= gtol, &format!("{algo:?} reaches a stationary point"), || format!("{}: |gradient| {g:e} > {gtol:e} (error {e:e}, start {start:e})", r.how)) {
            return;
        }
        c.close(&format!("{algo:?}: result independent of order, names, solver and optimizer"), diff(&m, &best), 0.0, xtol);
        let er = p.error(&m);
        c.check(er <= e + 1e-6 * (1.0 + e), "error at the minimum", || format!("{}: {er:e} vs {e:e}", r.how));
        c.check(er <= start * (1.0 + 1e-9) + 1e-9, "never worse than the start", || format!("{er:e} > {start:e}"));
        if exact {
            c.close("exact measurements: ground truth recovered", diff(&m, &p.truth), 0.0, xtol + 1e-6 * sz);
        }
        let _ = r.ok;
    }
    // default parameters: success is reported and the result is near the minimum
    let algo = *rng.pick(&[Algo::GN, Algo::LM]);
    if start > 1e-3 && start > e * 1.5 {
        let Some(r) = solve(rng, c, p, algo, 0, false) else { return };
        let er = p.error(&r.model);
        c.check(er <= e + 1e-2 * (e + 1e-3) + 1e-3, "default parameters come close to the minimum", || format!("{}: {er:e}, minimum {e:e}", r.how));
        c.check(r.ok || e <= 1e-6 || r.how.contains("failed"), "default parameters report success", || r.how.clone());
    }
}
/// a trajectory with odometry and loop closures, initialised by integrating the odometry
fn pose_graph(rng: &mut Rng, kind: usize, n: usize, noise: f64) -> Problem {
    let mut truth = Model::new();
    let mut keys = vec![];
    let mut at = Any::rand_kind(rng, kind);
    while !(at.mat().max_abs() < 10.0) {
        at = Any::rand_kind(rng, kind);
    }
    for _ in 0..n {
        let k = fresh(rng, &truth);
        truth.insert(k, at.clone());
        keys.push(k);
        let t = at.small_tangent(rng, 1.0);
        at = at.oplus(&t);
    }
    let mut facs = vec![];
    let mut add = |rng: &mut Rng, ks: Vec<u64>, noise: f64| {
        let exact = if ks.len() == 1 { truth[&ks[0]].clone() } else { truth[&ks[0]].inverse().compose(&truth[&ks[1]]) };
        let t = exact.small_tangent(rng, noise);
        let z = exact.oplus(&t);
        let nz = NoiseS::rand(rng, z.dim(), 0.1, 0.5);
        facs.push(FacS { z: z.clone(), keys: ks, noise: nz, ker: KerS::NONE, ker_first: false, user: None });
        z
    };
    let z0 = add(rng, vec![keys[0]], 0.0);
    let mut init = Model::new();
    init.insert(keys[0], z0);
    for i in 1..n {
        let z = add(rng, vec![keys[i - 1], keys[i]], noise);
        let v = init[&keys[i - 1]].compose(&z);
        init.insert(keys[i], v);
    }
    for _ in 0..n / 3 {
        let (a, b) = (rng.below(n), rng.below(n));
        if a != b {
            add(rng, vec![keys[a], keys[b]], noise);
        }
    }
    Problem { truth, init, facs }
}

fn main() {
    let ctx = Ctx::from_env("C17");
    ctx.family("mixed", 200, 8000, |rng, c| {
        let exact = rng.coin(0.4);
        let mut o = opts(rng.int(1, 8), rng.below(8));
        o.meas = if exact { 0.0 } else { 0.03 };
        o.disp = *rng.pick(&[0.02, 0.1, 0.3]);
        o.kernels = rng.coin(0.5);
        let p = Problem::rand(rng, &o);
        c.desc(p.describe());
        let mut kinds: Vec<&str> = p.init.values().map(|v| v.kind()).collect();
        kinds.sort();
        c.sig((kinds, p.facs.len(), exact));
        judge(rng, c, &p, exact, 3, 200);
    });
    for kd in [0usize, 1, 2, 3, 7, 11] {
        ctx.family(&format!("pose-graph/{}", Any::KINDS[kd]), 12, 400, |rng, c| {
            let exact = rng.coin(0.3);
            let n = rng.int(5, 25);
            let p = pose_graph(rng, kd, n, if exact { 0.0 } else { 0.02 });
            c.desc(format!("{} poses, {} factors, exact {exact}", n, p.facs.len()));
            c.sig((n, p.facs.len(), exact));
            let mut p = p;
            if exact {
                for v in p.init.values_mut() {
                    let t = v.small_tangent(rng, 0.05);
                    *v = v.oplus(&t);
                }
            }
            judge(rng, c, &p, exact, 3, 60);
        });
    }
    // larger graphs: gradient only, default solver
    ctx.family("pose-graph/large", 4, 80, |rng, c| {
        let kd = *rng.pick(&[1usize, 3]);
        let n = rng.int(60, 120);
        let p = pose_graph(rng, kd, n, 0.01);
        c.desc(format!("{} {} poses", n, Any::KINDS[kd]));
        c.sig((n, kd));
        let start = p.error(&p.init);
        for algo in [Algo::GN, Algo::LM] {
            let Some(r) = solve(rng, c, &p, algo, 0, true) else { return };
            let e = p.error(&r.model);
            if e > start * 0.9 && start > 1.0 {
                c.count("large: no progress", 1);
            }
            let g = grad_norm(&p, &r.model);
            let g0 = grad_norm(&p, &p.init);
            c.check(g <= 1e-4 * (g0 + 1.0), "large pose graph converges", || format!("{algo:?}: gradient {g0:e} -> {g:e}, error {start:e} -> {e:e}"));
            c.check(e <= start * (1.0 + 1e-9), "never worse than the start", || format!("{e:e} > {start:e}"));
        }
    });
    // convex problems, any start: vectors with convex kernels
    ctx.family("convex", 300, 15000, |rng, c| {
        let mut o = opts(rng.int(1, 8), rng.below(10));
        o.kinds = vec![4, 5, 6, 7, 8, 9, 10];
        o.meas = *rng.pick(&[0.0, 0.1, 3.0]);
        o.disp = *rng.pick(&[0.1, 10.0, 1e3]);
        o.kernels = false;
        let mut p = Problem::rand(rng, &o);
        let mut robust = false;
        for f in &mut p.facs {
            if rng.coin(0.4) {
                f.ker = KerS { name: *rng.pick(&["Huber", "Fair", "L2", "User"]), p: if rng.coin(0.5) { None } else { Some(rng.logu(0.5, 5.0)) } };
                robust |= f.ker.name != "L2";
            }
        }
        c.desc(p.describe());
        c.sig((p.init.len(), p.facs.len(), (o.disp * 10.0) as u32, (o.meas * 10.0) as u32, robust));
        let start = p.error(&p.init);
        let algo = *rng.pick(&[Algo::GN, Algo::LM]);
        let solver = rng.below(3);
        let Some(r) = solve(rng, c, &p, algo, solver, false) else { return };
        let e = p.error(&r.model);
        c.check(e <= start * (1.0 + 1e-9) + 1e-9, "never worse than a convex problem's start", || format!("{algo:?}: {start:e} -> {e:e}"));
        if !robust {
            // quadratic: the minimum, whatever the start
            let (h, _) = model_normal(&p, &r.model);
            let g = grad_norm(&p, &r.model);
            c.check(g <= 1e-6 * h.max_abs() * (size(&p.init) + o.disp) + if algo == Algo::LM { 0.02 * h.max_abs().sqrt() } else { 0.0 }, "quadratic problem solved", || format!("gradient {g:e}"));
        }
    });
    // an empty graph and a graph already at its minimum stay put
    ctx.family("fixed-points", 50, 1000, |rng, c| {
        let mut o = opts(rng.int(1, 5), 2);
        o.meas = 0.0;
        o.disp = 0.0;
        o.kernels = false;
        let p = Problem::rand(rng, &o);
        c.desc(p.describe());
        c.sig((p.init.len(), p.facs.len()));
        for algo in [Algo::GN, Algo::LM] {
            let Some(r) = solve(rng, c, &p, algo, 0, false) else { return };
            c.close("start at the truth stays", diff(&r.model, &p.truth), 0.0, 1e-9 * size(&p.truth));
            let mut e = make(algo, 0, Graph::new());
            let vals = to_values(&p.init, &p.order(rng));
            match e.optimize(vals) {
                Ok(v) => match read_back(&v, &p.init) {
                    Some(m) => {
                        c.close("empty graph leaves values", diff(&m, &p.init), 0.0, 0.0);
                    }
                    None => c.fail("empty graph leaves values", "shape"),
                },
                Err(x) => c.fail("empty graph leaves values", format!("{x:?}")),
            }
        }
    });
    ctx.finish(
        "one evaluation = one well-posed problem solved in several configurations (optimizer x solver x renamed keys x permuted factors and insertion): gradient of an independent error model at the result, distance to an independent minimiser, ground truth for exact measurements, error not above the start; events = optimize calls; distinct = type multisets and sizes",
        &["problems on which the independent Gauss-Newton does not settle monotonically, or with cond above 1e9, are not judged", "tolerances scale with the curvature: an error decrease of 1e-13 relative is undetectable"],
    );
}

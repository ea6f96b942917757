//! Optimizers behind one interface, step recording, and the dense reference of a step.
use crate::gen::*;
use crate::la::{self, M};
use crate::vars::fv;
use factrs::containers::{Factor, Graph, Values};
use factrs::linear::*;
use factrs::optimizers::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Log = Rc<RefCell<Vec<(f64, Values)>>>;
pub struct Rec(pub Log);
impl OptObserver for Rec {
    type Input = Values;
    fn on_step(&self, values: &Values, time: f64) {
        self.0.borrow_mut().push((time, values.clone()));
    }
}
/// The same variables in a container filled in another order (its own hash seed, so its own iteration order).
pub fn rebuilt(rng: &mut crate::rng::Rng, v: &Values) -> Values {
    let mut all: Vec<_> = v.iter().map(|(k, b)| (*k, b.clone())).collect();
    rng.shuffle(&mut all);
    let mut out = Values::new();
    for (k, b) in all {
        out.entry(k).or_insert(b);
    }
    out
}
pub trait Opt {
    fn params(&mut self) -> &mut OptParams;
    /// lambda_min, lambda_max, lambda_factor, diagonal_damping (ignored by Gauss-Newton)
    fn set_leven(&mut self, min: f64, max: f64, factor: f64, diag: bool);
    fn observe(&mut self) -> Log;
    fn add(&mut self, r: Rec);
    fn optimize(&mut self, v: Values) -> OptResult<Values>;
    fn init(&mut self, v: &Values);
    fn step(&mut self, v: Values, i: usize) -> OptResult<Values>;
    fn error(&self, v: &Values) -> f64;
    fn graph(&self) -> &Graph;
}
macro_rules! imp {
    ($t:ident, $p:ident, $lev:expr) => {
        impl<S: LinearSolver> Opt for $t<S> {
            fn params(&mut self) -> &mut OptParams {
                &mut self.$p
            }
            #[allow(unused_variables)]
            fn set_leven(&mut self, min: f64, max: f64, factor: f64, diag: bool) {
                let f: fn(&mut Self, f64, f64, f64, bool) = $lev;
                f(self, min, max, factor, diag)
            }
            fn observe(&mut self) -> Log {
                let l = Log::default();
                self.observers.add(Rec(l.clone()));
                l
            }
            fn add(&mut self, r: Rec) {
                self.observers.add(r);
            }
            fn optimize(&mut self, v: Values) -> OptResult<Values> {
                Optimizer::optimize(self, v)
            }
            fn init(&mut self, v: &Values) {
                Optimizer::init(self, v)
            }
            fn step(&mut self, v: Values, i: usize) -> OptResult<Values> {
                Optimizer::step(self, v, i)
            }
            fn error(&self, v: &Values) -> f64 {
                Optimizer::error(self, v) as f64
            }
            fn graph(&self) -> &Graph {
                GraphOptimizer::graph(self)
            }
        }
    };
}
imp!(GaussNewton, params, |_, _, _, _, _| {});
imp!(LevenMarquardt, params_base, |s, a, b, f, d| {
    s.params_leven.lambda_min = a as _;
    s.params_leven.lambda_max = b as _;
    s.params_leven.lambda_factor = f as _;
    s.params_leven.diagonal_damping = d;
});

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Algo {
    GN,
    LM,
}
pub const SOLVERS: [&str; 3] = ["Cholesky", "QR", "LU"];
pub fn make(a: Algo, solver: usize, g: Graph) -> Box<dyn Opt> {
    match (a, solver) {
        (Algo::GN, 0) => Box::new(GaussNewton::<CholeskySolver>::new(g)),
        (Algo::GN, 1) => Box::new(GaussNewton::<QRSolver>::new(g)),
        (Algo::GN, _) => Box::new(GaussNewton::<LUSolver>::new(g)),
        (Algo::LM, 0) => Box::new(LevenMarquardt::<CholeskySolver>::new(g)),
        (Algo::LM, 1) => Box::new(LevenMarquardt::<QRSolver>::new(g)),
        (Algo::LM, _) => Box::new(LevenMarquardt::<LUSolver>::new(g)),
    }
}
/// dense linearisation of individually linearised factors; columns in key order
pub struct Sys {
    pub a: M,
    pub b: Vec<f64>,
    pub slots: BTreeMap<u64, (usize, usize)>,
}
pub fn slots(model: &Model) -> BTreeMap<u64, (usize, usize)> {
    let mut at = 0;
    model
        .iter()
        .map(|(k, v)| {
            let n = v.dim();
            at += n;
            (*k, (at - n, n))
        })
        .collect()
}
pub fn system(facs: &[Factor], model: &Model, vals: &Values) -> Sys {
    let slots = slots(model);
    let n: usize = slots.values().map(|s| s.1).sum();
    let m: usize = facs.iter().map(|f| f.dim_out()).sum();
    let mut a = M::zeros(m, n);
    let mut b = vec![];
    for f in facs {
        let l = f.linearize(vals);
        let fa = crate::tom!(l.a.mat());
        let (row, mut col) = (b.len(), 0);
        for k in f.keys() {
            let (i, w) = slots[&k.0];
            a.add_block(row, i, &fa.block(0, col, fa.r, w));
            col += w;
        }
        b.extend(fv(&l.b));
    }
    Sys { a, b, slots }
}
/// the same system from the independent model alone: (information, negative gradient)
pub fn model_normal(p: &Problem, m: &Model) -> (M, Vec<f64>) {
    let sl = slots(m);
    let n: usize = sl.values().map(|s| s.1).sum();
    let mut h = M::zeros(n, n);
    let mut g = vec![0.0; n];
    for f in &p.facs {
        let j = f.jac(m);
        let r = f.resid(m);
        let inf = f.noise.inf(r.len());
        let w = f.ker.weight(f.d2(m));
        let mut cols = vec![];
        for k in &f.keys {
            let (i, d) = sl[k];
            cols.extend(i..i + d);
        }
        let hh = j.t().mul(&inf).mul(&j);
        let gg = j.t().mv(&inf.mv(&r));
        for (x, cx) in cols.iter().enumerate() {
            g[*cx] -= w * gg[x];
            for (y, cy) in cols.iter().enumerate() {
                h[(*cx, *cy)] += w * hh[(x, y)];
            }
        }
    }
    (h, g)
}
impl Sys {
    pub fn normal(&self) -> (M, Vec<f64>) {
        (self.a.t().mul(&self.a), self.a.t().mv(&self.b))
    }
    pub fn lin_error(&self, dx: &[f64]) -> f64 {
        let r = la::sub(&self.a.mv(dx), &self.b);
        0.5 * la::dot(&r, &r)
    }
}
/// crude condition number
pub fn cond(h: &M) -> f64 {
    match h.inv() {
        Some(i) => h.max_abs() * i.max_abs() * h.r as f64,
        None => f64::INFINITY,
    }
}
/// every variable moved by its own part of dx (the library's oplus on a single variable)
pub fn moved(m: &Model, dx: &[f64]) -> Model {
    let sl = slots(m);
    m.iter().map(|(k, v)| (*k, v.oplus(&dx[sl[k].0..sl[k].0 + sl[k].1]))).collect()
}
/// the same by the reference exponential, as matrices
pub fn moved_ref(m: &Model, dx: &[f64]) -> BTreeMap<u64, M> {
    let sl = slots(m);
    m.iter().map(|(k, v)| (*k, v.ref_oplus(&dx[sl[k].0..sl[k].0 + sl[k].1]))).collect()
}
/// largest difference between two models' matrices
pub fn diff(a: &Model, b: &Model) -> f64 {
    a.iter().map(|(k, v)| v.mat().sub(&b[k].mat()).max_abs()).fold(0.0, f64::max)
}
pub fn size(a: &Model) -> f64 {
    a.values().map(|v| v.mat().max_abs()).fold(1.0, f64::max)
}
/// problem options shared by the optimizer checks
pub fn opts(vars: usize, extra: usize) -> Opts {
    Opts { vars, extra, kinds: all_kinds(), meas: 0.05, disp: 0.2, sig: (0.3, 3.0), kernels: true }
}
pub fn singles(p: &Problem) -> Vec<Factor> {
    p.facs.iter().map(|f| f.build()).collect()
}

/// tangent vector from every variable of `before` to its counterpart, by the reference logarithm
pub fn taken(before: &Model, after: &Model) -> Option<Vec<f64>> {
    let mut dx = vec![];
    for (k, v) in before {
        let (a, b) = (v.mat().inv()?, after[k].mat());
        let rel = if cfg!(feature = "left") { b.mul(&a) } else { a.mul(&b) };
        dx.extend(v.ref_log(&rel));
    }
    Some(dx)
}
/// |J'(J dx - b) + lambda D dx| (largest entry) and the sizes |H|, |J'||b| it is to be compared with, without a dense matrix
pub fn optimality(facs: &[Factor], model: &Model, vals: &Values, dx: &[f64], lambda: f64, diag: bool) -> (f64, f64, f64) {
    let sl = slots(model);
    let n = dx.len();
    let (mut g, mut d, mut hrow, mut jb) = (vec![0.0; n], vec![0.0; n], vec![0.0; n], vec![0.0; n]);
    for f in facs {
        let l = f.linearize(vals);
        let a = crate::tom!(l.a.mat());
        let b = fv(&l.b);
        let cols: Vec<usize> = f.keys().iter().flat_map(|k| sl[&k.0].0..sl[&k.0].0 + sl[&k.0].1).collect();
        for i in 0..a.r {
            let r: f64 = (0..a.c).map(|j| a[(i, j)] * dx[cols[j]]).sum::<f64>() - b[i];
            let ra: f64 = (0..a.c).map(|j| a[(i, j)].abs()).sum();
            for j in 0..a.c {
                g[cols[j]] += a[(i, j)] * r;
                d[cols[j]] += a[(i, j)] * a[(i, j)];
                hrow[cols[j]] += a[(i, j)].abs() * ra;
                jb[cols[j]] += (a[(i, j)] * b[i]).abs();
            }
        }
    }
    for i in 0..n {
        let dd = lambda * if diag { d[i] } else { 1.0 };
        g[i] += dd * dx[i];
        hrow[i] += dd;
    }
    let m = |v: &[f64]| v.iter().fold(0.0f64, |m, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) });
    (m(&g), m(&hrow), m(&jb))
}
/// one recorded step of a large problem: `after` must satisfy the (damped) normal equations at `before`
pub fn judge_large(c: &mut crate::Case, facs: &[Factor], before: &Model, vals: &Values, after: &Values, lambda: f64, diag: bool) -> Option<Model> {
    c.event();
    let Some(got) = read_back(after, before) else {
        c.fail("large: variables kept", "a variable disappeared or changed type");
        return None;
    };
    let dx = taken(before, &got)?;
    let dn = dx.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if dn > 1.5 {
        c.count("long steps", 1);
        return None;
    }
    let (g, h, jb) = optimality(facs, before, vals, &dx, lambda, diag);
    let sz = size(before) + size(&got);
    let tol = 1e-8 * h * dn + 1e-11 * h * sz + 1e-9 * jb;
    c.check(g <= tol, "large: the step solves the normal equations", || format!("residual {g:e} > {tol:e} (|H| {h:e}, |dx| {dn:e}, {} variables)", before.len()));
    Some(got)
}
/// the same vector problem in other units
pub fn rescale(p: &mut Problem, s: f64) {
    let go = |v: &crate::mixed::Any| {
        let t = v.ref_log(&v.mat());
        v.compose(&v.inverse()).oplus(&la::scale(&t, s))
    };
    p.truth = p.truth.iter().map(|(k, v)| (*k, go(v))).collect();
    p.init = p.init.iter().map(|(k, v)| (*k, go(v))).collect();
    for f in &mut p.facs {
        f.z = go(&f.z);
    }
}

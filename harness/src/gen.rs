//! Descriptions of factors and problems that can be turned into the library's objects and evaluated independently.
use crate::ad::{move_by, numjac, P};
use crate::kernels::{Spec, SPECS};
use crate::la::{self, M};
use crate::mixed::{rand_key, Any};
use crate::rng::Rng;
use crate::vars::d;
use factrs::containers::{Factor, FactorBuilder, Graph, Key, Values};
use factrs::linalg::{Matrix, MatrixX, Vector, VectorX};
use factrs::noise::{GaussianNoise, NoiseModel, UnitNoise};
use factrs::robust::*;
use std::collections::BTreeMap;
use crate::users::{kinds_of, rand_user, UserRes};
use std::fmt;
use std::sync::Arc;

/// A boxed residual builder, erased over its output dimension.
pub struct BuilderBox(Box<dyn ErasedBuilder>);
trait ErasedBuilder {
    fn finish(self: Box<Self>, noise: &NoiseS, ker: &KerS, ker_first: bool) -> Factor;
}
struct B<const N: usize>(FactorBuilder<N>);
impl<const N: usize> ErasedBuilder for B<N> {
    fn finish(self: Box<Self>, noise: &NoiseS, ker: &KerS, ker_first: bool) -> Factor {
        let mut b = self.0;
        if ker_first {
            b = add_ker(b, ker);
            b = add_noise(b, noise);
        } else {
            b = add_noise(b, noise);
            b = add_ker(b, ker);
        }
        b.build()
    }
}
fn add_noise<const N: usize>(b: FactorBuilder<N>, noise: &NoiseS) -> FactorBuilder<N> {
    match noise {
        NoiseS::Default => b,
        NoiseS::Unit => b.noise(UnitNoise::<N>),
        NoiseS::Sigmas(v) => b.noise(GaussianNoise::<N>::from_vec_sigma(Vector::<N>::from_fn(|i, _| d(v[i])).as_view())),
        NoiseS::Inf(m) => b.noise(GaussianNoise::<N>::from_matrix_inf(Matrix::<N, N>::from_fn(|i, j| d(m[(i, j)])).as_view())),
        NoiseS::Cov(m) => b.noise(GaussianNoise::<N>::from_matrix_cov(Matrix::<N, N>::from_fn(|i, j| d(m[(i, j)])).as_view())),
        NoiseS::User(m) => b.noise(UserNoise::<N>(m.clone())),
    }
}
fn add_ker<const N: usize>(b: FactorBuilder<N>, k: &KerS) -> FactorBuilder<N> {
    let p = k.p.unwrap_or(0.0);
    match (k.name, k.p) {
        ("none", _) => b,
        ("L2", _) => b.robust(L2),
        ("L1", _) => b.robust(L1),
        ("User", _) => b.robust(UserKernel),
        ("Huber", None) => b.robust(Huber::default()),
        ("Huber", _) => b.robust(Huber::new(d(p))),
        ("Fair", None) => b.robust(Fair::default()),
        ("Fair", _) => b.robust(Fair::new(d(p))),
        ("Cauchy", None) => b.robust(Cauchy::default()),
        ("Cauchy", _) => b.robust(Cauchy::new(d(p))),
        ("GemanMcClure", None) => b.robust(GemanMcClure::default()),
        ("GemanMcClure", _) => b.robust(GemanMcClure::new(d(p))),
        ("Welsch", None) => b.robust(Welsch::default()),
        ("Welsch", _) => b.robust(Welsch::new(d(p))),
        ("Tukey", None) => b.robust(Tukey::default()),
        ("Tukey", _) => b.robust(Tukey::new(d(p))),
        _ => unreachable!(),
    }
}
impl BuilderBox {
    pub fn new<const N: usize>(b: FactorBuilder<N>) -> Self {
        BuilderBox(Box::new(B(b)))
    }
    pub fn finish(self, noise: &NoiseS, ker: &KerS, ker_first: bool) -> Factor {
        self.0.finish(noise, ker, ker_first)
    }
}

/// A user-defined noise model: multiplication by an arbitrary (here non-triangular) square root of information.
#[derive(Clone, Debug)]
pub struct UserNoise<const N: usize>(pub M);
impl<const N: usize> fmt::Display for UserNoise<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "UserNoise")
    }
}
#[factrs::mark]
impl<const N: usize> NoiseModel for UserNoise<N> {
    type Dim = factrs::linalg::Const<N>;
    fn whiten_vec(&self, v: VectorX) -> VectorX {
        MatrixX::from_fn(N, N, |i, j| d(self.0[(i, j)])) * v
    }
    fn whiten_mat(&self, m: MatrixX) -> MatrixX {
        MatrixX::from_fn(N, N, |i, j| d(self.0[(i, j)])) * m
    }
}
/// A user-defined kernel: loss sqrt(1 + d^2) - 1 (pseudo-Huber).
#[derive(Clone, Debug)]
pub struct UserKernel;
#[factrs::mark]
impl RobustCost for UserKernel {
    fn loss(&self, d2: factrs::dtype) -> factrs::dtype {
        (1.0 + d2).sqrt() - 1.0
    }
    fn weight(&self, d2: factrs::dtype) -> factrs::dtype {
        1.0 / (1.0 + d2).sqrt()
    }
}
const USER_SPEC: Spec =
    Spec { name: "User", loss: |x, _| (1.0 + x * x).sqrt() - 1.0, weight: |x, _| 1.0 / (1.0 + x * x).sqrt(), default: 1.0 };

#[derive(Clone, Debug)]
pub enum NoiseS {
    Default,
    Unit,
    Sigmas(Vec<f64>),
    Inf(M),
    Cov(M),
    User(M),
}
impl NoiseS {
    pub fn rand(rng: &mut Rng, n: usize, lo: f64, hi: f64) -> NoiseS {
        match rng.below(6) {
            0 => NoiseS::Default,
            1 => NoiseS::Unit,
            2 => NoiseS::Sigmas((0..n).map(|_| rng.logu(lo, hi)).collect()),
            3 => NoiseS::Inf(spd(rng, n, 1.0 / (hi * hi), 1.0 / (lo * lo))),
            4 => {
                // the 4x4 inverse of nalgebra loses accuracy with the cube of the condition number
                let (l, h) = if n == 4 { (lo.max((lo * hi).sqrt() / 3.0), hi.min((lo * hi).sqrt() * 3.0)) } else { (lo, hi) };
                NoiseS::Cov(spd(rng, n, l * l, h * h))
            }
            _ => {
                let s = (lo * hi).sqrt();
                let mut m = M::from_fn(n, n, |_, _| rng.normal() * 0.3 / s);
                for i in 0..n {
                    m[(i, i)] += rng.sign() * 2.0 / s;
                }
                NoiseS::User(m)
            }
        }
    }
    /// the information matrix this noise stands for
    pub fn inf(&self, n: usize) -> M {
        match self {
            NoiseS::Default | NoiseS::Unit => M::eye(n),
            NoiseS::Sigmas(v) => M::diag(&v.iter().map(|x| 1.0 / (x * x)).collect::<Vec<_>>()),
            NoiseS::Inf(m) => m.clone(),
            NoiseS::Cov(m) => m.inv().expect("cov"),
            NoiseS::User(m) => m.t().mul(m),
        }
    }
}
/// random symmetric positive definite matrix with eigenvalues in [lo, hi]
pub fn spd(rng: &mut Rng, n: usize, lo: f64, hi: f64) -> M {
    let mut cols: Vec<Vec<f64>> = vec![];
    while cols.len() < n {
        let mut v = rng.nvec(n, 1.0);
        for q in &cols {
            let p = la::dot(q, &v);
            v = la::sub(&v, &la::scale(q, p));
        }
        let nn = la::norm(&v);
        if nn > 0.1 {
            cols.push(la::scale(&v, 1.0 / nn));
        }
    }
    let q = M::from_fn(n, n, |i, j| cols[j][i]);
    let ev: Vec<f64> = (0..n).map(|_| rng.logu(lo, hi)).collect();
    let m = q.mul(&M::diag(&ev)).mul(&q.t());
    m.add(&m.t()).scale(0.5)
}

#[derive(Clone, Debug)]
pub struct KerS {
    pub name: &'static str,
    pub p: Option<f64>,
}
impl KerS {
    pub const NONE: KerS = KerS { name: "none", p: None };
    pub fn rand(rng: &mut Rng) -> KerS {
        let name = *rng.pick(&["none", "none", "L2", "L1", "Huber", "Fair", "Cauchy", "GemanMcClure", "Welsch", "Tukey", "User"]);
        let p = if rng.coin(0.4) { None } else { Some(rng.logu(0.3, 30.0)) };
        KerS { name, p }
    }
    /// kernels whose weight stays positive and bounded (optimisation-friendly)
    pub fn rand_convexish(rng: &mut Rng) -> KerS {
        let name = *rng.pick(&["none", "none", "none", "L2", "Huber", "Fair", "Cauchy", "User"]);
        let p = if rng.coin(0.4) { None } else { Some(rng.logu(1.0, 10.0)) };
        KerS { name, p }
    }
    fn spec(&self) -> (&'static Spec, f64) {
        static USER: Spec = USER_SPEC;
        static ALL: [Spec; 8] = SPECS;
        let n = if self.name == "none" { "L2" } else { self.name };
        let s = if n == "User" { &USER } else { ALL.iter().find(|s| s.name == n).unwrap() };
        (s, self.p.unwrap_or(s.default))
    }
    pub fn loss(&self, d2: f64) -> f64 {
        let (s, p) = self.spec();
        (s.loss)(d2.sqrt(), p)
    }
    pub fn weight(&self, d2: f64) -> f64 {
        let (s, p) = self.spec();
        if s.name == "L1" && d2 <= 1e-3 {
            return f64::NAN; // unspecified: the library caps it
        }
        (s.weight)(d2.sqrt(), p)
    }
}

/// One factor: prior or between on variables of one type.
#[derive(Clone)]
pub struct FacS {
    pub z: Any,
    pub keys: Vec<u64>,
    pub noise: NoiseS,
    pub ker: KerS,
    pub ker_first: bool,
    /// a user-defined residual over keys, instead of prior/between of z
    pub user: Option<Arc<dyn UserRes>>,
}
pub type Model = BTreeMap<u64, Any>;

impl FacS {
    pub fn build(&self) -> Factor {
        if let Some(u) = &self.user {
            return u.builder(&self.keys).finish(&self.noise, &self.ker, self.ker_first);
        }
        let b = if self.keys.len() == 1 { self.z.prior()(self.keys[0]) } else { self.z.between()(self.keys[0], self.keys[1]) };
        b.finish(&self.noise, &self.ker, self.ker_first)
    }
    pub fn dim(&self) -> usize {
        match &self.user {
            Some(u) => u.dim(),
            None => self.z.dim(),
        }
    }
    /// accuracy of the factor's Jacobian
    pub fn jtol(&self) -> f64 {
        self.user.as_ref().map(|u| u.jtol()).unwrap_or(3e-6)
    }
    /// matrix-level residual argument
    fn rel(&self, m: &[M]) -> M {
        let (a, b) = if m.len() == 1 { (self.z.mat(), &m[0]) } else { (m[0].mul(&self.z.mat()), &m[1]) };
        let bi = b.inv().expect("invertible");
        if cfg!(feature = "left") {
            a.mul(&bi)
        } else {
            bi.mul(&a)
        }
    }
    pub fn resid_m(&self, m: &[M]) -> Vec<f64> {
        match &self.user {
            Some(u) => u.value(m),
            None => self.z.ref_log(&self.rel(m)),
        }
    }
    fn mats(&self, model: &Model) -> Vec<M> {
        self.keys.iter().map(|k| model[k].mat()).collect()
    }
    pub fn resid(&self, model: &Model) -> Vec<f64> {
        self.resid_m(&self.mats(model))
    }
    /// rotation angle of the residual (distance to the cut locus)
    pub fn angle(&self, model: &Model) -> f64 {
        if self.user.is_some() {
            return 0.0;
        }
        la::norm(&self.resid(model)[..self.z.rot()])
    }
    pub fn jac(&self, model: &Model) -> M {
        let ps: Vec<P> = self.keys.iter().map(|k| model[k].arg()).collect();
        if let Some(u) = &self.user {
            return u.reference(&ps).1;
        }
        numjac(&ps, &|m: &[M]| self.resid_m(m))
    }
    pub fn d2(&self, model: &Model) -> f64 {
        let r = self.resid(model);
        la::dot(&r, &self.noise.inf(r.len()).mv(&r))
    }
    pub fn error(&self, model: &Model) -> f64 {
        self.ker.loss(self.d2(model))
    }
    pub fn describe(&self) -> String {
        if let Some(u) = &self.user {
            return format!("{}{:?} noise={:?} ker={:?}", u.name(), self.keys, self.noise, self.ker);
        }
        let t = if self.keys.len() == 1 { "prior" } else { "between" };
        format!("{t}<{}>{:?} z={:?} noise={:?} ker={:?}", self.z.kind(), self.keys, self.z.mat(), self.noise, self.ker)
    }
}

#[derive(Clone)]
pub struct Problem {
    pub truth: Model,
    pub init: Model,
    pub facs: Vec<FacS>,
}
#[derive(Clone)]
pub struct Opts {
    pub vars: usize,
    pub extra: usize,
    pub kinds: Vec<usize>,
    /// measurement noise (tangent units)
    pub meas: f64,
    /// initial displacement (tangent units)
    pub disp: f64,
    pub sig: (f64, f64),
    pub kernels: bool,
}
pub fn to_values(m: &Model, order: &[u64]) -> Values {
    let mut v = Values::new();
    for k in order {
        m[k].insert(&mut v, *k);
    }
    v
}
pub fn read_back(vals: &Values, shape: &Model) -> Option<Model> {
    let mut out = Model::new();
    if vals.len() != shape.len() {
        return None;
    }
    for (k, v) in shape {
        out.insert(*k, v.get(vals, *k)?);
    }
    Some(out)
}
/// name one variable in two places of the factor, if two places take the same type
pub fn name_twice(rng: &mut Rng, f: &mut FacS, model: &Model) -> bool {
    let n = f.keys.len();
    let pairs: Vec<(usize, usize)> =
        (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| i != j && model[&f.keys[*i]].kind() == model[&f.keys[*j]].kind()).collect();
    if pairs.is_empty() {
        return false;
    }
    let (i, j) = pairs[rng.below(pairs.len())];
    f.keys[j] = f.keys[i];
    true
}
/// A user factor of kind `which` over variables of the model (None if it lacks some type).
pub fn user_factor(rng: &mut Rng, which: usize, m: &Model, sig: (f64, f64)) -> Option<FacS> {
    let mut keys = vec![];
    for kd in kinds_of(which) {
        let name = Any::KINDS[kd];
        let cand: Vec<u64> = m.iter().filter(|(k, v)| v.kind() == name && !keys.contains(*k)).map(|(k, _)| *k).collect();
        if cand.is_empty() {
            return None;
        }
        keys.push(cand[rng.below(cand.len())]);
    }
    let scale = keys.iter().map(|k| m[k].mat().max_abs()).fold(1.0, f64::max);
    let u = rand_user(rng, which, scale);
    let noise = NoiseS::rand(rng, u.dim(), sig.0, sig.1);
    let ker_first = rng.coin(0.5);
    Some(FacS { z: m[&keys[0]].clone(), keys, noise, ker: KerS::NONE, ker_first, user: Some(u) })
}
/// distinct keys outside the model
pub fn fresh(rng: &mut Rng, m: &Model) -> u64 {
    loop {
        let k = rand_key(rng);
        if !m.contains_key(&k) {
            return k;
        }
    }
}
impl Problem {
    /// A well-posed problem: every connected component (variables of one type) is anchored by a prior and spanned by betweens.
    pub fn rand(rng: &mut Rng, o: &Opts) -> Problem {
        let mut truth = Model::new();
        let mut comps: Vec<Vec<u64>> = vec![];
        let mut left = o.vars;
        while left > 0 {
            let kind = *rng.pick(&o.kinds);
            let n = 1 + rng.below(left);
            let mut c = vec![];
            while c.len() < n {
                let k = rand_key(rng);
                if truth.contains_key(&k) {
                    continue;
                }
                truth.insert(k, moderate(rng, kind));
                c.push(k);
            }
            left -= n;
            comps.push(c);
        }
        let mut facs = vec![];
        let mut add = |rng: &mut Rng, keys: Vec<u64>, truth: &Model| {
            let exact = if keys.len() == 1 { truth[&keys[0]].clone() } else { truth[&keys[0]].inverse().compose(&truth[&keys[1]]) };
            let t = exact.small_tangent(rng, 1.0);
            let z = if o.meas > 0.0 { exact.oplus(&la::scale(&t, o.meas)) } else { exact };
            let noise = NoiseS::rand(rng, z.dim(), o.sig.0, o.sig.1);
            let ker = if o.kernels { KerS::rand_convexish(rng) } else { KerS::NONE };
            let ker_first = rng.coin(0.5);
            facs.push(FacS { z, keys, noise, ker, ker_first, user: None });
        };
        for c in &comps {
            let a = c[rng.below(c.len())];
            add(rng, vec![a], &truth);
            let mut seen = vec![c[0]];
            for k in &c[1..] {
                let p = seen[rng.below(seen.len())];
                let pair = if rng.coin(0.5) { vec![p, *k] } else { vec![*k, p] };
                add(rng, pair, &truth);
                seen.push(*k);
            }
        }
        for _ in 0..o.extra {
            let c = &comps[rng.below(comps.len())];
            let a = c[rng.below(c.len())];
            let b = c[rng.below(c.len())];
            if a == b {
                add(rng, vec![a], &truth);
            } else {
                add(rng, vec![a, b], &truth);
            }
        }
        rng.shuffle(&mut facs);
        // one thing measured many times in a row
        if rng.coin(0.12) {
            let at = rng.below(facs.len());
            let f = facs[at].clone();
            for _ in 0..rng.int(4, 30) {
                let mut f = f.clone();
                let t = f.z.small_tangent(rng, 1.0);
                if o.meas > 0.0 {
                    f.z = f.z.oplus(&la::scale(&t, o.meas));
                }
                facs.insert(at + 1, f);
            }
        }
        let mut init = Model::new();
        for (k, v) in &truth {
            let t = v.small_tangent(rng, 1.0);
            init.insert(*k, if o.disp > 0.0 { v.oplus(&la::scale(&t, o.disp)) } else { v.clone() });
        }
        Problem { truth, init, facs }
    }
    pub fn graph(&self) -> Graph {
        let mut g = Graph::new();
        for f in &self.facs {
            g.add_factor(f.build());
        }
        g
    }
    pub fn order(&self, rng: &mut Rng) -> Vec<u64> {
        let mut v: Vec<u64> = self.truth.keys().cloned().collect();
        rng.shuffle(&mut v);
        v
    }
    pub fn error(&self, m: &Model) -> f64 {
        self.facs.iter().map(|f| f.error(m)).sum()
    }
    pub fn max_angle(&self, m: &Model) -> f64 {
        self.facs.iter().map(|f| f.angle(m)).fold(0.0, f64::max)
    }
    /// gradient of the total error along each variable's tangent, from the reference model
    pub fn gradient(&self, m: &Model) -> BTreeMap<u64, Vec<f64>> {
        let mut g: BTreeMap<u64, Vec<f64>> = m.iter().map(|(k, v)| (*k, vec![0.0; v.dim()])).collect();
        for f in &self.facs {
            let j = f.jac(m);
            let r = f.resid(m);
            let inf = f.noise.inf(r.len());
            let w = f.ker.weight(f.d2(m));
            let gr = j.t().mv(&inf.mv(&r));
            let mut c = 0;
            for k in &f.keys {
                let n = m[k].dim();
                for i in 0..n {
                    g.get_mut(k).unwrap()[i] += w * gr[c + i];
                }
                c += n;
            }
        }
        g
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.init {
            s += &format!("{k}:{}={:?}; ", v.kind(), v.mat());
        }
        for f in &self.facs {
            s += &f.describe();
            s += "; ";
        }
        s
    }
}
/// a variable of moderate size (angles over the whole circle, translations of a few units)
pub fn moderate(rng: &mut Rng, kind: usize) -> Any {
    loop {
        let v = Any::rand_kind(rng, kind);
        if v.mat().max_abs() < 20.0 {
            return v;
        }
    }
}
pub fn all_kinds() -> Vec<usize> {
    (0..Any::KINDS.len()).collect()
}
/// moves every variable of a model by its own block, with the reference exponential (matrix level)
pub fn ref_step(m: &Model, dx: &BTreeMap<u64, Vec<f64>>) -> BTreeMap<u64, M> {
    m.iter().map(|(k, v)| (*k, dx.get(k).map(|x| v.ref_oplus(x)).unwrap_or_else(|| v.mat()))).collect()
}
pub fn matrix_move(m: &M, e: &M) -> M {
    move_by(m, e)
}
pub fn key(k: u64) -> Key {
    Key(k)
}

//! C29: serialised values, factors and graphs come back as equivalent ones.
//! Random values and graphs over every variable, residual, noise and kernel type of the library (and user-defined ones)
//! are written and read back through several routes; what comes back is compared by what it does: stored components,
//! keys, errors, linearisations, optimisation results.
#[path = "../../../harness/src/la.rs"]
#[allow(dead_code)]
mod la;
#[path = "../../../harness/src/rep.rs"]
#[allow(dead_code)]
mod rep;
#[path = "../../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;

use factrs::containers::{Factor, FactorBuilder, Graph, Key, Values};
use factrs::linalg::{Const, ForwardProp, Matrix, MatrixX, Numeric, Vector, VectorViewX, VectorX};
use factrs::noise::{GaussianNoise, NoiseModel, UnitNoise};
use factrs::optimizers::{LevenMarquardt, GaussNewton, GraphOptimizer, Optimizer};
use factrs::residuals::*;
use factrs::robust::*;
use factrs::traits::Variable;
use factrs::variables::*;
use rep::{quiet_catch, Case, Ctx};
use rng::Rng;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt;

// ---------------------------------------------------------------- user-defined pieces
#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct Mine<T: Numeric = f64> {
    a: T,
    b: T,
}
#[factrs::mark]
impl<T: Numeric> Variable<T> for Mine<T> {
    type Dim = Const<2>;
    type Alias<TT: Numeric> = Mine<TT>;
    fn identity() -> Self {
        Mine { a: T::from(0.0), b: T::from(0.0) }
    }
    fn inverse(&self) -> Self {
        Mine { a: -self.a, b: -self.b }
    }
    fn compose(&self, o: &Self) -> Self {
        Mine { a: self.a + o.a, b: self.b + o.b }
    }
    fn exp(d: VectorViewX<T>) -> Self {
        Mine { a: d[0], b: d[1] }
    }
    fn log(&self) -> VectorX<T> {
        VectorX::from_vec(vec![self.a, self.b])
    }
    fn dual_convert<TT: Numeric>(o: &Self::Alias<f64>) -> Self::Alias<TT> {
        Mine { a: TT::from(o.a), b: TT::from(o.b) }
    }
}
macro_rules! show {
    ($(($($g:tt)*) $t:ty),*) => {$(
        impl $($g)* fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, stringify!($t))
            }
        }
    )*};
}
show!((<T: Numeric>) Mine<T>, (<const N: usize>) Scaled<N>, () Range);
impl<T: Numeric> fmt::Debug for Mine<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Mine")
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Scaled<const N: usize> {
    s: f64,
}
#[factrs::mark]
impl<const N: usize> NoiseModel for Scaled<N> {
    type Dim = Const<N>;
    fn whiten_vec(&self, v: VectorX) -> VectorX {
        v * self.s
    }
    fn whiten_mat(&self, m: MatrixX) -> MatrixX {
        m * self.s
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Half {
    w: f64,
}
#[factrs::mark]
impl RobustCost for Half {
    fn loss(&self, d2: f64) -> f64 {
        self.w * d2 / 2.0
    }
    fn weight(&self, _: f64) -> f64 {
        self.w
    }
}
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
struct Range {
    dist: f64,
    tag_like: String,
}
#[factrs::mark]
impl Residual2 for Range {
    type DimIn = Const<6>;
    type DimOut = Const<1>;
    type V1 = SE2;
    type V2 = VectorVar3;
    type Differ = ForwardProp<Const<6>>;
    fn residual2<T: Numeric>(&self, p: SE2<T>, v: VectorVar3<T>) -> VectorX<T> {
        let (dx, dy) = (p.x() - v.0.x, p.y() - v.0.y);
        VectorX::from_vec(vec![dx * dx + dy * dy + v.0.z * T::from(0.5) - T::from(self.dist) + p.theta().sin()])
    }
}

// ---------------------------------------------------------------- variables: generation and exact read-out
trait Kind: VariableUmbrella + typetag::Tagged + Clone + 'static {
    const NAME: &'static str;
    fn rand(r: &mut Rng) -> Self;
    fn parts(&self) -> Vec<f64>;
}
fn num(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => r.int(0, 100) as f64,
        3 => r.normal() * 1e-9,
        4 => r.normal() * 1e12,
        5 => f64::from_bits((r.u64() & 0x800f_ffff_ffff_ffff) | ((r.int(700, 1300) as u64) << 52)),
        _ => r.normal() * 3.0,
    }
}
fn mild(r: &mut Rng) -> f64 {
    r.normal() * 2.0
}
impl<const N: usize> Kind for VectorVar<N> {
    const NAME: &'static str = "VectorVar";
    fn rand(r: &mut Rng) -> Self {
        VectorVar(Vector::<N>::from_fn(|_, _| num(r)))
    }
    fn parts(&self) -> Vec<f64> {
        self.0.iter().copied().collect()
    }
}
impl Kind for SO2 {
    const NAME: &'static str = "SO2";
    fn rand(r: &mut Rng) -> Self {
        SO2::from_theta(mild(r))
    }
    fn parts(&self) -> Vec<f64> {
        self.to_matrix().iter().copied().collect()
    }
}
impl Kind for SO3 {
    const NAME: &'static str = "SO3";
    fn rand(r: &mut Rng) -> Self {
        let q: Vec<f64> = (0..4).map(|_| r.normal()).collect();
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        SO3::from_xyzw(q[0] / n, q[1] / n, q[2] / n, q[3] / n)
    }
    fn parts(&self) -> Vec<f64> {
        vec![self.x(), self.y(), self.z(), self.w()]
    }
}
impl Kind for SE2 {
    const NAME: &'static str = "SE2";
    fn rand(r: &mut Rng) -> Self {
        SE2::new(mild(r), num(r), num(r))
    }
    fn parts(&self) -> Vec<f64> {
        let mut p = self.rot().parts();
        p.extend([self.x(), self.y()]);
        p
    }
}
impl Kind for SE3 {
    const NAME: &'static str = "SE3";
    fn rand(r: &mut Rng) -> Self {
        SE3::from_rot_trans(SO3::rand(r), Vector::<3>::from_fn(|_, _| num(r)))
    }
    fn parts(&self) -> Vec<f64> {
        let mut p = self.rot().parts();
        p.extend(self.xyz().iter());
        p
    }
}
impl Kind for ImuBias {
    const NAME: &'static str = "ImuBias";
    fn rand(r: &mut Rng) -> Self {
        ImuBias::new(Gyro::new(num(r), num(r), num(r)), Accel::new(num(r), num(r), num(r)))
    }
    fn parts(&self) -> Vec<f64> {
        self.gyro().iter().chain(self.accel().iter()).copied().collect()
    }
}
impl Kind for Mine {
    const NAME: &'static str = "Mine";
    fn rand(r: &mut Rng) -> Self {
        Mine { a: num(r), b: num(r) }
    }
    fn parts(&self) -> Vec<f64> {
        vec![self.a, self.b]
    }
}
/// runs $m!(type) for the kind with index $i
macro_rules! with_kind {
    ($i:expr, $m:ident) => {
        match $i {
            0 => $m!(VectorVar<1>),
            1 => $m!(VectorVar<2>),
            2 => $m!(VectorVar<3>),
            3 => $m!(VectorVar<4>),
            4 => $m!(VectorVar<5>),
            5 => $m!(VectorVar<6>),
            6 => $m!(SO2),
            7 => $m!(SO3),
            8 => $m!(SE2),
            9 => $m!(SE3),
            10 => $m!(ImuBias),
            11 => $m!(Mine),
            12 => $m!(VectorVar<7>),
            13 => $m!(VectorVar<11>),
            14 => $m!(VectorVar<20>),
            _ => unreachable!(),
        }
    };
}
const KINDS: usize = 15;

fn insert(v: &mut Values, k: u64, kind: usize, r: &mut Rng) {
    macro_rules! go {
        ($t:ty) => {{
            v.insert_unchecked(Key(k), <$t>::rand(r));
        }};
    }
    with_kind!(kind, go)
}
/// components of the variable at k if it has that kind
fn read(v: &Values, k: u64, kind: usize) -> Option<Vec<f64>> {
    macro_rules! go {
        ($t:ty) => {
            v.get_unchecked::<Key, $t>(Key(k)).map(|x| x.parts())
        };
    }
    with_kind!(kind, go)
}

// ---------------------------------------------------------------- routes
const ROUTES: usize = 4;
/// writes and reads back; the in-memory route keeps every number bit for bit
fn trip<T: Serialize + DeserializeOwned>(x: &T, route: usize) -> Result<T, String> {
    let e = |e: serde_json::Error| e.to_string();
    match route {
        0 => serde_json::from_value(serde_json::to_value(x).map_err(e)?).map_err(e),
        1 => serde_json::from_str(&serde_json::to_string(x).map_err(e)?).map_err(e),
        2 => {
            let mut b = Vec::new();
            serde_json::to_writer_pretty(&mut b, x).map_err(e)?;
            serde_json::from_reader(&b[..]).map_err(e)
        }
        _ => {
            // twice, mixing forms
            let y: T = serde_json::from_slice(&serde_json::to_vec(x).map_err(e)?).map_err(e)?;
            serde_json::from_value(serde_json::to_value(&y).map_err(e)?).map_err(e)
        }
    }
}
/// number comparison of a route: exact in memory, a few ulp of decimal reading otherwise
fn same(route: usize, a: f64, b: f64) -> bool {
    if route == 0 {
        a.to_bits() == b.to_bits()
    } else {
        (a - b).abs() <= 4.0 * f64::EPSILON * a.abs().max(b.abs()) + f64::MIN_POSITIVE
    }
}
fn same_v(route: usize, a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(route, *x, *y))
}

type Spec = Vec<(u64, usize)>;
fn rand_key(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.u64(),
        1 => u64::from(Key::from(factrs::symbols::X(r.below(1000) as u64)).0),
        2 => Key::from(factrs::symbols::L(r.u64() >> 40)).0,
        _ => r.below(50) as u64,
    }
}
fn rand_values(r: &mut Rng, n: usize) -> (Values, Spec) {
    let mut v = Values::new();
    let mut s: Spec = vec![];
    for _ in 0..n {
        let k = rand_key(r);
        if s.iter().any(|x| x.0 == k) {
            continue;
        }
        let kind = r.below(KINDS);
        insert(&mut v, k, kind, r);
        s.push((k, kind));
    }
    (v, s)
}
fn compare_values(c: &mut Case, route: usize, a: &Values, b: &Values, s: &Spec) {
    c.check(b.len() == s.len() && a.len() == s.len(), "number of variables", || format!("{} came back as {}", s.len(), b.len()));
    for (k, kind) in s {
        c.event();
        let (x, y) = (read(a, *k, *kind), read(b, *k, *kind));
        match (x, y) {
            (Some(x), Some(y)) => {
                c.check(same_v(route, &x, &y), "components", || format!("key {k:#x}: {x:?} came back as {y:?} (route {route})"));
            }
            (x, y) => c.fail("variable", format!("key {k:#x}: {x:?} came back as {y:?} (route {route})")),
        }
    }
}

// ---------------------------------------------------------------- factors
fn spd<const N: usize>(r: &mut Rng) -> Matrix<N, N> {
    let a = Matrix::<N, N>::from_fn(|_, _| r.normal());
    a * a.transpose() + Matrix::<N, N>::identity() * 0.5
}
/// finishes a builder with a random noise model and kernel; returns what was chosen
macro_rules! finish {
    ($b:expr, $r:expr, $n:literal, $d:expr) => {{
        let mut b = $b;
        let r: &mut Rng = $r;
        let which = r.below(8);
        b = match which {
            0 => b,
            1 => b.noise(UnitNoise::<$n>),
            2 => b.noise(GaussianNoise::<$n>::from_scalar_sigma(r.logu(1e-2, 1e2))),
            3 => b.noise(GaussianNoise::<$n>::from_vec_cov(Vector::<$n>::from_fn(|_, _| r.logu(1e-4, 1e4)).as_view())),
            4 => b.noise(Scaled::<$n> { s: r.logu(0.1, 10.0) }),
            5 => b.noise(GaussianNoise::<$n>::from_vec_inf(Vector::<$n>::from_fn(|_, _| r.logu(1e-4, 1e4)).as_view())),
            6 => b.noise(GaussianNoise::<$n>::from_matrix_inf(spd::<$n>(r).as_view())),
            _ => b.noise(GaussianNoise::<$n>::from_matrix_cov(spd::<$n>(r).as_view())),
        };
        let k = r.below(10);
        let p = r.logu(0.1, 10.0);
        b = match k {
            0 => b,
            1 => b.robust(L1),
            2 => b.robust(Huber::new(p)),
            3 => b.robust(Fair::new(p)),
            4 => b.robust(Cauchy::new(p)),
            5 => b.robust(GemanMcClure::new(p)),
            6 => b.robust(Welsch::new(p)),
            7 => b.robust(Tukey::new(p)),
            8 => b.robust(L2),
            _ => b.robust(Half { w: p }),
        };
        $d = format!("{} noise{} kernel{}({:.2})", $d, which, k, p);
        (b.build(), which, k)
    }};
}
struct Built {
    f: Factor,
    spec: Spec,
    d: String,
    sig: (usize, usize, usize, usize),
}
/// residual 0: prior, 1: between, 2: user, 3: imu
fn rand_factor(r: &mut Rng, what: usize) -> Built {
    let keys: Vec<u64> = {
        let mut ks: Vec<u64> = vec![];
        while ks.len() < 6 {
            let k = rand_key(r);
            if !ks.contains(&k) {
                ks.push(k)
            }
        }
        ks
    };
    let k = |i: usize| Key(keys[i]);
    match what {
        0 | 1 => {
            let kind = r.below(KINDS);
            macro_rules! go2 {
                ($t:ty, $n:literal) => {{
                    let z = <$t>::rand(r);
                    if what == 0 {
                        let mut d = format!("Prior<{}> {:?}", stringify!($t), z.parts());
                        let (f, a, b) = finish!(FactorBuilder::new1_unchecked(PriorResidual::new(z), k(0)), r, $n, d);
                        Built { f, spec: vec![(keys[0], kind)], d, sig: (what, kind, a, b) }
                    } else {
                        let mut d = format!("Between<{}> {:?}", stringify!($t), z.parts());
                        let (f, a, b) = finish!(FactorBuilder::new2_unchecked(BetweenResidual::new(z), k(0), k(1)), r, $n, d);
                        Built { f, spec: vec![(keys[0], kind), (keys[1], kind)], d, sig: (what, kind, a, b) }
                    }
                }};
            }
            match kind {
                0 => go2!(VectorVar<1>, 1),
                1 => go2!(VectorVar<2>, 2),
                2 => go2!(VectorVar<3>, 3),
                3 => go2!(VectorVar<4>, 4),
                4 => go2!(VectorVar<5>, 5),
                5 => go2!(VectorVar<6>, 6),
                6 => go2!(SO2, 1),
                7 => go2!(SO3, 3),
                8 => go2!(SE2, 3),
                9 => go2!(SE3, 6),
                10 => go2!(ImuBias, 6),
                11 => go2!(Mine, 2),
                12 => go2!(VectorVar<7>, 7),
                13 => go2!(VectorVar<11>, 11),
                _ => {
                    // the largest registered dimension
                    let z = VectorVar::<20>::rand(r);
                    let mut d = format!("Prior<VectorVar<20>> {:?}", z.parts());
                    let (f, a, b) = finish!(FactorBuilder::new1_unchecked(PriorResidual::new(z), k(0)), r, 20, d);
                    Built { f, spec: vec![(keys[0], kind)], d, sig: (0, kind, a, b) }
                }
            }
        }
        2 => {
            let z = Range { dist: num(r), tag_like: ["tag", "", "\"}{", "\u{1F980} x"][r.below(4)].to_string() };
            let mut d = format!("Range {:?}", z);
            let (f, a, b) = finish!(FactorBuilder::new2_unchecked(z, k(0), k(1)), r, 1, d);
            Built { f, spec: vec![(keys[0], 8), (keys[1], 2)], d, sig: (2, 0, a, b) }
        }
        _ => {
            let mut v3 = |s: f64| (s * r.normal(), s * r.normal(), s * r.normal());
            let (bg, ba) = (v3(0.1), v3(0.1));
            let mut cov = ImuCovariance::default();
            cov.set_scalar_accel(r.logu(1e-5, 1e-2));
            cov.set_scalar_gyro_bias(r.logu(1e-6, 1e-3));
            let g = if r.coin(0.5) { Gravity::up() } else { Gravity::down() };
            let mut p = ImuPreintegrator::new(cov, ImuBias::new(Gyro::new(bg.0, bg.1, bg.2), Accel::new(ba.0, ba.1, ba.2)), g);
            let n = r.int(1, 12);
            for _ in 0..n {
                p.integrate(
                    &Gyro::new(r.normal(), r.normal(), r.normal()),
                    &Accel::new(3.0 * r.normal(), 3.0 * r.normal(), 9.0 + r.normal()),
                    r.range(1e-3, 0.05),
                );
            }
            use factrs::containers::TypedSymbol;
            #[derive(Clone, Copy, Debug)]
            struct S(u64);
            impl fmt::Display for S {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    write!(f, "S")
                }
            }
            impl From<S> for Key {
                fn from(s: S) -> Key {
                    Key(s.0)
                }
            }
            impl factrs::containers::Symbol for S {}
            impl TypedSymbol<SE3> for S {}
            impl TypedSymbol<VectorVar3> for S {}
            impl TypedSymbol<ImuBias> for S {}
            let f = p.build(S(keys[0]), S(keys[1]), S(keys[2]), S(keys[3]), S(keys[4]), S(keys[5]));
            Built { f, spec: (0..6).map(|i| (keys[i], [9, 2, 10][i % 3])).collect(), d: format!("imu over {n} samples"), sig: (3, n, 0, 0) }
        }
    }
}
fn values_for(r: &mut Rng, spec: &Spec) -> Values {
    let mut v = Values::new();
    for (k, kind) in spec {
        insert(&mut v, *k, *kind, r);
    }
    v
}
/// everything a factor does at the given values: keys, size, error, linearisation (None where it panics)
fn acts(f: &Factor, v: &Values) -> (Vec<u64>, usize, Option<f64>, Option<Vec<f64>>) {
    let keys = f.keys().iter().map(|k| k.0).collect();
    let e = quiet_catch(|| f.error(v)).ok();
    let lin = quiet_catch(|| {
        let mut g = Graph::new();
        let _ = &mut g;
        let l = f.linearize(v);
        let mut o: Vec<f64> = l.b.iter().copied().collect();
        o.extend(l.a.mat().iter());
        o.extend(l.keys.iter().flat_map(|k| [(k.0 >> 32) as f64, (k.0 & 0xffff_ffff) as f64]));
        o
    })
    .ok();
    (keys, f.dim_out(), e, lin)
}
/// numbers computed from what came back: identical in memory; nearly so through text, judged by the scale of the vector
fn same_out(route: usize, a: &[f64], b: &[f64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if route == 0 {
        return a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()));
    }
    let sc = a.iter().filter(|x| x.is_finite()).fold(0.0f64, |m, x| m.max(x.abs()));
    a.iter().zip(b).all(|(x, y)| x == y || (!x.is_finite() && !y.is_finite()) || (x - y).abs() <= 1e-8 * sc + 1e-300)
}

fn main() {
    let ctx = Ctx::from_env("C29");

    ctx.family("values", 4000, 60000, |r, c| {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 60,
            _ => r.int(2, 12),
        };
        let (v, s) = rand_values(r, n);
        let route = r.below(ROUTES);
        c.desc(format!("route {route} kinds {s:?}"));
        let mut kinds: Vec<usize> = s.iter().map(|x| x.1).collect();
        kinds.sort();
        c.sig((route, &kinds));
        c.count(&format!("route {route}"), 1);
        match trip(&v, route) {
            Ok(b) => compare_values(c, route, &v, &b, &s),
            Err(e) => c.fail("reading back values", e),
        }
        // a copy of what came back is as good
        if let Ok(b) = trip(&v, 0) {
            let b2 = trip(&b.clone(), 0);
            match b2 {
                Ok(b2) => compare_values(c, 0, &v, &b2, &s),
                Err(e) => c.fail("reading back twice", e),
            }
        }
    });

    for (what, name) in ["prior", "between", "user", "imu"].iter().enumerate() {
        ctx.family(&format!("factor-{name}"), 3000, 40000, |r, c| {
            let b = rand_factor(r, what);
            let route = r.below(ROUTES);
            c.desc(format!("route {route} {} keys {:?}", b.d, b.spec));
            c.sig((route, b.sig));
            c.count(&format!("{name} noise {}", b.sig.2), 1);
            let g = match trip(&b.f, route) {
                Ok(g) => g,
                Err(e) => return c.fail("reading back a factor", e),
            };
            for _ in 0..3 {
                let v = values_for(r, &b.spec);
                let (x, y) = (acts(&b.f, &v), acts(&g, &v));
                c.event();
                c.check(x.0 == y.0 && x.1 == y.1, "keys and size", || format!("{:?} {} came back as {:?} {}", x.0, x.1, y.0, y.1));
                match (x.2, y.2) {
                    (Some(p), Some(q)) => {
                        let loose = (p - q).abs() <= 1e-6 * p.abs().max(q.abs());
                        c.check(same_out(route, &[p], &[q]) || (route > 0 && loose), "error", || format!("{p:e} came back as {q:e} (route {route})"));
                    }
                    (None, None) => c.count("error panics on both", 1),
                    (p, q) => c.fail("error", format!("{p:?} came back as {q:?}")),
                }
                if route == 0 {
                    match (x.3, y.3) {
                        (Some(p), Some(q)) => {
                            c.check(same_out(route, &p, &q), "linearisation", || format!("{p:?} came back as {q:?} (route {route})"));
                        }
                        (None, None) => c.count("linearisation panics on both", 1),
                        (p, q) => c.fail("linearisation", format!("{p:?} came back as {q:?}")),
                    }
                }
            }
        });
    }

    ctx.family("graph", 1500, 20000, |r, c| {
        let n = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => 40,
            _ => r.int(2, 10),
        };
        let built: Vec<Built> = (0..n).map(|_| { let w = r.below(4); rand_factor(r, w) }).collect();
        // factors with clashing keys of different kinds cannot share values
        let mut spec: Spec = vec![];
        let mut keep: Vec<Built> = vec![];
        for b in built {
            if b.spec.iter().all(|(k, kind)| spec.iter().all(|(k2, kind2)| k != k2 || kind == kind2)) {
                for x in &b.spec {
                    if !spec.contains(x) {
                        spec.push(*x)
                    }
                }
                keep.push(b);
            }
        }
        c.desc(format!("{:?}", keep.iter().map(|b| b.d.clone()).collect::<Vec<_>>()));
        c.sig(keep.iter().map(|b| b.sig).collect::<Vec<_>>());
        let v = values_for(r, &spec);
        let each: Vec<_> = keep.iter().map(|b| acts(&b.f, &v)).collect();
        let mut g = Graph::new();
        for b in keep {
            g.add_factor(b.f);
        }
        let h: Graph = match trip(&g, 0) {
            Ok(h) => h,
            Err(e) => return c.fail("reading back a graph", e),
        };
        let v2 = match trip(&v, 0) {
            Ok(v2) => v2,
            Err(e) => return c.fail("reading back values", e),
        };
        c.check(h.len() == g.len() && h.is_empty() == g.is_empty(), "number of factors", || format!("{} came back as {}", g.len(), h.len()));
        let (e, f) = (quiet_catch(|| g.error(&v)).ok(), quiet_catch(|| h.error(&v2)).ok());
        c.check(e.map(f64::to_bits) == f.map(f64::to_bits) || (e.is_some_and(f64::is_nan) && f.is_some_and(f64::is_nan)), "total error", || {
            format!("{e:?} came back as {f:?}")
        });
        // factors in order: the stacked residual vector
        let stack = |g: &Graph, v: &Values| {
            let order = g.sparsity_pattern(factrs::containers::ValuesOrder::from_values(v));
            let d = g.linearize(v).residual_jacobian(&order);
            (0..d.value.nrows()).map(|i| d.value[(i, 0)]).collect::<Vec<f64>>()
        };
        let (a, b) = (quiet_catch(|| stack(&g, &v)), quiet_catch(|| stack(&h, &v2)));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                for _ in &each {
                    c.event();
                }
                c.check(same_out(0, &a, &b), "order of factors", || format!("{a:?} came back as {b:?}"));
            }
            (a, b) => {
                c.check(a.is_ok() == b.is_ok(), "assembly", || format!("{a:?} came back as {b:?}"));
            }
        }
    });

    ctx.family("optimise", 150, 2000, |r, c| {
        // a pose chain with loop closures: the graph read back leads to the same solution
        let n = r.int(3, 8) as u64;
        let three = r.coin(0.5);
        let mut g = Graph::new();
        let mut v = Values::new();
        macro_rules! chain {
            ($t:ty, $n:literal, $noise:expr) => {{
                let poses: Vec<$t> = (0..n).map(|_| <$t>::exp(VectorX::from_fn($n, |_, _| 0.6 * r.normal()).as_view())).collect();
                g.add_factor(FactorBuilder::new1_unchecked(PriorResidual::new(poses[0].clone()), Key(0)).noise($noise(r)).build());
                for i in 0..n as usize {
                    let j = (i + 1) % n as usize;
                    let noisy = poses[i].inverse().compose(&poses[j]).compose(&<$t>::exp(VectorX::from_fn($n, |_, _| 0.02 * r.normal()).as_view()));
                    let b = FactorBuilder::new2_unchecked(BetweenResidual::new(noisy), Key(i as u64), Key(j as u64)).noise($noise(r));
                    g.add_factor(if r.coin(0.3) { b.robust(Huber::new(2.0)).build() } else { b.build() });
                }
                for (i, p) in poses.iter().enumerate() {
                    v.insert_unchecked(Key(i as u64), p.compose(&<$t>::exp(VectorX::from_fn($n, |_, _| 0.05 * r.normal()).as_view())));
                }
            }};
        }
        if three {
            chain!(SE3, 6, |r: &mut Rng| GaussianNoise::<6>::from_matrix_cov(spd::<6>(r).as_view()));
        } else {
            chain!(SE2, 3, |r: &mut Rng| GaussianNoise::<3>::from_matrix_cov(spd::<3>(r).as_view()));
        }
        c.desc(format!("{n} poses, 3d {three}"));
        c.sig((n, three, r.u64()));
        let route = r.below(ROUTES);
        let (h, v2) = match (trip::<Graph>(&g, route), trip::<Values>(&v, route)) {
            (Ok(h), Ok(v2)) => (h, v2),
            (a, b) => return c.fail("reading back", format!("{:?} {:?}", a.err(), b.err())),
        };
        let kind = if three { 9 } else { 8 };
        let gn = r.coin(0.5);
        let run = |g: Graph, v: Values| -> Option<Values> {
            if gn {
                let mut o: GaussNewton = GaussNewton::new(g);
                o.optimize(v).ok()
            } else {
                let mut o: LevenMarquardt = LevenMarquardt::new(g);
                o.optimize(v).ok()
            }
        };
        let (a, b) = (quiet_catch(|| run(g, v)).ok().flatten(), quiet_catch(|| run(h, v2)).ok().flatten());
        match (a, b) {
            (Some(a), Some(b)) => {
                for k in 0..n {
                    c.event();
                    let (x, y) = (read(&a, k, kind), read(&b, k, kind));
                    let ok = match (&x, &y) {
                        (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p - q).abs() < 1e-5),
                        _ => false,
                    };
                    c.check(ok, "solution", || format!("pose {k}: {x:?} came back as {y:?}"));
                }
            }
            (a, b) => {
                c.check(a.is_some() == b.is_some(), "optimisation", || format!("succeeds: {} and {}", a.is_some(), b.is_some()));
            }
        }
    });

    ctx.family("damaged", 4000, 40000, |r, c| {
        // text that does not describe the object is refused, without panicking
        let b = rand_factor(r, r.clone().below(4));
        let v = values_for(r, &b.spec);
        let mut j = serde_json::to_value(&b.f).unwrap();
        let mut jv = serde_json::to_value(&v).unwrap();
        let shape = ["residual", "noise", "robust"].iter().all(|f| j[*f]["tag"].is_string()) && j["keys"].is_array();
        let shape = shape && jv.as_object().and_then(|o| o.values().next()).and_then(|i| i.as_object()).map_or(false, |i| i.values().all(|x| x["tag"].is_string()));
        if !shape {
            return c.skip("the layout is not the one this damage is written for");
        }
        let how = r.below(7);
        let what;
        let field = ["residual", "noise", "robust"][r.below(3)];
        let fields: Vec<String> = j[field].as_object().map(|o| o.keys().filter(|k| *k != "tag").cloned().collect()).unwrap_or_default();
        match how {
            0 => {
                j[field]["tag"] = "NoSuchThing<3>".into();
                what = format!("unknown tag in {field}");
            }
            1 => {
                j[field].as_object_mut().unwrap().remove("tag");
                what = format!("no tag in {field}");
            }
            2 => {
                if fields.is_empty() {
                    return c.skip("nothing to remove");
                }
                let f = &fields[r.below(fields.len())];
                j[field].as_object_mut().unwrap().remove(f);
                what = format!("{field}.{f} missing");
            }
            3 => {
                j.as_object_mut().unwrap().remove(field);
                what = format!("{field} missing");
            }
            4 => {
                j[field]["tag"] = j[["noise", "robust", "residual"][["residual", "noise", "robust"].iter().position(|x| *x == field).unwrap()]]["tag"].clone();
                what = format!("{field} with the tag of another part");
            }
            5 => {
                j["keys"] = "seven".into();
                what = "keys are not a list".into();
            }
            _ => {
                let o = jv.as_object_mut().unwrap();
                let (_, inner) = o.iter_mut().next().unwrap();
                let k = inner.as_object().unwrap().keys().next().unwrap().clone();
                inner[&k]["tag"] = "Nobody".into();
                what = "unknown variable tag".into();
            }
        }
        c.desc(format!("{} of {}", what, b.d));
        c.sig((how, field, b.sig));
        let text = r.coin(0.5);
        let res = quiet_catch(|| {
            if how == 6 {
                if text { serde_json::from_str::<Values>(&jv.to_string()).is_ok() } else { serde_json::from_value::<Values>(jv.clone()).is_ok() }
            } else if text {
                serde_json::from_str::<Factor>(&j.to_string()).is_ok()
            } else {
                serde_json::from_value::<Factor>(j.clone()).is_ok()
            }
        });
        match res {
            Ok(ok) => {
                c.check(!ok, "refuses damaged text", || format!("{what}: accepted"));
            }
            Err(p) => c.fail("refuses damaged text", format!("{what}: panics {p}")),
        }
    });

    ctx.family("truncated", 500, 8000, |r, c| {
        let (v, s) = rand_values(r, 5);
        let t = serde_json::to_string(&v).unwrap();
        let cut = (0..4).map(|_| r.below(t.len())).find(|i| t.is_char_boundary(*i)).unwrap_or(0);
        c.desc(format!("{cut} of {} bytes", t.len()));
        c.sig((s.len(), cut));
        match quiet_catch(|| serde_json::from_str::<Values>(&t[..cut]).is_ok()) {
            Ok(ok) => {
                c.check(!ok, "refuses truncated text", || format!("{}", &t[..cut]));
            }
            Err(p) => c.fail("refuses truncated text", p),
        }
    });

    ctx.finish(
        "a case is one object written and read back through one route; non-trivial when at least one variable or factor went through; distinct by route, types, noise and kernel",
        &["the typetag submodule is replaced by a stand-in (verif/serde/typetag) that follows typetag's internally tagged format and passes this repository's own serde tests",
          "non-finite numbers have no JSON form and are not written"],
    )
}

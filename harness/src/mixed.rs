//! A variable of any supported type (closed enum) and generators of mixed containers.
use crate::custom::Aff1;
use crate::gen::BuilderBox;
use crate::la::M;
use crate::rng::Rng;
use crate::vars::VarX;
use factrs::containers::{FactorBuilder, Key, Values};
use factrs::residuals::{BetweenResidual, PriorResidual};
use factrs::variables::*;

macro_rules! any {
    ($($n:ident($t:ty)),*) => {
        #[derive(Clone)]
        pub enum Any { $($n($t)),* }
        impl Any {
            pub fn kind(&self) -> &'static str { match self { $(Any::$n(_) => stringify!($n)),* } }
            pub fn dim(&self) -> usize { match self { $(Any::$n(_) => <$t as Variable>::DIM),* } }
            pub fn mat(&self) -> M { match self { $(Any::$n(v) => v.mat()),* } }
            pub fn rot(&self) -> usize { match self { $(Any::$n(_) => <$t as VarX>::ROT),* } }
            pub fn insert(&self, vals: &mut Values, key: u64) -> Option<Box<dyn VariableSafe>> {
                match self { $(Any::$n(v) => vals.insert_unchecked(Key(key), v.clone())),* }
            }
            /// reads the variable of this enum's type stored under key
            pub fn read_same(&self, vals: &Values, key: u64) -> Option<M> {
                match self { $(Any::$n(_) => vals.get_unchecked::<_, $t>(Key(key)).map(|v| v.mat())),* }
            }
            pub fn get(&self, vals: &Values, key: u64) -> Option<Any> {
                match self { $(Any::$n(_) => vals.get_unchecked::<_, $t>(Key(key)).map(|v| Any::$n(v.clone()))),* }
            }
            pub fn from_box(b: &Box<dyn VariableSafe>) -> Option<Any> {
                $( if let Some(v) = b.downcast_ref::<$t>() { return Some(Any::$n(v.clone())); } )*
                None
            }
            /// x oplus xi by the reference exponential
            pub fn ref_oplus(&self, xi: &[f64]) -> M {
                match self { $(Any::$n(v) => {
                    let e = <$t as VarX>::ref_exp(xi);
                    if cfg!(feature = "left") { e.mul(&v.mat()) } else { v.mat().mul(&e) }
                }),* }
            }
            pub fn oplus(&self, xi: &[f64]) -> Any {
                match self { $(Any::$n(v) => Any::$n(v.oplus(crate::vars::vx(xi).as_view()))),* }
            }
            /// exp(xi) of this variable's type
            pub fn exp_like(&self, xi: &[f64]) -> Any {
                match self { $(Any::$n(_) => Any::$n(<$t as VarX>::e_exp(xi))),* }
            }
            pub fn rand(rng: &mut Rng) -> Any {
                let fs: &[fn(&mut Rng) -> Any] = &[$(|r| Any::$n(<$t as VarX>::rand(r).0)),*];
                fs[rng.below(fs.len())](rng)
            }
            /// reference log of a matrix, read as this variable's type
            pub fn ref_log(&self, m: &M) -> Vec<f64> {
                match self { $(Any::$n(_) => <$t as VarX>::ref_log(m)),* }
            }
            pub fn arg(&self) -> crate::ad::P {
                match self { $(Any::$n(v) => crate::ad::arg(v)),* }
            }
            pub fn compose(&self, o: &Any) -> Any {
                match (self, o) { $((Any::$n(a), Any::$n(b)) => Any::$n(a.compose(b)),)* _ => panic!("kinds differ") }
            }
            pub fn inverse(&self) -> Any {
                match self { $(Any::$n(a) => Any::$n(a.inverse())),* }
            }
            pub fn small_tangent(&self, rng: &mut Rng, s: f64) -> Vec<f64> {
                match self { $(Any::$n(_) => <$t as VarX>::small_tangent(rng, s)),* }
            }
            pub fn rand_kind(rng: &mut Rng, kind: usize) -> Any {
                let fs: &[fn(&mut Rng) -> Any] = &[$(|r| Any::$n(<$t as VarX>::rand(r).0)),*];
                fs[kind](rng)
            }
            pub fn prior(&self) -> Box<dyn Fn(u64) -> BuilderBox> {
                match self { $(Any::$n(v) => { let v = v.clone(); Box::new(move |k| BuilderBox::new(FactorBuilder::new1_unchecked(PriorResidual::new(v.clone()), Key(k)))) }),* }
            }
            pub fn between(&self) -> Box<dyn Fn(u64, u64) -> BuilderBox> {
                match self { $(Any::$n(v) => { let v = v.clone(); Box::new(move |a, b| BuilderBox::new(FactorBuilder::new2_unchecked(BetweenResidual::new(v.clone()), Key(a), Key(b)))) }),* }
            }
            pub const KINDS: &'static [&'static str] = &[$(stringify!($n)),*];
        }
    };
}
any!(
    SO2(SO2), SE2(SE2), SO3(SO3), SE3(SE3), Bias(ImuBias),
    V1(VectorVar1), V2(VectorVar2), V3(VectorVar3), V4(VectorVar4), V5(VectorVar5), V6(VectorVar6), Custom(Aff1)
);

pub fn rand_key(rng: &mut Rng) -> u64 {
    match rng.below(4) {
        0 => rng.below(20) as u64,
        1 => rng.u64(),
        2 => ((b'a' + rng.below(26) as u8) as u64) << 32 | rng.below(50) as u64,
        _ => *rng.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63, 1 << 32, 0x10FFFF << 32]),
    }
}

pub fn rand_values(rng: &mut Rng, n: usize) -> (Values, Vec<(u64, Any)>) {
    let mut vals = Values::new();
    let mut model: Vec<(u64, Any)> = vec![];
    while model.len() < n {
        let k = rand_key(rng);
        if model.iter().any(|(q, _)| *q == k) {
            continue;
        }
        let v = Any::rand(rng);
        v.insert(&mut vals, k);
        model.push((k, v));
    }
    (vals, model)
}

/// conversion of an Any back to one concrete type
pub trait FromAny: Sized {
    fn from_any(a: &Any) -> Option<Self>;
}
macro_rules! from_any {
    ($($n:ident($t:ty)),*) => { $(impl FromAny for $t { fn from_any(a: &Any) -> Option<Self> { match a { Any::$n(v) => Some(v.clone()), _ => None } } })*
        impl Any {
            pub fn boxed(&self) -> Box<dyn VariableSafe> { match self { $(Any::$n(v) => Box::new(v.clone())),* } }
        }
    };
}
from_any!(
    SO2(SO2), SE2(SE2), SO3(SO3), SE3(SE3), Bias(ImuBias),
    V1(VectorVar1), V2(VectorVar2), V3(VectorVar3), V4(VectorVar4), V5(VectorVar5), V6(VectorVar6), Custom(Aff1)
);
impl Any {
    pub fn get_as<T: FromAny>(a: &Any) -> Option<T> {
        T::from_any(a)
    }
}

/// puts a vector variable of an unusual width (0, or wider than any built-in) under a key; returns its width
pub fn insert_wide(rng: &mut Rng, vals: &mut Values, key: u64) -> usize {
    macro_rules! go { ($($n:literal),*) => {{
        let ws = [$($n),*];
        let n = ws[rng.below(ws.len())];
        match n { $($n => { vals.insert_unchecked(Key(key), VectorVar::<$n>(factrs::linalg::Vector::<$n>::from_fn(|_, _| crate::vars::d(rng.normal())))); })* _ => unreachable!() }
        n
    }}; }
    go!(0, 7, 9, 12, 17, 20, 33, 40, 70)
}
pub fn read_wide(vals: &Values, key: u64) -> Option<Vec<f64>> {
    macro_rules! go { ($($n:literal),*) => {{ $( if let Some(v) = vals.get_unchecked::<_, VectorVar<$n>>(Key(key)) { return Some(v.0.iter().map(|x| *x as f64).collect()); } )* None }}; }
    go!(0, 7, 9, 12, 17, 20, 33, 40, 70)
}

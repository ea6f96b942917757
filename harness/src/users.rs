#![allow(unused_assignments)]
//! User-defined residuals of one to six variables of mixed types, with exact reference values and derivatives.
use crate::ad::*;
use crate::custom::Aff1;
use crate::gen::BuilderBox;
use crate::la::M;
use crate::mixed::Any;
use crate::rng::Rng;
use factrs::containers::{FactorBuilder, Key};
use factrs::linalg::{Const, ForwardProp, Numeric, NumericalDiff, VectorX};
use factrs::residuals::*;
use factrs::variables::*;
use std::fmt;
use std::sync::Arc;

pub trait UserRes: Send + Sync {
    fn name(&self) -> &'static str;
    fn dim(&self) -> usize;
    /// value and derivative at the given arguments
    fn reference(&self, ps: &[P]) -> (Vec<f64>, M);
    fn value(&self, ms: &[M]) -> Vec<f64>;
    fn builder(&self, keys: &[u64]) -> BuilderBox;
    /// accuracy of its differentiation
    fn jtol(&self) -> f64;
}
fn kind(n: &str) -> usize {
    let n = match n {
        "ImuBias" => "Bias",
        "Aff1" => "Custom",
        o => o,
    };
    let n = n.replace("VectorVar", "V");
    Any::KINDS.iter().position(|k| *k == n).unwrap()
}
macro_rules! user {
    ($name:ident, $tr:ident, $func:ident, $new:ident, $differ:ty, $jt:expr, $tot:literal, $out:literal, $( ($x:ident: $A:ident = $V:ident) ),*) => {
        #[derive(Clone)]
        pub struct $name { pub co: Arc<Coef> }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, stringify!($name)) } }
        impl fmt::Display for $name { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, stringify!($name)) } }
        #[factrs::mark]
        impl $tr for $name {
            type DimIn = Const<$tot>;
            type DimOut = Const<$out>;
            $( type $A = $V; )*
            type Differ = $differ;
            fn $func<T: Numeric>(&self, $( $x: $V<T> ),*) -> VectorX<T> {
                let mut g = vec![];
                $( $x.feats(&mut g); )*
                self.co.eval(&g)
            }
        }
        impl $name {
            pub fn kinds() -> Vec<usize> { vec![$( kind(stringify!($V)) ),*] }
            pub fn rand(rng: &mut Rng, scale: f64) -> $name {
                let mut n = 0;
                $( { n += feats_of::<$V>(&<$V as crate::vars::VarX>::rand(rng).0.mat_()).len(); } )*
                $name { co: Arc::new(Coef::new(rng, $out, n, scale)) }
            }
        }
        impl UserRes for $name {
            fn name(&self) -> &'static str { stringify!($name) }
            fn dim(&self) -> usize { $out }
            fn jtol(&self) -> f64 { $jt }
            fn value(&self, ms: &[M]) -> Vec<f64> {
                let mut g = vec![];
                let mut i = 0;
                $( { let _ = stringify!($x); g.extend(feats_of::<$V>(&ms[i])); i += 1; } )*
                let _ = i;
                self.co.reference(&g).0
            }
            fn reference(&self, ps: &[P]) -> (Vec<f64>, M) {
                let mut g = vec![];
                let mut i = 0;
                $( { let _ = stringify!($x); g.extend(feats_of::<$V>(&ps[i].m)); i += 1; } )*
                let (val, jg) = self.co.reference(&g);
                let mut dg = M::zeros(g.len(), $tot);
                let (mut r, mut col) = (0, 0);
                i = 0;
                $( {
                    let _ = stringify!($x);
                    let p = &ps[i];
                    for j in 0..p.dim { for (q, v) in feats_of::<$V>(&dmat(p, j)).iter().enumerate() { dg[(r + q, col + j)] = *v; } }
                    r += feats_of::<$V>(&p.m).len();
                    col += p.dim;
                    i += 1;
                } )*
                let _ = (r, col, i);
                (val, jg.mul(&dg))
            }
            fn builder(&self, keys: &[u64]) -> BuilderBox {
                let mut i = 0;
                $( let $x = Key(keys[i]); i += 1; )*
                let _ = i;
                BuilderBox::new(FactorBuilder::$new(self.clone(), $( $x ),*))
            }
        }
    };
}
trait MatOf {
    fn mat_(&self) -> M;
}
impl<V: crate::vars::VarX> MatOf for V {
    fn mat_(&self) -> M {
        self.mat()
    }
}
user!(U1, Residual1, residual1, new1_unchecked, ForwardProp<Const<6>>, 1e-10, 6, 4, (a: V1 = SE3));
user!(U2, Residual2, residual2, new2_unchecked, ForwardProp<Const<5>>, 1e-10, 5, 1, (a: V1 = VectorVar2), (b: V2 = SO3));
user!(U3, Residual3, residual3, new3_unchecked, ForwardProp<Const<6>>, 1e-10, 6, 3, (a: V1 = SE2), (b: V2 = SO2), (e: V3 = Aff1));
user!(U4, Residual4, residual4, new4_unchecked, ForwardProp<Const<11>>, 1e-10, 11, 5, (a: V1 = VectorVar1), (b: V2 = SE3), (e: V3 = SO2), (g: V4 = VectorVar3));
user!(U5, Residual5, residual5, new5_unchecked, ForwardProp<Const<13>>, 1e-10, 13, 2, (a: V1 = Aff1), (b: V2 = VectorVar4), (e: V3 = SO3), (g: V4 = SE2), (h: V5 = VectorVar1));
user!(U6, Residual6, residual6, new6_unchecked, ForwardProp<Const<20>>, 1e-10, 20, 6, (a: V1 = VectorVar3), (b: V2 = SO2), (e: V3 = VectorVar1), (g: V4 = SE3), (h: V5 = SO3), (k: V6 = ImuBias));
user!(N3, Residual3, residual3, new3_unchecked, NumericalDiff<5>, 2e-8, 8, 2, (a: V1 = VectorVar5), (b: V2 = SO2), (e: V3 = Aff1));

user!(W6, Residual6, residual6, new6_unchecked, ForwardProp<Const<36>>, 1e-10, 36, 12, (a: V1 = SE3), (b: V2 = SE3), (e: V3 = VectorVar6), (g: V4 = SE3), (h: V5 = ImuBias), (k: V6 = SE3));
user!(T2, Residual2, residual2, new2_unchecked, ForwardProp<Const<4>>, 1e-10, 4, 17, (a: V1 = SO2), (b: V2 = SE2));

pub const NUSERS: usize = 9;
pub fn kinds_of(which: usize) -> Vec<usize> {
    [U1::kinds, U2::kinds, U3::kinds, U4::kinds, U5::kinds, U6::kinds, N3::kinds, W6::kinds, T2::kinds][which]()
}
pub fn rand_user(rng: &mut Rng, which: usize, scale: f64) -> Arc<dyn UserRes> {
    match which {
        0 => Arc::new(U1::rand(rng, scale)),
        1 => Arc::new(U2::rand(rng, scale)),
        2 => Arc::new(U3::rand(rng, scale)),
        3 => Arc::new(U4::rand(rng, scale)),
        4 => Arc::new(U5::rand(rng, scale)),
        5 => Arc::new(U6::rand(rng, scale)),
        6 => Arc::new(N3::rand(rng, scale)),
        7 => Arc::new(W6::rand(rng, scale)),
        _ => Arc::new(T2::rand(rng, scale)),
    }
}

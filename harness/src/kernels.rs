//! The documented robust kernels (formula table of the library) and constructors of the real ones.
use crate::vars::d;
use factrs::robust::*;

pub type F = fn(f64, f64) -> f64;
/// documented loss and its analytic derivative over d, as functions of (d, parameter)
pub struct Spec {
    pub name: &'static str,
    pub loss: F,
    pub weight: F,
    pub default: f64,
}
pub const SPECS: [Spec; 8] = [
    Spec { name: "L2", loss: |x, _| x * x / 2.0, weight: |_, _| 1.0, default: 1.0 },
    Spec { name: "L1", loss: |x, _| x.abs(), weight: |x, _| 1.0 / x.abs(), default: 1.0 },
    Spec {
        name: "Huber",
        loss: |x, k| if x <= k { x * x / 2.0 } else { k * (x - k / 2.0) },
        weight: |x, k| if x <= k { 1.0 } else { k / x },
        default: 1.345,
    },
    Spec {
        name: "Fair",
        loss: |x, c| c * c * (x / c - (x / c).ln_1p()),
        weight: |x, c| 1.0 / (1.0 + x / c),
        default: 1.3998,
    },
    Spec {
        name: "Cauchy",
        loss: |x, c| c * c / 2.0 * (x / c).powi(2).ln_1p(),
        weight: |x, c| 1.0 / (1.0 + (x / c).powi(2)),
        default: 2.3849,
    },
    Spec {
        name: "GemanMcClure",
        loss: |x, c| c * c * x * x / 2.0 / (c * c + x * x),
        weight: |x, c| (c * c / (c * c + x * x)).powi(2),
        default: 1.3998,
    },
    Spec {
        name: "Welsch",
        loss: |x, c| -c * c / 2.0 * (-(x / c).powi(2)).exp_m1(),
        weight: |x, c| (-(x / c).powi(2)).exp(),
        default: 2.9846,
    },
    Spec {
        name: "Tukey",
        loss: |x, c| if x <= c { c * c / 6.0 * (1.0 - (1.0 - (x / c).powi(2)).powi(3)) } else { c * c / 6.0 },
        weight: |x, c| if x <= c { (1.0 - (x / c).powi(2)).powi(2) } else { 0.0 },
        default: 4.6851,
    },
];
pub fn make(name: &str, p: Option<f64>) -> Box<dyn RobustCost> {
    match (name, p) {
        ("L2", None) => Box::new(L2::default()),
        ("L2", _) => Box::new(L2),
        ("L1", None) => Box::new(L1::default()),
        ("L1", _) => Box::new(L1),
        ("Huber", None) => Box::new(Huber::default()),
        ("Huber", Some(k)) => Box::new(Huber::new(d(k))),
        ("Fair", None) => Box::new(Fair::default()),
        ("Fair", Some(k)) => Box::new(Fair::new(d(k))),
        ("Cauchy", None) => Box::new(Cauchy::default()),
        ("Cauchy", Some(k)) => Box::new(Cauchy::new(d(k))),
        ("GemanMcClure", None) => Box::new(GemanMcClure::default()),
        ("GemanMcClure", Some(k)) => Box::new(GemanMcClure::new(d(k))),
        ("Welsch", None) => Box::new(Welsch::default()),
        ("Welsch", Some(k)) => Box::new(Welsch::new(d(k))),
        ("Tukey", None) => Box::new(Tukey::default()),
        ("Tukey", Some(k)) => Box::new(Tukey::new(d(k))),
        _ => unreachable!(),
    }
}


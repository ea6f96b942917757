//! C24: conversions to the rerun visualisation types keep coordinates, rotations and counts, and the streaming observer
//! logs every step it is told about. Built with the `rerun` feature; the oracle reads the public fields of the archetypes
//! and the chunks that reached an in-memory sink.
use factrs::containers::{FactorBuilder, Graph, Key, Values};
use factrs::optimizers::{GaussNewton, GraphOptimizer, LevenMarquardt, OptObserver, Optimizer};
use factrs::residuals::PriorResidual;
use factrs::rerun::RerunObserver;
use factrs::variables::*;
use harness::mixed::Any;
use harness::vars::*;
use harness::*;
use rerun::components::{Position2D, Position3D, Vector2D, Vector3D};
use rerun::log::{Chunk, LogMsg};
use rerun::{Arrows2D, Arrows3D, Points2D, Points3D, Rotation3D, Transform3D, Vec2D, Vec3D};
use std::cell::RefCell;
use std::rc::Rc;

const TOL: f64 = 4e-7;

fn v2(v: &Vec2D) -> Vec<f64> {
    v.0.iter().map(|x| *x as f64).collect()
}
fn v3(v: &Vec3D) -> Vec<f64> {
    v.0.iter().map(|x| *x as f64).collect()
}
fn p2(p: &Points2D) -> Vec<Vec<f64>> {
    p.positions.iter().map(|x| v2(&x.0)).collect()
}
fn p3(p: &Points3D) -> Vec<Vec<f64>> {
    p.positions.iter().map(|x| v3(&x.0)).collect()
}
/// (vectors, origins, colours as rgb) of an arrow set
type Arrows = (Vec<Vec<f64>>, Option<Vec<Vec<f64>>>, Option<Vec<[u8; 3]>>);
fn rgb(c: &rerun::components::Color) -> [u8; 3] {
    let [r, g, b, _] = c.to_array();
    [r, g, b]
}
fn a2(a: &Arrows2D) -> Arrows {
    (
        a.vectors.iter().map(|x| v2(&x.0)).collect(),
        a.origins.as_ref().map(|o| o.iter().map(|x| v2(&x.0)).collect()),
        a.colors.as_ref().map(|o| o.iter().map(rgb).collect()),
    )
}
fn a3(a: &Arrows3D) -> Arrows {
    (
        a.vectors.iter().map(|x| v3(&x.0)).collect(),
        a.origins.as_ref().map(|o| o.iter().map(|x| v3(&x.0)).collect()),
        a.colors.as_ref().map(|o| o.iter().map(rgb).collect()),
    )
}
/// relative to the magnitude of each component: single precision keeps about 6e-8 of it
fn same(c: &mut Case, label: &str, got: &[f64], want: &[f64]) {
    c.check(
        got.len() == want.len()
            && got.iter().zip(want).all(|(g, w)| (*w as f32).is_infinite() && g == &(*w as f32 as f64) || (g - w).abs() <= TOL * w.abs() + 1e-44),
        label,
        || format!("got {got:?} want {want:?}"),
    );
}
fn same_dirs(c: &mut Case, label: &str, got: &[Vec<f64>], want: &[Vec<f64>]) {
    if c.check(got.len() == want.len(), &format!("{label}: count"), || format!("{} arrows, want {}", got.len(), want.len())) {
        for (g, w) in got.iter().zip(want) {
            c.close_v(label, g, w, 1e-6);
        }
    }
}
fn same_list(c: &mut Case, label: &str, got: &[Vec<f64>], want: &[Vec<f64>]) {
    if c.check(got.len() == want.len(), &format!("{label}: count"), || format!("{} entries, want {}", got.len(), want.len())) {
        for (g, w) in got.iter().zip(want) {
            same(c, label, g, w);
        }
    }
}
fn cols(m: &M, n: usize) -> Vec<Vec<f64>> {
    (0..n).map(|j| (0..n).map(|i| m[(i, j)]).collect()).collect()
}
const RGB: [[u8; 3]; 3] = [[255, 0, 0], [0, 255, 0], [0, 0, 255]];

/// translations over the whole range single precision can hold
fn trans(rng: &mut Rng, n: usize) -> (Vec<f64>, u32) {
    match rng.below(6) {
        0 => (rng.vec(n, -1.0, 1.0).iter().map(|x| x * 1e30).collect(), 7),
        1 => (rng.vec(n, -1.0, 1.0).iter().map(|x| x * 1e-30).collect(), 8),
        2 => (rng.vec(n, -1e7, 1e7), 9),
        _ => rand_trans(rng, n),
    }
}
fn se2(rng: &mut Rng) -> (SE2, [f64; 3], u32) {
    let th = rng.angle().0 * rng.sign();
    let (t, b) = trans(rng, 2);
    (SE2::new(d(th), d(t[0]), d(t[1])), [th, t[0], t[1]], b)
}
fn se3(rng: &mut Rng) -> (SE3, [f64; 4], Vec<f64>, u32) {
    let (q, b1) = rand_quat(rng);
    let (t, b) = trans(rng, 3);
    (SE3::from_rot_trans(so3(q), nalgebra::Vector3::new(d(t[0]), d(t[1]), d(t[2]))), q, t, b * 16 + b1)
}
fn arrows(c: &mut Case, label: &str, got: &Arrows, want: &[(M, Vec<f64>)], n: usize, origins: bool) {
    let vecs: Vec<Vec<f64>> = want.iter().flat_map(|(m, _)| cols(m, n)).collect();
    same_dirs(c, &format!("{label} axes"), &got.0, &vecs);
    if origins {
        let orig: Vec<Vec<f64>> = want.iter().flat_map(|(_, t)| vec![t.clone(); n]).collect();
        match &got.1 {
            Some(o) => same_list(c, &format!("{label} origins"), o, &orig),
            None => c.fail(format!("{label} origins"), "missing"),
        }
    } else {
        c.check(got.1.as_ref().map_or(true, |o| o.iter().flatten().all(|x| *x == 0.0)), &format!("{label} origins"), || {
            format!("a rotation has origins {:?}", got.1)
        });
    }
    let col: Vec<[u8; 3]> = want.iter().flat_map(|_| RGB[..n].to_vec()).collect();
    c.check(got.2.as_ref() == Some(&col), &format!("{label} colours"), || format!("got {:?} want {col:?}", got.2));
}

struct Rec(Rc<RefCell<Vec<Values>>>);
impl OptObserver for Rec {
    type Input = Values;
    fn on_step(&self, v: &Values, _: f64) {
        self.0.borrow_mut().push(v.clone());
    }
}
fn key_of(v: &[f64]) -> Vec<i64> {
    v.iter().map(|x| (*x as f32).to_bits() as i64).collect()
}
fn sorted(mut v: Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    v.sort_by_key(|x| key_of(x));
    v
}

macro_rules! both {
    ($c:ident, $v:expr, $t:ty, |$x:ident, $l:ident| $f:expr) => {{
        let a: $t = (&$v).into();
        let b: $t = $v.clone().into();
        for ($x, $l) in [(a, "by reference"), (b, "by value")] {
            $f;
        }
    }};
}

/// one observed optimisation: what reached the sink must be what a plain observer saw
macro_rules! observed {
    ($name:literal, $ctx:ident, $V:ty, $R:ty, $mk:expr, $comp:ty, $read:expr, $want:expr) => {
        $ctx.family(concat!("observer/", $name), 40, 300, |rng, c| {
            let mut g = Graph::new();
            let mut vals = Values::new();
            let n = if rng.coin(0.1) { rng.int(7, 150) } else { rng.int(0, 6) };
            for i in 0..n as u64 {
                let x: $V = ($mk)(rng);
                let z: $V = ($mk)(rng);
                g.add_factor(FactorBuilder::new1_unchecked(PriorResidual::new(z), Key(i)).build());
                vals.insert_unchecked(Key(i), x);
            }
            // other types in the same values must not show up
            for i in 0..rng.below(4) as u64 {
                let kind = *rng.pick(&[0, 2, 4, 5]);
                let a = Any::rand_kind(rng, kind);
                g.add_factor(a.prior()(1000 + i).finish(&gen::NoiseS::Unit, &gen::KerS::rand(rng), false));
                a.insert(&mut vals, 1000 + i);
            }
            let (rec, store) = rerun::RecordingStreamBuilder::new("verif").memory().unwrap();
            let topic = *rng.pick(&["pose", "a/b/c", "traj"]);
            let seen = Rc::new(RefCell::new(vec![]));
            let ob = RerunObserver::<$V, $R>::new(rec.clone(), topic);
            let mode = rng.below(3);
            c.desc(format!("{n} {} variables, mode {mode}, topic {topic}", $name));
            c.sig((n, mode, topic, c.idx % 50));
            let mut times_given: Vec<f64> = vec![];
            match mode {
                0 => {
                    let mut o: GaussNewton = GaussNewton::new(g);
                    o.observers.add(ob);
                    o.observers.add(Rec(seen.clone()));
                    let _ = rep::quiet_catch(|| o.optimize(vals));
                }
                1 => {
                    let mut o: LevenMarquardt = LevenMarquardt::new(g);
                    o.observers.add(ob);
                    o.observers.add(Rec(seen.clone()));
                    let _ = rep::quiet_catch(|| o.optimize(vals));
                }
                _ => {
                    // a caller may number its steps as it likes
                    let start = *rng.pick(&[0.0, 0.0, 100.0, 70_000.0, 5e7]);
                    let by = *rng.pick(&[1.0, 1.0, 0.1, 0.001, 10.0]);
                    for i in 1..=rng.int(1, 5) {
                        times_given.push(start + by * i as f64);
                        let mut v = vals.clone();
                        for kk in 0..n as u64 {
                            let x: $V = ($mk)(rng);
                            v.insert_unchecked(Key(kk), x);
                        }
                        ob.on_step(&v, start + by * i as f64);
                        seen.borrow_mut().push(v);
                    }
                }
            }
            rec.flush_blocking();
            // rows in the order they were logged
            let mut rows: Vec<(u128, i64, String, Vec<Vec<f64>>)> = vec![];
            for m in store.take() {
                if let LogMsg::ArrowMsg(_, a) = m {
                    let ch = Chunk::from_arrow_msg(&a).unwrap();
                    let path = ch.entity_path().to_string();
                    let times: Vec<i64> = ch
                        .timelines()
                        .iter()
                        .find(|(t, _)| t.name().as_str() == "stable_time")
                        .map(|(_, tc)| tc.times().map(|t| t.as_i64()).collect())
                        .unwrap_or_default();
                    let ids: Vec<u128> = ch.row_ids().map(|r| r.as_u128()).collect();
                    for r in 0..ch.num_rows() {
                        if let Some(Ok(b)) = ch.component_batch::<$comp>(r) {
                            rows.push((ids[r], times.get(r).copied().unwrap_or(i64::MIN), path.clone(), b.iter().map($read).collect()));
                        }
                    }
                }
            }
            rows.sort_by_key(|r| r.0);
            let seen = seen.borrow();
            c.check(rows.len() == seen.len(), "one logged record per step", || format!("{} records for {} steps", rows.len(), seen.len()));
            for (i, (r, v)) in rows.iter().zip(seen.iter()).enumerate() {
                c.event();
                c.check(r.2.trim_start_matches('/') == topic, "logged under the topic", || format!("{} want {topic}", r.2));
                let at = times_given.get(i).copied().unwrap_or((i + 1) as f64);
                c.close("time of a step in seconds", r.1 as f64 * 1e-9, at, 1e-6);
                let want: Vec<Vec<f64>> = (0..n as u64).flat_map(|k| ($want)(v.get_unchecked::<_, $V>(Key(k)).unwrap())).collect();
                // the container's own order is unspecified: compare as multisets
                let (gs, ws) = (sorted(r.3.clone()), sorted(want));
                if c.check(gs.len() == ws.len(), "a record holds every variable of the type once", || format!("{} entries want {}", gs.len(), ws.len())) {
                    let mut ws = ws;
                    for g in gs {
                        let at = ws.iter().position(|w| g.iter().zip(w).all(|(a, b)| (a - b).abs() <= 2e-6 * b.abs().max(1.0)));
                        match at {
                            Some(k) => {
                                ws.remove(k);
                            }
                            None => {
                                c.fail("logged geometry", format!("step {}: {g:?} is not among {ws:?}", i + 1));
                                break;
                            }
                        }
                    }
                }
            }
            c.count("steps logged", seen.len() as u64);
        });
    };
}

fn main() {
    let ctx = Ctx::from_env("C24");
    ctx.family("vectors", 4000, 400_000, |rng, c| {
        let (t, b) = trans(rng, 3);
        let x2 = VectorVar2::new(d(t[0]), d(t[1]));
        let x3 = VectorVar3::new(d(t[0]), d(t[1]), d(t[2]));
        c.desc(format!("{t:?}"));
        c.sig((b, c.idx % 997));
        both!(c, x2, Vec2D, |x, l| same(c, &format!("VectorVar2 -> Vec2D {l}"), &v2(&x), &t[..2]));
        both!(c, x2, Points2D, |x, l| same_list(c, &format!("VectorVar2 -> Points2D {l}"), &p2(&x), &[t[..2].to_vec()]));
        both!(c, x3, Vec3D, |x, l| same(c, &format!("VectorVar3 -> Vec3D {l}"), &v3(&x), &t));
        both!(c, x3, Points3D, |x, l| same_list(c, &format!("VectorVar3 -> Points3D {l}"), &p3(&x), &[t.clone()]));
        c.event();
    });
    ctx.family("2d", 4000, 400_000, |rng, c| {
        let (x, r, b) = se2(rng);
        let (th, t) = (r[0], r[1..].to_vec());
        c.desc(format!("theta {th} xy {t:?}"));
        c.sig((b, c.idx % 997));
        let m = rot2(th);
        let rot = SO2::from_theta(d(th));
        both!(c, rot, Arrows2D, |y, l| arrows(c, &format!("SO2 -> Arrows2D {l}"), &a2(&y), &[(m.clone(), vec![])], 2, false));
        both!(c, x, Arrows2D, |y, l| arrows(c, &format!("SE2 -> Arrows2D {l}"), &a2(&y), &[(m.clone(), t.clone())], 2, true));
        both!(c, x, Points2D, |y, l| same_list(c, &format!("SE2 -> Points2D {l}"), &p2(&y), &[t.clone()]));
        both!(c, x, Vec2D, |y, l| same(c, &format!("SE2 -> Vec2D {l}"), &v2(&y), &t));
        c.event();
    });
    ctx.family("3d", 4000, 400_000, |rng, c| {
        let (x, q, t, b) = se3(rng);
        c.desc(format!("q {q:?} xyz {t:?}"));
        c.sig((b, c.idx % 997));
        let m = quat_mat(q);
        let rot = so3(q);
        let quat = |r: &Rotation3D| match r {
            Rotation3D::Quaternion(q) => q.0 .0.iter().map(|x| *x as f64).collect::<Vec<f64>>(),
            _ => vec![],
        };
        both!(c, rot, Rotation3D, |y, l| {
            c.close_v(&format!("SO3 -> Rotation3D {l}"), &quat(&y), &q, 2e-7);
        });
        both!(c, rot, Arrows3D, |y, l| arrows(c, &format!("SO3 -> Arrows3D {l}"), &a3(&y), &[(m.clone(), vec![])], 3, false));
        both!(c, x, Arrows3D, |y, l| arrows(c, &format!("SE3 -> Arrows3D {l}"), &a3(&y), &[(m.clone(), t.clone())], 3, true));
        both!(c, x, Points3D, |y, l| same_list(c, &format!("SE3 -> Points3D {l}"), &p3(&y), &[t.clone()]));
        both!(c, x, Vec3D, |y, l| same(c, &format!("SE3 -> Vec3D {l}"), &v3(&y), &t));
        both!(c, x, Transform3D, |y, l| {
            let got: Vec<f64> = y.translation.as_ref().map(|t| v3(&t.0)).unwrap_or_default();
            same(c, &format!("SE3 -> Transform3D translation {l}"), &got, &t);
            // the archetype also has matrix and axis-angle fields: judge the rotation they add up to
            let mut r = M::eye(3);
            if let Some(qq) = &y.quaternion {
                let w: Vec<f64> = qq.0 .0.iter().map(|x| *x as f64).collect();
                r = quat_mat([w[0], w[1], w[2], w[3]]);
            }
            if let Some(mm) = &y.mat3x3 {
                r = M::from_fn(3, 3, |i, j| mm.0 .0[3 * j + i] as f64);
            }
            c.close_m(&format!("SE3 -> Transform3D rotation {l}"), &r, &m, 2e-6);
            c.check(y.scale.is_none() && y.rotation_axis_angle.is_none() && y.relation.is_none(), "nothing but the rigid motion is set", || {
                format!("{y:?}")
            });
        });
        c.event();
    });
    ctx.family("collections", 600, 60_000, |rng, c| {
        let n = if c.idx % 50 == 17 { *rng.pick(&[257, 512, 1100]) } else { *rng.pick(&[0, 1, 2, 3, 7, 20, 100]) };
        c.desc(format!("{n} of each type"));
        c.sig((n, c.idx % 97));
        let pts: Vec<Vec<f64>> = (0..n).map(|_| trans(rng, 3).0).collect();
        let l2: Vec<VectorVar2> = pts.iter().map(|t| VectorVar2::new(d(t[0]), d(t[1]))).collect();
        let l3: Vec<VectorVar3> = pts.iter().map(|t| VectorVar3::new(d(t[0]), d(t[1]), d(t[2]))).collect();
        let s2: Vec<_> = (0..n).map(|_| se2(rng)).collect();
        let s3: Vec<_> = (0..n).map(|_| se3(rng)).collect();
        let a: Points2D = l2.iter().collect();
        same_list(c, "[VectorVar2] -> Points2D", &p2(&a), &pts.iter().map(|t| t[..2].to_vec()).collect::<Vec<_>>());
        let a: Points3D = l3.iter().collect();
        same_list(c, "[VectorVar3] -> Points3D", &p3(&a), &pts);
        let w2: Vec<(M, Vec<f64>)> = s2.iter().map(|s| (rot2(s.1[0]), s.1[1..].to_vec())).collect();
        let a: Points2D = s2.iter().map(|s| &s.0).collect();
        same_list(c, "[SE2] -> Points2D", &p2(&a), &w2.iter().map(|w| w.1.clone()).collect::<Vec<_>>());
        let a: Arrows2D = s2.iter().map(|s| &s.0).collect();
        arrows(c, "[SE2] -> Arrows2D", &a2(&a), &w2, 2, true);
        let w3: Vec<(M, Vec<f64>)> = s3.iter().map(|s| (quat_mat(s.1), s.2.clone())).collect();
        let a: Points3D = s3.iter().map(|s| &s.0).collect();
        same_list(c, "[SE3] -> Points3D", &p3(&a), &w3.iter().map(|w| w.1.clone()).collect::<Vec<_>>());
        let a: Arrows3D = s3.iter().map(|s| &s.0).collect();
        arrows(c, "[SE3] -> Arrows3D", &a3(&a), &w3, 3, true);
        // out of values, by type
        let mut vals = Values::new();
        let mut key = 0;
        let mut put = |v: &mut Values, a: Any| {
            a.insert(v, key);
            key += 1;
        };
        for i in 0..n {
            put(&mut vals, Any::V2(l2[i].clone()));
            put(&mut vals, Any::V3(l3[i].clone()));
            put(&mut vals, Any::SE2(s2[i].0.clone()));
            put(&mut vals, Any::SE3(s3[i].0.clone()));
            put(&mut vals, Any::rand_kind(rng, 0));
            put(&mut vals, Any::rand_kind(rng, 2));
            put(&mut vals, Any::rand_kind(rng, 4));
        }
        let f32s = |v: Vec<Vec<f64>>| sorted(v.iter().map(|x| x.iter().map(|y| *y as f32 as f64).collect()).collect());
        let a: Points2D = vals.filter::<VectorVar2>().collect();
        same_list(c, "values -> VectorVar2 points", &sorted(p2(&a)), &f32s(pts.iter().map(|t| t[..2].to_vec()).collect()));
        let a: Points3D = vals.filter::<VectorVar3>().collect();
        same_list(c, "values -> VectorVar3 points", &sorted(p3(&a)), &f32s(pts.clone()));
        let a: Points2D = vals.filter::<SE2>().collect();
        same_list(c, "values -> SE2 points", &sorted(p2(&a)), &f32s(w2.iter().map(|w| w.1.clone()).collect()));
        let a: Points3D = vals.filter::<SE3>().collect();
        same_list(c, "values -> SE3 points", &sorted(p3(&a)), &f32s(w3.iter().map(|w| w.1.clone()).collect()));
        let a: Arrows2D = vals.filter::<SE2>().collect();
        c.check(a.vectors.len() == 2 * n, "two axes per 2D pose", || format!("{} for {n}", a.vectors.len()));
        let a: Arrows3D = vals.filter::<SE3>().collect();
        c.check(a.vectors.len() == 3 * n, "three axes per 3D pose", || format!("{} for {n}", a.vectors.len()));
        c.event();
    });
    let mod2 = |r: &mut Rng| SE2::new(d(r.normal()), d(r.normal()), d(r.normal()));
    let mod3 = |r: &mut Rng| {
        let a = r.unit_vec(3);
        let ang = r.range(-1.5, 1.5);
        SE3::from_rot_trans(so3(qaxis(&a, ang)), nalgebra::Vector3::new(d(r.normal()), d(r.normal()), d(r.normal())))
    };
    let dir2 = |x: &SE2| cols(&{ let m = x.mat(); m.block(0, 0, 2, 2) }, 2);
    let dir3 = |x: &SE3| cols(&{ let m = x.mat(); m.block(0, 0, 3, 3) }, 3);
    observed!("VectorVar2 points", ctx, VectorVar2, Points2D, |r: &mut Rng| VectorVar2::new(d(r.normal()), d(r.normal())), Position2D, |p| v2(&p.0), |x: &VectorVar2| vec![vec![x[0] as f64, x[1] as f64]]);
    observed!("VectorVar3 points", ctx, VectorVar3, Points3D, |r: &mut Rng| VectorVar3::new(d(r.normal()), d(r.normal()), d(r.normal())), Position3D, |p| v3(&p.0), |x: &VectorVar3| vec![vec![x[0] as f64, x[1] as f64, x[2] as f64]]);
    observed!("SE2 points", ctx, SE2, Points2D, mod2, Position2D, |p| v2(&p.0), |x: &SE2| vec![vec![x.x() as f64, x.y() as f64]]);
    observed!("SE2 arrows", ctx, SE2, Arrows2D, mod2, Vector2D, |p| v2(&p.0), dir2);
    observed!("SE3 points", ctx, SE3, Points3D, mod3, Position3D, |p| v3(&p.0), |x: &SE3| vec![vec![x.xyz()[0] as f64, x.xyz()[1] as f64, x.xyz()[2] as f64]]);
    observed!("SE3 arrows", ctx, SE3, Arrows3D, mod3, Vector3D, |p| v3(&p.0), dir3);
    ctx.finish(
        "distinct by regime of the coordinates / collection size / observer mode",
        &["coordinates within the range of single precision", "the order of variables taken out of a container is unspecified and compared as a multiset"],
    )
}

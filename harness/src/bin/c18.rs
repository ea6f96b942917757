//! C18: Values behaves as a typed map over every history of operations.
//! A reference map (key -> last stored variable) is advanced with every operation on the real container and all of the
//! container's observers are compared with it; clones taken along the way must stay what they were.
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::linear::LinearValues;
use factrs::variables::*;
use harness::custom::Aff1;
use harness::mixed::*;
use harness::vars::*;
use harness::*;
use std::collections::BTreeMap;

assign_symbols!(
    P: SO2, SE2, SO3, SE3, ImuBias, VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, Aff1;
    Q: SO2, SE2, SO3, SE3, ImuBias, VectorVar1, VectorVar2, VectorVar3, VectorVar4, VectorVar5, VectorVar6, Aff1;
);

macro_rules! by_kind {
    ($kind:expr, $t:ident, $n:ident => $body:expr) => {
        match $kind {
            0 => { type $t = SO2; let $n: fn($t) -> Any = Any::SO2; $body }
            1 => { type $t = SE2; let $n: fn($t) -> Any = Any::SE2; $body }
            2 => { type $t = SO3; let $n: fn($t) -> Any = Any::SO3; $body }
            3 => { type $t = SE3; let $n: fn($t) -> Any = Any::SE3; $body }
            4 => { type $t = ImuBias; let $n: fn($t) -> Any = Any::Bias; $body }
            5 => { type $t = VectorVar1; let $n: fn($t) -> Any = Any::V1; $body }
            6 => { type $t = VectorVar2; let $n: fn($t) -> Any = Any::V2; $body }
            7 => { type $t = VectorVar3; let $n: fn($t) -> Any = Any::V3; $body }
            8 => { type $t = VectorVar4; let $n: fn($t) -> Any = Any::V4; $body }
            9 => { type $t = VectorVar5; let $n: fn($t) -> Any = Any::V5; $body }
            10 => { type $t = VectorVar6; let $n: fn($t) -> Any = Any::V6; $body }
            _ => { type $t = Aff1; let $n: fn($t) -> Any = Any::Custom; $body }
        }
    };
}

type Model = BTreeMap<u64, Any>;

fn same(a: &Any, b: &Any) -> bool {
    a.kind() == b.kind() && a.mat().d == b.mat().d
}

fn key(letter: char, i: u64) -> u64 {
    (letter as u64) << 32 | i
}

/// every observer of the container against the model
fn full(c: &mut Case, v: &Values, m: &Model, ctx: &str, text: bool) {
    let err = |w: &str| format!("{ctx}: {w}");
    c.check(v.len() == m.len() && v.is_empty() == m.is_empty(), "len/is_empty", || {
        err(&format!("len {} want {}", v.len(), m.len()))
    });
    let mut seen = BTreeMap::new();
    for (k, b) in v.iter() {
        *seen.entry(k.0).or_insert(0) += 1;
        let ok = match (m.get(&k.0), Any::from_box(b)) {
            (Some(a), Some(g)) => same(a, &g) && b.dim() == a.dim(),
            _ => false,
        };
        c.check(ok, "iter yields the last stored value of the key", || err(&format!("key {:#x}: {b:?}", k.0)));
        c.event();
    }
    c.check(seen.len() == m.len() && seen.values().all(|n| *n == 1), "iter lists every key exactly once", || {
        err(&format!("{seen:?}"))
    });
    for kind in 0..Any::KINDS.len() {
        let mut got: Vec<Vec<u64>> =
            by_kind!(kind, T, wrap => v.filter::<T>().map(|x| wrap(x.clone()).mat().d.iter().map(|x| x.to_bits()).collect()).collect());
        let mut want: Vec<Vec<u64>> = m
            .values()
            .filter(|a| a.kind() == Any::KINDS[kind])
            .map(|a| a.mat().d.iter().map(|x| x.to_bits()).collect())
            .collect();
        got.sort();
        want.sort();
        c.check(got == want, "filter yields exactly the variables of the type", || {
            err(&format!("{}: {} of {}", Any::KINDS[kind], got.len(), want.len()))
        });
    }
    if text {
        for (which, s) in [("{}", format!("{v}")), ("{:#}", format!("{v:#}")), ("{:?}", format!("{v:?}")), ("{:#?}", format!("{v:#?}"))] {
            for (k, _) in m {
                let t = format!("{:?}: ", DefaultSymbol::from(Key(*k)));
                let n = s.matches(&t).count();
                c.check(n == 1, "printing lists every entry exactly once", || err(&format!("{which}: {t:?} appears {n} times")));
            }
            for (k, b) in v.iter() {
                // the entry's text follows its own key
                let t = format!("{:?}: {:?}", DefaultSymbol::from(*k), b);
                c.check(s.contains(&t), "printing shows each key with its own value", || err(&format!("{which}: {t:?} missing in {s}")));
            }
        }
    }
}

fn history(rng: &mut Rng, c: &mut Case, nkeys: u64, ops: usize, text: bool) {
    let mut live: Vec<(Values, Model)> = vec![(if rng.coin(0.5) { Values::new() } else { Values::default() }, Model::new())];
    let mut trace = String::new();
    let mut sig: Vec<u8> = vec![];
    let mut most = 0;
    // indices over all 32 bits: consecutive, strided, or at the top of the range
    let stride = *rng.pick(&[1u64, 1, 257, 65536, 1 << 24]) % ((1 << 32) / nkeys.max(1)).max(2);
    let base = *rng.pick(&[0u64, 0, 65530, (1 << 31) - 2, u32::MAX as u64 - nkeys]);
    let spread = |i: u64| (base + i * stride.max(1)) & 0xffff_ffff;
    for step in 0..ops {
        let w = rng.below(live.len());
        let n = live.len();
        let (vals, model) = &mut live[w];
        let typed_p = rng.coin(0.5);
        let i = spread(rng.below(nkeys as usize) as u64);
        let k = key(if typed_p { 'p' } else { 'q' }, i);
        let kind = if rng.coin(0.5) && model.contains_key(&k) {
            Any::KINDS.iter().position(|s| *s == model[&k].kind()).unwrap()
        } else {
            rng.below(Any::KINDS.len())
        };
        // a large container stays large: fill first, empty it in bulk only rarely
        let mut op = rng.below(14);
        if nkeys >= 500 && (step < ops / 3 || (op == 13 && rng.coin(0.97))) {
            op = rng.below(3);
        }
        sig.push(op as u8);
        let at = format!("step {step} container {w} op {op} key {:?} kind {}", DefaultSymbol::from(Key(k)), Any::KINDS[kind]);
        if trace.len() < 3000 {
            trace += &format!("{w}:{op}:{}{i}:{kind} ", if typed_p { 'p' } else { 'q' });
        }
        c.event();
        let fresh = Any::rand_kind(rng, kind);
        match op {
            0 | 1 | 2 => {
                // insert: returns the previous value whatever its type
                let prev = by_kind!(kind, T, _wrap => {
                    let x: T = match Any::get_as(&fresh) { Some(x) => x, None => unreachable!() };
                    match (op, typed_p) {
                        (0, true) => vals.insert(P(i), x),
                        (0, false) => vals.insert(Q(i), x),
                        (1, true) => vals.insert_unchecked(P(i), x),
                        (1, false) => vals.insert_unchecked(DefaultSymbol::new('q', i), x),
                        _ => vals.insert_unchecked(Key(k), x),
                    }
                });
                let old = model.insert(k, fresh);
                let ok = match (&prev, &old) {
                    (None, None) => true,
                    (Some(b), Some(a)) => Any::from_box(b).map(|g| same(&g, a)).unwrap_or(false),
                    _ => false,
                };
                c.check(ok, "insert returns the previous value", || format!("{at}: {prev:?}"));
            }
            3 => {
                // entry: vacant inserts, occupied keeps / replaces / removes
                let had = model.contains_key(&k);
                let act = rng.below(4);
                let boxed = fresh.boxed();
                use std::collections::hash_map::Entry;
                let e = if typed_p { vals.entry(P(i)) } else { vals.entry(Key(k)) };
                c.check(matches!(e, Entry::Occupied(_)) == had, "entry is occupied iff the key is stored", || at.clone());
                c.check(e.key().0 == k, "entry carries its key", || at.clone());
                match e {
                    Entry::Vacant(v) => {
                        v.insert(boxed);
                        model.insert(k, fresh);
                    }
                    Entry::Occupied(mut o) => match act {
                        0 => {
                            let old = o.insert(boxed);
                            let want = model.insert(k, fresh).unwrap();
                            c.check(Any::from_box(&old).map(|g| same(&g, &want)).unwrap_or(false), "entry insert returns the old value", || at.clone());
                        }
                        1 => {
                            let old = o.remove();
                            let want = model.remove(&k).unwrap();
                            c.check(Any::from_box(&old).map(|g| same(&g, &want)).unwrap_or(false), "entry remove returns the value", || at.clone());
                        }
                        _ => {
                            let ok = Any::from_box(o.get()).map(|g| same(&g, &model[&k])).unwrap_or(false);
                            c.check(ok, "entry shows the stored value", || at.clone());
                        }
                    },
                }
            }
            4 | 5 => {
                // typed reads: the value when stored with this type, none otherwise
                let got: Option<Any> = by_kind!(kind, T, wrap => match (op, typed_p) {
                    (4, true) => vals.get::<_, T>(P(i)).cloned().map(wrap),
                    (4, false) => vals.get::<_, T>(Q(i)).cloned().map(wrap),
                    (_, true) => vals.get_unchecked::<_, T>(P(i)).cloned().map(wrap),
                    (_, false) => vals.get_unchecked::<_, T>(Key(k)).cloned().map(wrap),
                });
                let want = model.get(&k).filter(|a| a.kind() == Any::KINDS[kind]);
                let ok = match (&got, want) {
                    (None, None) => true,
                    (Some(g), Some(a)) => same(g, a),
                    _ => false,
                };
                c.check(ok, "typed read returns the stored value only as its own type", || {
                    format!("{at}: got {:?} want {:?}", got.map(|g| g.mat()), want.map(|g| g.mat()))
                });
            }
            6 | 7 => {
                // mutable access: writes go to this entry only
                let hit = by_kind!(kind, T, wrap => {
                    let x: T = Any::get_as(&fresh).unwrap();
                    let r: Option<&mut T> = match (op, typed_p) {
                        (6, true) => vals.get_mut(P(i)),
                        (6, false) => vals.get_mut(Q(i)),
                        (_, true) => vals.get_unchecked_mut(P(i)),
                        (_, false) => vals.get_unchecked_mut(Key(k)),
                    };
                    match r {
                        None => None,
                        Some(r) => { let old = wrap(r.clone()); *r = x; Some(old) }
                    }
                });
                let want = model.get(&k).filter(|a| a.kind() == Any::KINDS[kind]).cloned();
                let ok = match (&hit, &want) {
                    (None, None) => true,
                    (Some(g), Some(a)) => same(g, a),
                    _ => false,
                };
                c.check(ok, "typed mutable read reaches the stored value only as its own type", || at.clone());
                if want.is_some() {
                    model.insert(k, fresh);
                }
            }
            8 | 9 => {
                // remove
                let had = model.get(&k).cloned();
                let right = had.as_ref().map(|a| a.kind() == Any::KINDS[kind]).unwrap_or(false);
                let got: Option<Any> = by_kind!(kind, T, wrap => if typed_p { vals.remove::<_, T>(P(i)).map(wrap) } else { vals.remove::<_, T>(Q(i)).map(wrap) });
                if right {
                    let want = model.remove(&k).unwrap();
                    c.check(got.as_ref().map(|g| same(g, &want)).unwrap_or(false), "remove returns the stored value", || at.clone());
                } else {
                    c.check(got.is_none(), "remove of an absent key or another type returns none", || at.clone());
                    // whether a mistyped removal drops the entry is not specified; follow the container
                    if had.is_some() && vals.iter().all(|(q, _)| q.0 != k) {
                        model.remove(&k);
                        c.count("mistyped removals that dropped the entry", 1);
                    }
                }
            }
            10 => {
                // clones are independent from here on
                if n < 4 {
                    let cl = (vals.clone(), model.clone());
                    live.push(cl);
                } else {
                    let cl = (vals.clone(), model.clone());
                    let t = rng.below(n);
                    live[t] = cl;
                }
            }
            11 => {
                // update through linear values laid out from another container
                let s = rng.below(n);
                let (sv, sm) = live[s].clone();
                let sub: Vec<u64> = sm.keys().copied().collect();
                let dimsum: usize = sm.values().map(|a| a.dim()).sum();
                // only shared keys of equal dimension may be addressed
                let ok = live[w].1.iter().all(|(k, a)| sm.get(k).map(|b| b.dim() == a.dim()).unwrap_or(true));
                if ok && !sub.is_empty() {
                    let x: Vec<f64> = (0..dimsum).map(|_| if rng.coin(0.3) { 0.0 } else { rng.range(-0.5, 0.5) }).collect();
                    let lin = LinearValues::from_values_and_vector(&sv, vx(&x));
                    let blocks: Vec<(u64, Vec<f64>)> = sub.iter().map(|k| (*k, lin.get(Key(*k)).unwrap().iter().map(|x| *x as f64).collect())).collect();
                    live[w].0.oplus_mut(&lin);
                    for (k, xi) in blocks {
                        let want = match live[w].1.get(&k) {
                            None => continue,
                            Some(a) => a.oplus(&xi),
                        };
                        let got = want.get(&live[w].0, k);
                        let ok = got.as_ref().map(|g| g.mat().sub(&want.mat()).max_abs() <= 1e-9 * (1.0 + want.mat().max_abs())).unwrap_or(false);
                        c.check(ok, "update moves each addressed variable by its own block", || format!("{at}: key {k:#x}"));
                        live[w].1.insert(k, got.unwrap_or(want));
                        c.event();
                    }
                }
            }
            12 => {
                // consume a clone by value
                let mut seen = 0;
                let mut ks = std::collections::BTreeSet::new();
                for (q, b) in vals.clone() {
                    seen += 1;
                    ks.insert(q.0);
                    let ok = match (model.get(&q.0), Any::from_box(&b)) {
                        (Some(a), Some(g)) => same(a, &g),
                        _ => false,
                    };
                    c.check(ok, "into_iter yields the stored values", || at.clone());
                }
                c.check(seen == model.len() && ks.len() == seen, "into_iter lists every key exactly once", || at.clone());
            }
            _ => {
                // drop everything of a range of keys, one by one, through the stored type
                let ks: Vec<u64> = model.keys().copied().collect();
                for q in ks {
                    if rng.coin(0.7) {
                        continue;
                    }
                    let kd = Any::KINDS.iter().position(|s| *s == model[&q].kind()).unwrap();
                    let idx = q & 0xffff_ffff;
                    let got: Option<Any> = by_kind!(kd, T, wrap => if q >> 32 == 'p' as u64 { vals.remove::<_, T>(P(idx)).map(wrap) } else { vals.remove::<_, T>(Q(idx)).map(wrap) });
                    let want = model.remove(&q).unwrap();
                    c.check(got.map(|g| same(&g, &want)).unwrap_or(false), "remove returns the stored value", || format!("{at} bulk {q:#x}"));
                }
            }
        }
        most = most.max(live[w].1.len());
        // every container that exists, not only the one touched
        if (step % 4 == 0 && nkeys < 500) || step % 64 == 0 || nkeys < 6 {
            for (j, (v, m)) in live.iter().enumerate() {
                full(c, v, m, &format!("{at}, container {j}"), text && step % 8 == 0);
            }
        }
        if c.failed() {
            break;
        }
    }
    c.count(&format!("histories reaching {} entries", [0, 10, 100, 1000].iter().filter(|n| most >= **n).last().unwrap()), 1);
    for (j, (v, m)) in live.iter().enumerate() {
        full(c, v, m, &format!("end, container {j}"), text);
    }
    c.desc(trace);
    c.sig((nkeys, sig));
}

fn main() {
    let ctx = Ctx::from_env("C18");
    ctx.family("history/few keys", 3000, 60000, |rng, c| {
        let nk = rng.int(1, 5) as u64;
        let ops = rng.int(5, 60);
        history(rng, c, nk, ops, true)
    });
    ctx.family("history/many keys", 300, 6000, |rng, c| {
        let nk = rng.int(10, 60) as u64;
        let ops = rng.int(100, 400);
        history(rng, c, nk, ops, true)
    });
    ctx.family("history/huge", 4, 40, |rng, c| {
        let nk = rng.int(500, 2000) as u64;
        history(rng, c, nk, 8000, false)
    });
    // arbitrary 64-bit keys and large fills
    ctx.family("keys/any", 400, 8000, |rng, c| {
        let n = rng.int(0, 200);
        let (vals, model) = rand_values(rng, n);
        let m: Model = model.into_iter().collect();
        c.sig((n, m.keys().next().copied()));
        full(c, &vals, &m, "any keys", false);
        let cl = vals.clone();
        drop(vals);
        full(c, &cl, &m, "clone after drop", false);
        for (k, a) in &m {
            c.check(a.get(&cl, *k).map(|g| same(&g, a)).unwrap_or(false), "read by raw key", || format!("{k:#x}"));
        }
        for _ in 0..20 {
            let k = rand_key(rng);
            if !m.contains_key(&k) {
                c.check(cl.get_unchecked::<_, SE3>(Key(k)).is_none() && cl.iter().all(|(q, _)| q.0 != k), "an unknown key reads as none", || format!("{k:#x}"));
            }
        }
    });
    ctx.finish(
        "random histories of every Values operation (typed symbols, raw keys, entries, clones, linear updates) against a reference map advanced in lock step; signature = operation sequence",
        &["a removal asked with another type may or may not drop the entry (not specified); either is followed"],
    );
}

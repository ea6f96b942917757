//! C27: variable orderings partition the update vector exactly, and linear values read every entry of it at its own key.
//! Vectors carry unique entries, so which entries come back under which key shows exactly how the vector was cut.
use ahash::HashMap;
use factrs::containers::{DefaultSymbol, Idx, Key, Values, ValuesOrder};
use factrs::linear::LinearValues;
use factrs::symbols::{L, X};
use harness::mixed::*;
use harness::vars::*;
use harness::*;
use std::collections::BTreeMap;

/// key -> (first row, dim)
type Slots = BTreeMap<u64, (usize, usize)>;

fn slots_of(o: &ValuesOrder) -> Vec<(u64, usize, usize)> {
    o.iter().map(|(k, i)| (k.0, i.idx, i.dim)).collect()
}

/// the ordering against the dimensions every key must have; returns its slots
fn order_ok(c: &mut Case, what: &str, o: &ValuesOrder, dims: &BTreeMap<u64, usize>) -> Slots {
    let total: usize = dims.values().sum();
    c.check(o.len() == dims.len() && o.is_empty() == dims.is_empty(), &format!("{what}: number of variables"), || {
        format!("len {} is_empty {} want {}", o.len(), o.is_empty(), dims.len())
    });
    c.check(o.dim() == total, &format!("{what}: total dimension"), || format!("{} want {total}", o.dim()));
    let mut slots = Slots::new();
    let mut owner = vec![None; total];
    for (k, at, n) in slots_of(o) {
        c.event();
        c.check(slots.insert(k, (at, n)).is_none(), &format!("{what}: listed once"), || format!("key {k:#x} twice"));
        c.check(dims.get(&k) == Some(&n), &format!("{what}: width of a slot"), || format!("key {k:#x} has {n} rows want {:?}", dims.get(&k)));
        for r in at..at + n {
            let free = r < total && owner[r].is_none();
            if !c.check(free, &format!("{what}: slots are disjoint and inside"), || {
                format!("key {k:#x} claims row {r} of {total}, held by {:?}", owner.get(r))
            }) {
                break;
            }
            owner[r] = Some(k);
        }
    }
    c.check(owner.iter().all(|x| x.is_some()), &format!("{what}: slots cover the vector"), || {
        format!("row {:?} of {total} belongs to nobody", owner.iter().position(|x| x.is_none()))
    });
    for (k, n) in dims {
        let g = o.get(Key(*k)).map(|i| (i.idx, i.dim));
        c.check(g.is_some() && g == slots.get(k).copied(), &format!("{what}: lookup"), || {
            format!("key {k:#x} (dim {n}): get {g:?}, iteration {:?}", slots.get(k))
        });
    }
    slots
}

fn linear_ok(c: &mut Case, rng: &mut Rng, what: &str, l: &LinearValues, slots: &Slots, vec: &[f64]) {
    c.check(l.len() == slots.len() && l.is_empty() == slots.is_empty() && l.dim() == vec.len(), &format!("{what}: sizes"), || {
        format!("len {} dim {} want {} {}", l.len(), l.dim(), slots.len(), vec.len())
    });
    let mut seen = BTreeMap::new();
    for (k, v) in l.iter() {
        c.event();
        *seen.entry(k.0).or_insert(0) += 1;
        let got: Vec<f64> = v.iter().map(|x| *x as f64).collect();
        let want = slots.get(&k.0).map(|(a, n)| &vec[*a..*a + *n]);
        c.check(want == Some(&got[..]), &format!("{what}: iteration"), || format!("key {:#x}: {got:?} want {want:?}", k.0));
    }
    c.check(seen.len() == slots.len() && seen.values().all(|n| *n == 1), &format!("{what}: iterates every key once"), || {
        format!("{seen:?} for {slots:?}")
    });
    for (k, (a, n)) in slots {
        let got = l.get(Key(*k)).map(|v| v.iter().map(|x| *x as f64).collect::<Vec<_>>());
        c.check(got.as_deref() == Some(&vec[*a..*a + *n]), &format!("{what}: lookup"), || format!("key {k:#x}: {got:?} want {:?}", &vec[*a..*a + *n]));
    }
    for _ in 0..3 {
        let k = rand_key(rng);
        if !slots.contains_key(&k) {
            c.check(l.get(Key(k)).is_none(), &format!("{what}: unknown key"), || format!("key {k:#x} has something"));
        }
    }
}

fn ids(n: usize) -> Vec<f64> {
    (0..n).map(|i| (i + 1) as f64).collect()
}
fn bad_len(rng: &mut Rng, n: usize) -> usize {
    loop {
        let m = match rng.below(6) {
            0 => n + 1,
            1 => n.saturating_sub(1),
            2 => 0,
            3 => n * 2,
            4 => n + rng.int(1, 50),
            _ => rng.below(2 * n + 3),
        };
        if m != n {
            return m;
        }
    }
}

fn main() {
    let ctx = Ctx::from_env("C27");
    ctx.family("histories", 20000, 400_000, |rng, c| {
        let mut vals = Values::new();
        let mut dims: BTreeMap<u64, usize> = BTreeMap::new();
        let steps = *rng.pick(&[0, 1, 3, 10, 40, 120]);
        let pool: Vec<u64> = (0..rng.int(1, 60)).map(|_| rand_key(rng)).collect();
        let mut overwritten = 0;
        for _ in 0..steps {
            let k = *rng.pick(&pool);
            match rng.below(8) {
                0 => {
                    if let std::collections::hash_map::Entry::Occupied(e) = vals.entry(Key(k)) {
                        e.remove();
                    }
                    dims.remove(&k);
                }
                1 => {
                    let a = Any::rand(rng);
                    vals.entry(Key(k)).or_insert_with(|| a.boxed());
                    dims.entry(k).or_insert(a.dim());
                }
                2 => vals = vals.clone(),
                3 => {
                    let n = insert_wide(rng, &mut vals, k);
                    c.count("unusual widths", 1);
                    if dims.insert(k, n).is_some_and(|o| o != n) {
                        overwritten += 1;
                    }
                }
                _ => {
                    let a = Any::rand(rng);
                    a.insert(&mut vals, k);
                    if dims.insert(k, a.dim()).is_some_and(|o| o != a.dim()) {
                        overwritten += 1;
                    }
                }
            }
        }
        c.desc(format!("{steps} steps -> {dims:?}"));
        let shape: Vec<usize> = dims.values().copied().collect();
        c.sig(shape);
        c.count("overwritten with another width", overwritten);
        let o = ValuesOrder::from_values(&vals);
        let slots = order_ok(c, "ordering of values", &o, &dims);
        if c.failed() {
            return;
        }
        let n: usize = dims.values().sum();
        let again = ValuesOrder::from_values(&vals);
        let s2: Slots = slots_of(&again).iter().map(|x| (x.0, (x.1, x.2))).collect();
        c.check(s2 == slots, "the ordering of unchanged values is reproducible", || format!("{slots:?} then {s2:?}"));
        let oc = o.clone();
        let sc = order_ok(c, "clone of an ordering", &oc, &dims);
        c.check(sc == slots, "a clone is the same ordering", || format!("{slots:?} {sc:?}"));
        let vec = ids(n);
        linear_ok(c, rng, "from ordering and vector", &LinearValues::from_order_and_vector(o.clone(), vx(&vec)), &slots, &vec);
        linear_ok(c, rng, "from values and vector", &LinearValues::from_values_and_vector(&vals, vx(&vec)), &slots, &vec);
        let z = vec![0.0; n];
        linear_ok(c, rng, "zero from ordering", &LinearValues::zero_from_order(o.clone()), &slots, &z);
        linear_ok(c, rng, "zero from values", &LinearValues::zero_from_values(&vals), &slots, &z);
        let m = bad_len(rng, n);
        c.panics("a vector of the wrong length is refused with an ordering", || LinearValues::from_order_and_vector(o.clone(), vx(&ids(m))));
        c.panics("a vector of the wrong length is refused with values", || LinearValues::from_values_and_vector(&vals, vx(&ids(m))));
        c.count("variables ordered", dims.len() as u64);
    });
    ctx.family("explicit orderings", 2000, 200_000, |rng, c| {
        // a hand-made ordering: any keys, any widths, laid out in any order
        let n = *rng.pick(&[0, 1, 2, 3, 8, 30]);
        let mut keys: Vec<u64> = vec![];
        while keys.len() < n {
            let k = rand_key(rng);
            if !keys.contains(&k) {
                keys.push(k);
            }
        }
        rng.shuffle(&mut keys);
        let mut map: HashMap<Key, Idx> = HashMap::default();
        let (mut at, mut dims, mut want) = (0, BTreeMap::new(), Slots::new());
        for k in &keys {
            let dim = if rng.coin(0.1) { rng.below(100) } else { rng.int(1, 12) };
            map.insert(Key(*k), Idx { idx: at, dim });
            dims.insert(*k, dim);
            want.insert(*k, (at, dim));
            at += dim;
        }
        c.desc(format!("{want:?}"));
        c.sig(dims.values().copied().collect::<Vec<_>>());
        let o = ValuesOrder::new(map);
        let slots = order_ok(c, "explicit ordering", &o, &dims);
        c.check(slots == want, "an explicit ordering is kept as given", || format!("{slots:?} want {want:?}"));
        let vec = ids(at);
        linear_ok(c, rng, "from explicit ordering", &LinearValues::from_order_and_vector(o.clone(), vx(&vec)), &want, &vec);
        linear_ok(c, rng, "zero from explicit ordering", &LinearValues::zero_from_order(o.clone()), &want, &vec![0.0; at]);
        let m = bad_len(rng, at);
        c.panics("a vector of the wrong length is refused", || LinearValues::from_order_and_vector(o.clone(), vx(&ids(m))));
    });
    ctx.family("symbols", 400, 20_000, |rng, c| {
        let mut vals = Values::new();
        let n = rng.int(1, 30) as u64;
        let mut dims = BTreeMap::new();
        for i in 0..n {
            let (a, b) = (Any::rand(rng), Any::rand(rng));
            a.insert(&mut vals, Key::from(X(i)).0);
            b.insert(&mut vals, Key::from(L(i)).0);
            dims.insert(Key::from(X(i)).0, a.dim());
            dims.insert(Key::from(L(i)).0, b.dim());
        }
        c.sig((n, dims.values().copied().collect::<Vec<_>>()));
        let o = ValuesOrder::from_values(&vals);
        let slots = order_ok(c, "ordering with symbols", &o, &dims);
        let l = LinearValues::from_order_and_vector(o.clone(), vx(&ids(o.dim())));
        for i in 0..n {
            let kx = Key::from(X(i)).0;
            let w = slots.get(&kx).copied();
            let a = o.get(X(i)).map(|s| (s.idx, s.dim));
            let b = o.get(DefaultSymbol::new('x', i)).map(|s| (s.idx, s.dim));
            c.check(a == w && b == w && w.is_some(), "every way of naming a key finds its slot", || format!("x{i}: {a:?} {b:?} {w:?}"));
            let first = |v: Option<factrs::linalg::VectorViewX<'_>>| v.map(|v| v[0] as f64);
            let e = w.map(|w| w.0 as f64 + 1.0);
            let (p, q) = (first(l.get(X(i))), first(l.get(DefaultSymbol::new('x', i))));
            c.check(p == e && q == e, "every way of naming a key finds its part", || format!("x{i}: {p:?} {q:?} {e:?}"));
        }
        c.check(o.get(X(n)).is_none() && l.get(X(n)).is_none() && l.get(L(n + 7)).is_none(), "unknown symbols have no slot", || format!("{n}"));
        c.event();
    });
    ctx.family("many variables", 6, 60, |rng, c| {
        let mut vals = Values::new();
        let mut dims = BTreeMap::new();
        let n = if c.idx == 0 && ctx.scale >= 1.0 { 70_000 } else { rng.int(2000, 20000) as u64 };
        for i in 0..n {
            let a = Any::rand(rng);
            a.insert(&mut vals, i * 7919);
            dims.insert(i * 7919, a.dim());
        }
        c.sig(n);
        let o = ValuesOrder::from_values(&vals);
        let slots = order_ok(c, "large ordering", &o, &dims);
        let vec = ids(o.dim());
        linear_ok(c, rng, "large", &LinearValues::from_order_and_vector(o, vx(&vec)), &slots, &vec);
    });
    ctx.finish(
        "distinct by the sequence of widths in key order",
        &["hand-made orderings given to ValuesOrder::new are contiguous partitions (anything else is the caller's mistake)"],
    )
}

//! C19: symbols map to keys injectively and print back as themselves.
//! The first part walks every Unicode scalar value; the oracle is the set of keys already handed out and the text of the symbol.
use factrs::assign_symbols;
use factrs::containers::*;
use factrs::linear::LinearValues;
use factrs::residuals::{BetweenResidual, PriorResidual};
use factrs::symbols as sy;
use factrs::variables::*;
use harness::mixed::rand_key;
use harness::*;
use std::collections::{HashMap, HashSet};

assign_symbols!(X: SO2; Lm: SE2, SO3; Pose3: SE3; Ω: VectorVar2; Éa: VectorVar1; Zz9: VectorVar3; Б: ImuBias);

fn k(s: impl Into<Key>) -> u64 {
    s.into().0
}

/// the letter and the index a printed symbol shows
fn parse(s: &str) -> Option<(char, u64)> {
    let s = s.strip_prefix('(')?.strip_suffix(')')?;
    let c = s.chars().next()?;
    let i = s[c.len_utf8()..].strip_prefix(", ")?;
    Some((c, i.parse().ok()?))
}

fn rand_char(rng: &mut Rng) -> char {
    loop {
        let v = match rng.below(6) {
            0 => rng.range(97.0, 123.0) as u32,
            1 => rng.below(128) as u32,
            2 => rng.below(0x800) as u32,
            3 => rng.below(0x10000) as u32,
            4 => *rng.pick(&[0, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]),
            _ => rng.below(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}
fn rand_idx(rng: &mut Rng) -> u64 {
    match rng.below(5) {
        0 => rng.below(10) as u64,
        1 => rng.below(100000) as u64,
        2 => 1u64 << rng.below(32),
        3 => (1u64 << rng.int(1, 32)) - 1,
        _ => rng.u64() & 0xffff_ffff,
    }
}

fn roundtrip(c: &mut Case, ch: char, i: u64) -> u64 {
    let key = k(DefaultSymbol::new(ch, i));
    let txt = format!("{:?}", DefaultSymbol::from(Key(key)));
    c.check(txt == format!("{:?}", DefaultSymbol::new(ch, i)), "key decodes to the symbol it came from", || {
        format!("({ch:?} {i}) -> {key:#x} -> {txt}")
    });
    c.check(parse(&txt) == Some((ch, i)), "a symbol prints its letter and index", || format!("({ch:?} {i}) prints {txt}"));
    c.check(k(DefaultSymbol::from(Key(key))) == key && k(DefaultSymbol::new(ch, i)) == key, "the same symbol always has the same key", || {
        format!("{ch:?} {i}")
    });
    c.event();
    key
}

macro_rules! predefined {
    ($c:ident, $i:expr, $($s:ident),*) => {{
        let mut v: Vec<(char, u64, String)> = vec![];
        $( v.push((stringify!($s).to_lowercase().chars().next().unwrap(), k(sy::$s($i)), format!("{:?}", sy::$s($i)))); )*
        v
    }};
}

fn main() {
    let ctx = Ctx::from_env("C19");
    // every character there is, in 64 chunks
    ctx.family_n("every character", 68, |rng, c| {
        let n = 0x110000u32 / 68 + 1;
        let lo = c.idx as u32 * n;
        let mut keys = HashSet::new();
        c.sig(c.idx);
        c.desc(format!("U+{lo:X}..U+{:X}", (lo + n).min(0x110000)));
        for v in lo..(lo + n).min(0x110000) {
            if let Some(ch) = char::from_u32(v) {
                for i in [0, rand_idx(rng)] {
                    let key = roundtrip(c, ch, i);
                    keys.insert(key);
                    if i != 0 {
                        c.check(key != k(DefaultSymbol::new(ch, 0)), "indices are distinguished", || format!("{ch:?} {i}"));
                    }
                }
            }
            if c.failed() {
                return;
            }
        }
        let chars = (lo..(lo + n).min(0x110000)).filter(|v| char::from_u32(*v).is_some()).count();
        c.check(keys.len() >= chars, "characters never share a key", || format!("{} keys for {chars} characters", keys.len()));
    });
    // injectivity over mixed populations
    ctx.family("population", 60, 1200, |rng, c| {
        let mut seen: HashMap<u64, (char, u64)> = HashMap::new();
        let chars: Vec<char> = (0..20).map(|_| rand_char(rng)).collect();
        for _ in 0..5000 {
            let ch = if rng.coin(0.7) { *rng.pick(&chars) } else { rand_char(rng) };
            let i = rand_idx(rng);
            let key = roundtrip(c, ch, i);
            if let Some(o) = seen.insert(key, (ch, i)) {
                c.check(o == (ch, i), "distinct symbols have distinct keys", || format!("{o:?} and {:?} both {key:#x}", (ch, i)));
            }
        }
        c.sig(chars);
    });
    // neighbouring symbols: one bit of the index or one code point apart
    ctx.family("neighbours", 4000, 100000, |rng, c| {
        let ch = rand_char(rng);
        let i = rand_idx(rng);
        let key = k(DefaultSymbol::new(ch, i));
        c.sig((ch, i));
        c.desc(format!("{ch:?} {i}"));
        for b in 0..32 {
            c.check(k(DefaultSymbol::new(ch, i ^ (1 << b))) != key, "one index bit apart", || format!("{ch:?} {i} bit {b}"));
        }
        for b in 0..21 {
            if let Some(o) = char::from_u32(ch as u32 ^ (1 << b)) {
                c.check(k(DefaultSymbol::new(o, i)) != key, "one character bit apart", || format!("{ch:?}/{o:?} {i}"));
                c.check(k(DefaultSymbol::new(o, i)) != k(DefaultSymbol::new(ch, 0)) || i == 0, "character and index do not mix", || String::new());
            }
        }
    });
    ctx.family("macro", 3000, 60000, |rng, c| {
        let i = rand_idx(rng);
        c.sig(i);
        c.desc(format!("index {i}"));
        let v = predefined!(c, i, A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z);
        let mut u = v.clone();
        u.push(('x', k(X(i)), format!("{:?}", X(i))));
        u.push(('l', k(Lm(i)), format!("{:?}", Lm(i))));
        u.push(('p', k(Pose3(i)), format!("{:?}", Pose3(i))));
        u.push(('ω', k(Ω(i)), format!("{:?}", Ω(i))));
        u.push(('é', k(Éa(i)), format!("{:?}", Éa(i))));
        u.push(('z', k(Zz9(i)), format!("{:?}", Zz9(i))));
        u.push(('б', k(Б(i)), format!("{:?}", Б(i))));
        for (ch, key, txt) in &u {
            c.check(*key == k(DefaultSymbol::new(*ch, i)), "macro symbols use the lower-cased first letter of their name", || {
                format!("{ch} {i}: {key:#x}")
            });
            c.check(parse(txt) == Some((*ch, i)), "macro symbols print letter and index", || format!("{ch} {i}: {txt}"));
            c.check(*txt == format!("{:?}", DefaultSymbol::from(Key(*key))), "printing agrees with the decoded key", || txt.clone());
            c.event();
        }
        let set: HashSet<u64> = v.iter().map(|t| t.1).collect();
        c.check(set.len() == 26, "the predefined symbols differ", || format!("{}", set.len()));
    });
    // the same symbol is the same key wherever a key is accepted
    ctx.family("everywhere", 3000, 60000, |rng, c| {
        let i = rand_idx(rng);
        let j = loop {
            let j = rand_idx(rng);
            if j != i {
                break j;
            }
        };
        c.sig((i, j));
        c.desc(format!("indices {i} {j}"));
        let (a, b) = (SO2::from_theta(rng.range(-3.0, 3.0) as factrs::dtype), SO2::from_theta(rng.range(-3.0, 3.0) as factrs::dtype));
        let mut v = Values::new();
        let (raw, raw2) = (k(DefaultSymbol::new('x', i)), k(DefaultSymbol::new('x', j)));
        match rng.below(3) {
            0 => drop(v.insert(X(i), a.clone())),
            1 => drop(v.insert_unchecked(Key(raw), a.clone())),
            _ => drop(v.insert_unchecked(DefaultSymbol::new('x', i), a.clone())),
        }
        c.check(v.get(X(j)).is_none(), "another index is another key", || String::new());
        v.insert_unchecked(sy::X(j), b.clone());
        let th = a.log()[0];
        for (how, g) in [
            ("typed", v.get(X(i)).map(|x| x.log()[0])),
            ("predefined", v.get_unchecked::<_, SO2>(sy::X(i)).map(|x| x.log()[0])),
            ("raw", v.get_unchecked::<_, SO2>(Key(raw)).map(|x| x.log()[0])),
            ("default", v.get_unchecked::<_, SO2>(DefaultSymbol::new('x', i)).map(|x| x.log()[0])),
            ("mut", v.clone().get_mut(X(i)).map(|x| x.log()[0])),
            ("iter", v.iter().find(|(q, _)| q.0 == raw).and_then(|(_, x)| x.downcast_ref::<SO2>()).map(|x| x.log()[0])),
            ("removed", v.clone().remove(X(i)).map(|x: SO2| x.log()[0])),
        ] {
            c.check(g == Some(th), "the symbol addresses the entry stored under it", || format!("{how}: {g:?}"));
        }
        c.check(v.len() == 2, "two symbols, two entries", || format!("{}", v.len()));
        let f = FactorBuilder::new1(PriorResidual::new(a.clone()), X(i)).build();
        c.check(f.keys() == [Key(raw)], "factor keys", || format!("{:?}", f.keys()));
        let f = FactorBuilder::new2(BetweenResidual::new(a.clone()), X(i), X(j)).build();
        c.check(f.keys() == [Key(raw), Key(raw2)], "factor keys in order", || format!("{:?}", f.keys()));
        let f = factrs::fac![BetweenResidual::new(a.clone()), (X(j), X(i))];
        c.check(f.keys() == [Key(raw2), Key(raw)], "fac! keys in order", || format!("{:?}", f.keys()));
        let f = FactorBuilder::new2_unchecked(BetweenResidual::new(a), sy::X(i), Key(raw2)).build();
        c.check(f.keys() == [Key(raw), Key(raw2)], "untyped factor keys", || format!("{:?}", f.keys()));
        let o = ValuesOrder::from_values(&v);
        let at = |q: Option<&Idx>| q.map(|x| (x.idx, x.dim));
        c.check(at(o.get(X(i))) == at(o.get(Key(raw))) && at(o.get(X(i))).is_some() && at(o.get(X(i))) != at(o.get(X(j))), "ordering", || {
            format!("{o:?}")
        });
        let l = LinearValues::from_values_and_vector(&v, vars::vx(&[1.0, 2.0]));
        c.check(l.get(X(i)).map(|x| x[0]) == l.get(Key(raw)).map(|x| x[0]) && l.get(X(i)).is_some(), "linear values", || String::new());
        c.check(l.get(sy::Y(i)).is_none() && o.get(sy::Y(i)).is_none() && v.get_unchecked::<_, SO2>(sy::Y(i)).is_none(), "another letter is another key", || String::new());
    });
    // raw keys keep all their bits
    ctx.family("raw keys", 3000, 60000, |rng, c| {
        let a = rand_key(rng);
        let bit = rng.below(64);
        let b = a ^ (1 << bit);
        c.sig((a, bit));
        c.desc(format!("{a:#x} bit {bit}"));
        c.check(k(Key(a)) == a, "a raw key keeps its value", || format!("{a:#x}"));
        let mut v = Values::new();
        c.check(v.insert_unchecked(Key(a), VectorVar1::new(1.0)).is_none(), "fresh", || String::new());
        c.check(v.insert_unchecked(Key(b), VectorVar2::new(2.0, 3.0)).is_none(), "keys one bit apart are different", || format!("{a:#x} bit {bit}"));
        c.check(v.get_unchecked::<_, VectorVar1>(Key(a)).map(|x| x[0]) == Some(1.0), "first entry", || String::new());
        c.check(v.get_unchecked::<_, VectorVar2>(Key(b)).map(|x| x[1]) == Some(3.0), "second entry", || String::new());
        let f = FactorBuilder::new2_unchecked(BetweenResidual::new(VectorVar1::new(0.0)), Key(a), Key(b)).build();
        c.check(f.keys() == [Key(a), Key(b)], "factor keys keep all bits", || format!("{:?}", f.keys()));
        let o = ValuesOrder::from_values(&v);
        c.check(o.get(Key(a)).map(|x| x.dim) == Some(1) && o.get(Key(b)).map(|x| x.dim) == Some(2) && o.len() == 2, "ordering keeps all bits", || format!("{o:?}"));
        let l = LinearValues::zero_from_order(o);
        c.check(l.get(Key(a)).map(|x| x.len()) == Some(1) && l.get(Key(b)).map(|x| x.len()) == Some(2), "linear values keep all bits", || String::new());
        // a key equals itself and no key one bit away, and a container keeps them all apart
        let mut v = Values::new();
        let near: Vec<u64> = std::iter::once(a).chain((0..64).map(|b| a ^ (1 << b))).collect();
        for (i, q) in near.iter().enumerate() {
            c.check((Key(*q) == Key(a)) == (i == 0) && Key(*q) == Key(*q), "keys compare by all their bits", || format!("{a:#x} {q:#x}"));
            c.check(v.insert_unchecked(Key(*q), VectorVar1::new(i as factrs::dtype)).is_none(), "keys one bit apart are different", || format!("{a:#x} {q:#x}"));
        }
        let ok = near.iter().enumerate().all(|(i, q)| v.get_unchecked::<_, VectorVar1>(Key(*q)).map(|x| x[0]) == Some(i as factrs::dtype));
        c.check(ok && v.len() == 65, "every one of them keeps its entry", || format!("{a:#x}"));
        // decoding any 64-bit key never fails
        let _ = format!("{:?}", DefaultSymbol::from(Key(rng.u64())));
    });
    ctx.finish(
        "every Unicode scalar value plus random letters/indices through every key-accepting interface; oracle = set of keys handed out and the symbol's own text",
        &["symbol indices below 2^32 (the statement's range)"],
    );
}

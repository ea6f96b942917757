//! Case runner, oracle assertions and result recording.
use crate::la::M;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub idx: u64,
    pub label: String,
    pub detail: String,
    pub desc: String,
}

pub struct Case {
    pub family: String,
    pub idx: u64,
    pub thorough: bool,
    desc: String,
    sig: Option<u64>,
    checks: u64,
    events: u64,
    fails: Vec<(String, String)>,
    counters: BTreeMap<String, u64>,
    skipped: bool,
}

impl Case {
    /// What the input of this case is (written to samples and replay files).
    pub fn desc(&mut self, s: impl Into<String>) {
        self.desc = s.into();
    }
    /// Marks the case non-trivial, with the signature by which distinctness is counted.
    pub fn sig<T: std::hash::Hash>(&mut self, t: T) {
        use std::hash::Hasher;
        struct F(u64);
        impl Hasher for F {
            fn finish(&self) -> u64 {
                self.0
            }
            fn write(&mut self, b: &[u8]) {
                for x in b {
                    self.0 ^= *x as u64;
                    self.0 = self.0.wrapping_mul(0x100000001b3);
                }
            }
        }
        let mut h = F(0xcbf29ce484222325);
        t.hash(&mut h);
        self.sig = Some(h.finish());
    }
    pub fn skip(&mut self, why: &str) {
        self.skipped = true;
        self.count(&format!("skipped:{why}"), 1);
    }
    pub fn count(&mut self, what: &str, n: u64) {
        *self.counters.entry(what.to_string()).or_insert(0) += n;
    }
    pub fn event(&mut self) {
        self.events += 1;
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    pub fn fail(&mut self, label: impl Into<String>, detail: impl Into<String>) {
        if self.fails.len() < 5 {
            self.fails.push((label.into(), detail.into()));
        }
    }
    pub fn check(&mut self, ok: bool, label: &str, detail: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.fail(label, detail());
        }
        ok
    }
    pub fn close(&mut self, label: &str, got: f64, want: f64, tol: f64) -> bool {
        self.checks += 1;
        let ok = if want.is_infinite() { got == want } else { (got - want).abs() <= tol };
        if !ok {
            self.fail(label, format!("got {got:e} want {want:e} (diff {:e}, tol {tol:e})", (got - want).abs()));
        }
        ok
    }
    pub fn close_v(&mut self, label: &str, got: &[f64], want: &[f64], tol: f64) -> bool {
        self.checks += 1;
        if got.len() != want.len() {
            self.fail(label, format!("length {} want {}", got.len(), want.len()));
            return false;
        }
        for (i, (g, w)) in got.iter().zip(want).enumerate() {
            if !((g - w).abs() <= tol) {
                self.fail(label, format!("entry {i}: got {g:e} want {w:e} (tol {tol:e}); got {got:?} want {want:?}"));
                return false;
            }
        }
        true
    }
    pub fn close_m(&mut self, label: &str, got: &M, want: &M, tol: f64) -> bool {
        self.checks += 1;
        if (got.r, got.c) != (want.r, want.c) {
            self.fail(label, format!("shape {}x{} want {}x{}", got.r, got.c, want.r, want.c));
            return false;
        }
        let d = got.sub(want).max_abs();
        if !(d <= tol) {
            let mut at = (0, 0);
            for i in 0..got.r {
                for j in 0..got.c {
                    let e = (got[(i, j)] - want[(i, j)]).abs();
                    if !(e <= tol) {
                        at = (i, j);
                    }
                }
            }
            let full = if got.d.len() <= 36 { format!("; got {got:?} want {want:?}") } else { String::new() };
            self.fail(
                label,
                format!("max diff {d:e} > tol {tol:e}, e.g. at {at:?}: got {:e} want {:e}{full}", got[at], want[at]),
            );
            return false;
        }
        true
    }
    /// Runs f, which must panic (a documented loud rejection).
    pub fn panics<R>(&mut self, label: &str, f: impl FnOnce() -> R) -> bool {
        self.checks += 1;
        let r = quiet_catch(f);
        if r.is_ok() {
            self.fail(label, "accepted silently: no panic".to_string());
            return false;
        }
        true
    }
    /// Runs f, recording a panic as a violation labelled `label`.
    pub fn no_panic<R>(&mut self, label: &str, f: impl FnOnce() -> R) -> Option<R> {
        match quiet_catch(f) {
            Ok(r) => Some(r),
            Err(m) => {
                self.fail(label, format!("unexpected panic: {m}"));
                None
            }
        }
    }
}

pub fn quiet_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    only: Option<(String, u64)>,
    out: String,
    threads: usize,
    fams: Mutex<Vec<String>>,
    evals: AtomicU64,
    checks: AtomicU64,
    events: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<Vec<String>>,
    counters: Mutex<BTreeMap<String, u64>>,
    viol: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    deadline: std::time::Instant,
    truncated: AtomicU64,
}

const MAX_VIOL: usize = 12;

impl Ctx {
    pub fn from_env(id: &str) -> Ctx {
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "<non-string panic>".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
        }));
        let e = |k: &str| std::env::var(k).ok().filter(|s| !s.is_empty());
        let only = e("VERIF_ONLY").and_then(|s| {
            let (a, b) = s.rsplit_once('#')?;
            Some((a.to_string(), b.parse().ok()?))
        });
        Ctx {
            id: id.to_string(),
            seed: e("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: e("VERIF_TIER").as_deref() == Some("thorough"),
            scale: e("VERIF_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            only,
            out: e("VERIF_OUT").unwrap_or_else(|| "/tmp/verif_out.json".into()),
            threads: e("VERIF_THREADS").and_then(|s| s.parse().ok()).unwrap_or(8),
            fams: Mutex::new(vec![]),
            evals: 0.into(),
            checks: 0.into(),
            events: 0.into(),
            distinct: Default::default(),
            samples: Default::default(),
            counters: Default::default(),
            viol: Default::default(),
            nviol: 0.into(),
            deadline: std::time::Instant::now()
                + std::time::Duration::from_secs(e("VERIF_BUDGET").and_then(|s| s.parse().ok()).unwrap_or(3600)),
            truncated: 0.into(),
        }
    }

    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }

    /// Run a family of `quick` (or `thorough`) generated cases.
    pub fn family(&self, name: &str, quick: u64, thorough: u64, f: impl Fn(&mut Rng, &mut Case) + Sync) {
        let n = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u64;
        self.family_n(name, n.max(1), f)
    }

    /// Run exactly n cases of a family.
    pub fn family_n(&self, name: &str, n: u64, f: impl Fn(&mut Rng, &mut Case) + Sync) {
        self.fams.lock().unwrap().push(name.to_string());
        if let Some((fam, idx)) = &self.only {
            if fam == name {
                self.run_case(name, *idx, None, &f);
            }
            return;
        }
        let next = AtomicU64::new(0);
        let threads = self.threads.min(n as usize).max(1);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, f) = (&next, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut infl = std::fs::OpenOptions::new()
                            .create(true)
                            .truncate(true)
                            .write(true)
                            .open(format!("{}.inflight.{}", self.out, t))
                            .ok();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || self.nviol.load(Ordering::Relaxed) >= MAX_VIOL {
                                break;
                            }
                            if std::time::Instant::now() > self.deadline {
                                self.truncated.fetch_add(1, Ordering::Relaxed);
                                break;
                            }
                            self.run_case(name, i, infl.as_mut(), f);
                        }
                        if let Some(w) = infl {
                            let _ = w.set_len(0);
                        }
                    })
                    .unwrap();
            }
        });
    }

    fn run_case(
        &self,
        name: &str,
        idx: u64,
        infl: Option<&mut std::fs::File>,
        f: &(impl Fn(&mut Rng, &mut Case) + Sync),
    ) {
        if let Some(w) = infl {
            let _ = w.seek(std::io::SeekFrom::Start(0));
            let _ = w.write_all(format!("{name}#{idx}\n                    ").as_bytes());
        }
        let mut rng = Rng::for_case(self.seed, name, idx);
        let mut c = Case {
            family: name.to_string(),
            idx,
            thorough: self.thorough,
            desc: String::new(),
            sig: None,
            checks: 0,
            events: 0,
            fails: vec![],
            counters: BTreeMap::new(),
            skipped: false,
        };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut c)));
        if r.is_err() {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            c.fail("panic", format!("panicked on a valid input: {m}"));
        }
        self.evals.fetch_add(1, Ordering::Relaxed);
        self.checks.fetch_add(c.checks, Ordering::Relaxed);
        self.events.fetch_add(c.events, Ordering::Relaxed);
        if let (Some(s), false) = (c.sig, c.skipped) {
            let mut d = self.distinct.lock().unwrap();
            d.insert(s ^ crate::rng::hash_str(name));
        }
        {
            let mut cn = self.counters.lock().unwrap();
            *cn.entry(format!("cases:{name}")).or_insert(0) += 1;
            for (k, v) in &c.counters {
                *cn.entry(k.clone()).or_insert(0) += v;
            }
        }
        if idx < 1 && !c.desc.is_empty() {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 24 {
                let d: String = c.desc.chars().take(400).collect();
                s.push(format!("{name}#{idx}: {d}"));
            }
        }
        if self.replaying() {
            println!("replay {name}#{idx}: {}", c.desc);
            println!("  checks {} failures {:?}", c.checks, c.fails);
        }
        for (label, detail) in c.fails {
            if self.nviol.fetch_add(1, Ordering::Relaxed) < MAX_VIOL {
                self.viol.lock().unwrap().push(Violation {
                    family: name.to_string(),
                    idx,
                    label,
                    detail,
                    desc: c.desc.clone(),
                });
            }
        }
    }

    pub fn finish(self, rule: &str, assumptions: &[&str]) -> ! {
        let viol = self.viol.into_inner().unwrap();
        let mut o = String::new();
        let counters = self.counters.into_inner().unwrap();
        let _ = write!(
            o,
            "{{\"id\":{},\"seed\":{},\"evaluations\":{},\"oracle_checks\":{},\"events\":{},\"distinct_nontrivial\":{},\"truncated\":{},\"rule\":{},",
            jstr(&self.id),
            self.seed,
            self.evals.load(Ordering::Relaxed),
            self.checks.load(Ordering::Relaxed),
            self.events.load(Ordering::Relaxed),
            self.distinct.lock().unwrap().len(),
            self.truncated.load(Ordering::Relaxed),
            jstr(rule)
        );
        let list = |v: Vec<String>| format!("[{}]", v.join(","));
        let _ = write!(o, "\"samples\":{},", list(self.samples.into_inner().unwrap().iter().map(|s| jstr(s)).collect()));
        let _ = write!(o, "\"assumptions\":{},", list(assumptions.iter().map(|s| jstr(s)).collect()));
        let _ = write!(
            o,
            "\"counters\":{{{}}},",
            counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(",")
        );
        let _ = write!(
            o,
            "\"violations\":{}}}",
            list(
                viol.iter()
                    .map(|v| format!(
                        "{{\"family\":{},\"idx\":{},\"label\":{},\"detail\":{},\"desc\":{}}}",
                        jstr(&v.family),
                        v.idx,
                        jstr(&v.label),
                        jstr(&v.detail),
                        jstr(&v.desc)
                    ))
                    .collect()
            )
        );
        std::fs::write(&self.out, o).expect("cannot write result");
        for v in viol.iter().take(4) {
            println!("  {}#{} {}: {}", v.family, v.idx, v.label, v.detail.chars().take(600).collect::<String>());
        }
        std::process::exit(if viol.is_empty() { 0 } else { 1 });
    }
}

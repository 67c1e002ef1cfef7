//! The bounded stand-in: runs the contracts on concrete inputs.
use crate::core::*;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static NOTE: RefCell<String> = RefCell::new(String::new());
    static MSG: RefCell<String> = RefCell::new(String::new());
}
/// Says what the input of the current case is.
pub fn note(s: String) {
    NOTE.with(|n| *n.borrow_mut() = s);
}
pub fn init() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        MSG.with(|x| *x.borrow_mut() = format!("{m} at {l}"));
    }));
}

pub struct Failure {
    pub check: String,
    pub case: u64,
    pub input: String,
    pub message: String,
    pub tape: Option<Vec<Vec<u8>>>,
}

pub struct Cx {
    pub thorough: bool,
    pub seed: u64,
    pub deadline: Instant,
    pub evals: AtomicU64,
    pub skipped: AtomicU64,
    pub distinct: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub failures: Mutex<Vec<Failure>>,
    pub checks: Vec<(String, u64)>,
    pub cut: AtomicBool,
    /// Only this case of this check (replay).
    pub only: Option<(String, u64)>,
}

fn h(x: impl Hash) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

impl Cx {
    pub fn new(thorough: bool, seed: u64, secs: u64) -> Self {
        Cx {
            thorough,
            seed,
            deadline: Instant::now() + Duration::from_secs(secs),
            evals: 0.into(),
            skipped: 0.into(),
            distinct: Default::default(),
            samples: Default::default(),
            failures: Default::default(),
            checks: vec![],
            cut: false.into(),
            only: None,
        }
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    fn one(&self, check: &str, case: u64, sample: bool, f: &dyn Fn()) {
        note(String::new());
        let r = catch_unwind(AssertUnwindSafe(f));
        let input = NOTE.with(|n| std::mem::take(&mut *n.borrow_mut()));
        match r {
            Ok(()) => {
                self.evals.fetch_add(1, Ordering::Relaxed);
                let k = if input.is_empty() { h((check, case)) } else { h(&input) };
                let mut d = self.distinct.lock().unwrap();
                if d.len() < 3_000_000 {
                    d.insert(k);
                }
                drop(d);
                if sample {
                    let mut s = self.samples.lock().unwrap();
                    if s.len() < 12 {
                        let mut i = input;
                        if i.len() > 400 {
                            i = i.chars().take(400).collect::<String>() + "…";
                        }
                        s.push(format!("{check}#{case}: {i}"));
                    }
                }
            }
            Err(e) if e.is::<Skip>() => {
                self.skipped.fetch_add(1, Ordering::Relaxed);
            }
            Err(_) => {
                self.evals.fetch_add(1, Ordering::Relaxed);
                let message = MSG.with(|m| m.borrow().clone());
                let mut fl = self.failures.lock().unwrap();
                if fl.len() < 30 {
                    fl.push(Failure { check: check.into(), case, input, message, tape: None });
                }
            }
        }
    }
    fn failing(&self, check: &str) -> bool {
        self.failures.lock().unwrap().iter().filter(|f| f.check == check).count() >= 3
    }
    /// Runs a check on `n` generated cases.
    pub fn random(&mut self, check: &str, n: usize, f: impl Fn(&mut Rng) + Sync) {
        let base = h((self.seed, check));
        if let Some((c, case)) = self.only.clone() {
            if c == check {
                self.one(check, case, true, &|| f(&mut Rng::new(case)));
            }
            return;
        }
        let before = self.evals.load(Ordering::Relaxed);
        let next = AtomicU64::new(0);
        let this = &*self;
        let began = Instant::now();
        // More than asked for, while that costs little.
        let most = if self.thorough || n < 5000 { n as u64 } else { n as u64 * 5 };
        // Every check gets a fair share of what is left.
        let end = this.deadline;
        std::thread::scope(|s| {
            for _ in 0..8 {
                let b = std::thread::Builder::new().stack_size(64 << 20);
                b.spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= most || this.failing(check) {
                        return;
                    }
                    if i >= n as u64 && began.elapsed().as_millis() > 2500 {
                        return;
                    }
                    if Instant::now() > end {
                        this.cut.store(true, Ordering::Relaxed);
                        return;
                    }
                    let case = h((base, i));
                    this.one(check, case, i == 0, &|| f(&mut Rng::new(case)));
                })
                .unwrap();
            }
        });
        let done = self.evals.load(Ordering::Relaxed) - before;
        self.checks.push((check.into(), done));
    }
    /// Runs a check on every one of these cases.
    pub fn each<T: std::fmt::Debug + Sync>(&mut self, check: &str, cases: &[T], f: impl Fn(&T) + Sync) {
        if let Some((c, case)) = self.only.clone() {
            if c == check {
                let t = &cases[case as usize];
                self.one(check, case, true, &|| {
                    note(format!("{t:?}"));
                    f(t)
                });
            }
            return;
        }
        let next = AtomicU64::new(0);
        let this = &*self;
        std::thread::scope(|s| {
            for _ in 0..8 {
                let b = std::thread::Builder::new().stack_size(64 << 20);
                b.spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases.len() as u64 || this.failing(check) {
                        return;
                    }
                    let t = &cases[i as usize];
                    this.one(check, i, i == 0, &|| {
                        note(format!("{t:?}"));
                        f(t)
                    });
                })
                .unwrap();
            }
        });
        self.checks.push((check.into(), cases.len() as u64));
    }
    /// Runs a harness on generated inputs.
    pub fn harness(&mut self, hn: &Harness, n: usize) {
        if self.only.is_some() {
            let (c, case) = self.only.clone().unwrap();
            if c == hn.name {
                self.one(hn.name, case, true, &|| {
                    let mut s = NatSrc::random(case);
                    (hn.run)(&mut s);
                });
            }
            return;
        }
        let base = h((self.seed, hn.name));
        let before = self.evals.load(Ordering::Relaxed);
        let next = AtomicU64::new(0);
        let this = &*self;
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n as u64 || this.failing(hn.name) {
                        return;
                    }
                    let case = h((base, i));
                    let src = RefCell::new(NatSrc::random(case));
                    let nf = this.failures.lock().unwrap().len();
                    this.one(hn.name, case, i == 0, &|| {
                        let mut s = src.borrow_mut();
                        // the values drawn identify the case
                        (hn.run)(&mut *s);
                        note(format!("{:?}", s.log));
                    });
                    let mut fl = this.failures.lock().unwrap();
                    if fl.len() > nf {
                        if let Some(x) = fl.iter_mut().rev().find(|x| x.case == case && x.check == hn.name) {
                            let log = unsafe { &*src.as_ptr() }.log.clone();
                            x.input = format!("{log:?}");
                            x.tape = Some(log);
                        }
                    }
                });
            }
        });
        let done = self.evals.load(Ordering::Relaxed) - before;
        self.checks.push((hn.name.into(), done));
    }
}

/// Runs one harness on a tape. `Ok(false)`: the tape does not satisfy the assumptions.
pub fn replay(hn: &Harness, tape: Vec<Vec<u8>>) -> Result<bool, String> {
    let r = catch_unwind(AssertUnwindSafe(|| (hn.run)(&mut NatSrc::tape(tape))));
    match r {
        Ok(()) => Ok(true),
        Err(e) if e.is::<Skip>() => Ok(false),
        Err(_) => Err(MSG.with(|m| m.borrow().clone())),
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

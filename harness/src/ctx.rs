//! Per-thread monitor context: counters, findings, event log of the current case, guards around
//! every call into the library.

use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Instant;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

#[derive(Clone)]
pub struct Finding {
    pub workload: String,
    pub case: u64,
    pub msg: String,
    pub log: Vec<String>,
}

/// What the watchdog looks at.
pub struct Beat {
    pub entered_ms: AtomicU64, // 0 = not inside the library
    pub case: AtomicU64,
    pub wl: AtomicU64,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub workload: String,
    pub case: u64,
    pub evaluations: u64,
    pub lib_calls: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub findings: Vec<Finding>,
    pub other: BTreeMap<String, u64>,
    pub diverged: bool,
    pub log: Vec<(String, Vec<u8>)>,
    pub digests: Option<Vec<(String, u64, u64)>>,
    pub beat: Arc<Beat>,
    pub t0: Instant,
    pub verbose: bool,
    pub trace: u64,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, t0: Instant) -> Ctx {
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            workload: String::new(),
            case: 0,
            evaluations: 0,
            lib_calls: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            findings: Vec::new(),
            other: BTreeMap::new(),
            diverged: false,
            log: Vec::new(),
            digests: None,
            beat: Arc::new(Beat {
                entered_ms: AtomicU64::new(0),
                case: AtomicU64::new(0),
                wl: AtomicU64::new(0),
            }),
            t0,
            verbose: false,
            trace: 0,
        }
    }

    pub fn begin(&mut self, wl: &str, wl_idx: u64, case: u64) -> Rng {
        if self.workload != wl {
            self.workload = wl.into();
        }
        self.case = case;
        self.diverged = false;
        self.log.clear();
        self.trace = 0;
        self.beat.case.store(case, Ordering::Relaxed);
        self.beat.wl.store(wl_idx, Ordering::Relaxed);
        Rng::new(&[self.seed, hash_bytes(wl.as_bytes()), case])
    }

    pub fn end(&mut self) {
        if self.samples.len() < 2 && self.log.len() > 1 {
            let mut s = format!("{}:{}", self.workload, self.case);
            for (t, b) in self.log.iter().take(10) {
                s.push_str(&format!(" | {t} {}", hex(&b[..b.len().min(24)])));
            }
            self.samples.push(s);
        }
        if let Some(d) = &mut self.digests {
            let mut h = self.trace;
            for (t, b) in &self.log {
                h = mix(h ^ hash_bytes(t.as_bytes()));
                h = mix(h ^ hash_bytes(b));
            }
            d.push((self.workload.clone(), self.case, h));
        }
    }

    /// Record an event of the current execution.
    pub fn ev(&mut self, text: impl Into<String>, bytes: &[u8]) {
        let t = text.into();
        if self.verbose {
            println!("  {t} {}", hex(bytes));
        }
        self.log.push((t, bytes.to_vec()));
    }

    pub fn count(&mut self, key: &str) {
        self.add(key, 1);
    }
    pub fn add(&mut self, key: &str, n: u64) {
        match self.counters.get_mut(key) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(key.to_string(), n);
            }
        }
    }
    /// One oracle evaluation (something observed was compared with what is required).
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn distinct(&mut self, h: u64) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            if !self.samples.contains(&s) {
                self.samples.push(s);
            }
        }
    }

    /// A divergence that contradicts the properties in `tags` ("*": any property under check).
    pub fn fail(&mut self, tags: &[&str], msg: impl Into<String>) {
        let msg = msg.into();
        self.diverged = true;
        if self.verbose {
            println!("  DIVERGENCE {tags:?} {msg}");
        }
        if tags.iter().any(|t| *t == "*" || *t == self.prop) {
            if self.findings.len() < 20 {
                let log = self
                    .log
                    .iter()
                    .rev()
                    .take(60)
                    .rev()
                    .map(|(t, b)| format!("{t} {}", hex(b)))
                    .collect();
                self.findings.push(Finding {
                    workload: self.workload.clone(),
                    case: self.case,
                    msg,
                    log,
                });
            }
        } else {
            if std::env::var_os("MON_OTHER").is_some() {
                eprintln!("OTHER {}:{} {} {msg}", self.workload, self.case, tags.join("+"));
            }
            *self.other.entry(tags.join("+")).or_insert(0) += 1;
        }
    }

    /// Require `ok`; evaluates once.
    pub fn check(&mut self, tags: &[&str], ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.eval();
        if !ok {
            let m = msg();
            self.fail(tags, m);
        }
        ok
    }

    /// A library call with the allocation counter armed; `f` must not allocate by itself.
    pub fn armed<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        let mut n = 0;
        let r = self.lib(what, || {
            crate::alloc::arm();
            let r = f();
            n = crate::alloc::disarm();
            r
        });
        if n > 0 {
            self.fail(&["C25"], format!("{what} allocated {n} times"));
        }
        r
    }

    /// Call into the library: panics become findings, hangs are seen by the watchdog.
    pub fn lib<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.lib_calls += 1;
        let now = self.t0.elapsed().as_millis() as u64 + 1;
        self.beat.entered_ms.store(now, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.beat.entered_ms.store(0, Ordering::Relaxed);
        match r {
            Ok(v) => Some(v),
            Err(_) => {
                crate::alloc::disarm();
                let p = take_panic();
                self.fail(&["*"], format!("{what}: {p}"));
                None
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(1400) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 1400 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

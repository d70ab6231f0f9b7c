//! Case bookkeeping: every contract evaluation goes through `Ctx::case`, which counts it, keeps
//! samples, turns panics into failures and remembers the first failures of each kind.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// A single case that does not finish in this long is reported as failing (no result).
pub const CASE_LIMIT_S: u64 = 60;

pub static CASE_START: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<Option<(String, u64, String)>> = Mutex::new(None);

#[derive(Clone, Debug)]
pub struct Failure {
    pub contract: String,
    pub domain: String,
    pub index: u64,
    pub input: String,
    pub detail: String,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub trace: Option<std::fs::File>,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub bounds: Vec<String>,
    pub contracts: std::collections::BTreeMap<String, u64>,
    pub t0: Instant,
    cur: (String, u64),
}

pub fn h<T: Hash>(x: T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool) -> Self {
        Ctx {
            seed,
            thorough,
            only: None,
            trace: None,
            evaluations: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            failures: Vec::new(),
            bounds: Vec::new(),
            contracts: Default::default(),
            t0: Instant::now(),
            cur: (String::new(), 0),
        }
    }

    pub fn bound(&mut self, s: impl Into<String>) {
        self.bounds.push(s.into());
    }

    /// Pick a size by tier.
    pub fn by_tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Evaluate one contract instance on the real code.
    pub fn case<D, F>(&mut self, contract: &str, domain: &str, index: u64, input: D, f: F)
    where
        D: Fn() -> String,
        F: FnOnce() -> Result<(), String>,
    {
        if let Some((d, i)) = &self.only {
            if d != domain || *i != index {
                return;
            }
        }
        if self.failures.len() >= 40 && self.only.is_none() {
            return;
        }
        self.cur = (domain.to_string(), index);
        if let Some(t) = &mut self.trace {
            use std::io::{Seek, Write};
            let _ = t.set_len(0);
            let _ = t.rewind();
            let _ = write!(t, "{}\n{}\n{}\n{}", contract, domain, index, input());
            let _ = t.flush();
        }
        *CURRENT.lock().unwrap() = Some((contract.to_string(), index, domain.to_string()));
        CASE_START.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_START.store(0, Ordering::SeqCst);
        self.evaluations += 1;
        *self.contracts.entry(contract.to_string()).or_default() += 1;
        if self.distinct.insert(h((contract, domain, index))) {
            let n = self.distinct.len();
            if n.is_power_of_two() && self.samples.len() < 24 {
                let mut s = format!("{} [{}#{}] {}", contract, domain, index, input());
                if s.len() > 300 {
                    let mut k = 300;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                }
                self.samples.push(s);
            }
        }
        let detail = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                format!("panicked: {}", panic_text(p))
            }
        };
        self.failures.push(Failure {
            contract: contract.to_string(),
            domain: domain.to_string(),
            index,
            input: input(),
            detail,
        });
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

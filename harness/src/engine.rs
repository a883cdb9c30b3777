//! Property engine: recorded choice sequences, deterministic cases,
//! shrinking and classification counters.
//!
//! A case is a pure function of its choice sequence (a list of u64).
//! In generation mode choices come from a stream seeded by
//! (VERIF_SEED, property, case index); in replay mode from a list, with
//! 0 (always the simplest alternative) once the list is exhausted.

use crate::rng::{hash_bytes, mix2, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Src {
    pre: Option<Vec<u64>>,
    pos: usize,
    rng: Rng,
    pub rec: Vec<u64>,
    trace: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Self { pre: None, pos: 0, rng: Rng(seed), rec: Vec::new(), trace: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Self { pre: Some(choices), pos: 0, rng: Rng(0), rec: Vec::new(), trace: None }
    }
    pub fn set_trace(&mut self, f: std::fs::File) {
        self.trace = Some(f);
    }

    /// Uniform in [0, n).
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "harness: below(0)");
        let v = match &self.pre {
            Some(p) => p.get(self.pos).copied().unwrap_or(0),
            None => {
                // Keep the raw draw small so that recorded values are
                // meaningful when shrunk.
                if n == u64::MAX {
                    self.rng.next()
                } else {
                    self.rng.next() % n
                }
            }
        };
        let v = if v < n { v } else { v % n };
        self.pos += 1;
        self.rec.push(v);
        if let Some(t) = &mut self.trace {
            let _ = t.write_all(format!("{v}\n").as_bytes());
        }
        v
    }
    /// Inclusive range, lo is simplest.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi, "harness: range {lo} {hi}");
        lo + self.below(hi - lo + 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn u32(&mut self) -> u32 {
        self.below(1 << 32) as u32
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u64);
        &items[i as usize]
    }
    /// Weighted choice; first alternative is simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// Small-biased size in [lo, hi].
    pub fn size(&mut self, lo: u64, hi: u64) -> u64 {
        let span = hi - lo;
        if span == 0 {
            return lo;
        }
        match self.weighted(&[4, 3, 2, 1]) {
            0 => lo + self.below(span.min(3) + 1),
            1 => lo + self.below(span.min(12) + 1),
            2 => lo + self.below((span / 4).max(1).min(span) + 1),
            _ => lo + self.below(span + 1),
        }
    }
    /// A 64-bit value biased to boundaries.
    pub fn edgy64(&mut self) -> u64 {
        match self.weighted(&[3, 3, 3, 1]) {
            0 => self.below(16),
            1 => {
                let b = self.below(64);
                let d = self.below(3);
                (1u64 << b).wrapping_add(d).wrapping_sub(1)
            }
            2 => {
                let b = self.range(1, 63);
                self.below(1 << b)
            }
            _ => u64::MAX - self.below(3),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.below(256) as u8).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        // A zero draw leaves the order unchanged.
        for i in (1..v.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// A property violation found by a check.
#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable signature (used for known findings and shrinking).
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Self { sig: sig.into(), msg: msg.into() }
    }
}

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::engine::Fail::new($sig, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::engine::Fail::new($sig, format!($($arg)*)));
        }
    };
}

pub type Res = Result<(), Fail>;

/// Per-case context: counters and description.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub sample: String,
    pub nontrivial: bool,
    pub ops: u64,
    pub want_sample: bool,
    /// Known findings hit by this case (signature -> message).
    pub known_hits: BTreeMap<String, String>,
    pub known: Vec<String>,
    /// A check with several oracles can be told to run only in part.
    pub tier_thorough: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn count(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_insert(0) += n;
    }
    /// A maximum; labels that begin with "largest " are merged so.
    pub fn max(&mut self, l: &str, n: u64) {
        assert!(l.starts_with("largest "));
        merge_label(&mut self.labels, l, n);
    }
    /// Report a failure, unless it is a listed known finding.
    pub fn soft(&mut self, f: Fail) -> Res {
        if self.known.iter().any(|k| *k == f.sig) {
            self.known_hits.insert(f.sig, f.msg);
            Ok(())
        } else {
            Err(f)
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;

pub struct Prop {
    pub id: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if std::env::var("HARNESS_BT").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

fn panic_in_harness(loc: &str) -> bool {
    // Harness sources are compiled with relative paths.
    loc.starts_with("src/")
}

pub enum Outcome {
    Pass,
    Fail(Fail),
    /// The harness itself broke: never a verdict.
    HarnessError(String),
}

/// Source location without the line number, so that signatures of
/// panics survive unrelated edits of the file.
fn loc_file(loc: &str) -> String {
    let f = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    match f.find("/src/") {
        Some(i) if f.contains("/repo/") || f.starts_with('/') => f[i + 1..].to_string(),
        _ => f.to_string(),
    }
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| f(src, ctx)));
    crate::steps::disarm();
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(fail)) => Outcome::Fail(fail),
        Err(_) => {
            let (loc, msg) = take_panic();
            if panic_in_harness(&loc) && msg.contains("disk full") {
                // The generator ran out of space: no case.
                ctx.nontrivial = false;
                ctx.label("discarded: generated disk full");
                Outcome::Pass
            } else if panic_in_harness(&loc) {
                Outcome::HarnessError(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Fail(Fail::new(
                    format!("panic:{}", loc_file(&loc)),
                    format!("library panicked at {loc}: {msg}"),
                ))
            }
        }
    }
}

pub fn panic_fail(what: &str) -> Fail {
    let (loc, msg) = take_panic();
    if panic_in_harness(&loc) {
        panic!("harness panic inside library call: {loc} {msg}");
    }
    Fail::new(
        format!("panic:{}", loc_file(&loc)),
        format!("{what}: library panicked at {loc}: {msg}"),
    )
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix2(mix2(seed, hash_bytes(7, id.as_bytes())), idx)
}

/// Shrink a failing choice list. `test` returns true if the candidate
/// still fails in the same way (and returns the recorded choices).
pub fn shrink(
    start: Vec<u64>,
    budget: usize,
    mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let t0 = std::time::Instant::now();
    let mut best = start;
    let mut left = budget;
    let mut try_ = |cand: &[u64], best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || t0.elapsed().as_secs() > 45 {
            *left = 0;
            return false;
        }
        *left -= 1;
        if let Some(mut rec) = test(cand) {
            while rec.last() == Some(&0) {
                rec.pop();
            }
            if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                *best = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Truncate.
        let mut n = best.len() / 2;
        while n > 0 && left > 0 {
            if best.len() > n {
                let c = best[..best.len() - n].to_vec();
                if try_(&c, &mut best, &mut left) {
                    continue;
                }
            }
            n /= 2;
        }
        // Delete and zero chunks.
        for &k in &[64usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i < best.len() && left > 0 {
                let e = (i + k).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if try_(&c, &mut best, &mut left) {
                    continue;
                }
                if best[i..e].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    try_(&c, &mut best, &mut left);
                }
                i += k;
            }
        }
        // Minimise values.
        let mut i = 0;
        while i < best.len() && left > 0 {
            let mut lo = 0;
            while i < best.len() && lo < best[i] && left > 0 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !try_(&c, &mut best, &mut left) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || left == 0 {
            return best;
        }
    }
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

pub fn merge_label(m: &mut std::collections::BTreeMap<String, u64>, l: &str, n: u64) {
    let e = m.entry(l.to_string()).or_insert(0);
    *e = if l.starts_with("largest ") { (*e).max(n) } else { *e + n };
}

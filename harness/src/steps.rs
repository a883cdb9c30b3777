//! Deterministic work and memory accounting for the code under test.
//!
//! The library (only) is compiled with LLVM's sanitizer-coverage edge
//! callbacks (see rustc-wrap.sh), so "work" is the number of control-flow
//! edges executed in it: a pure function of the code and the input, not
//! of the machine. "Memory" is what a counting allocator has live.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub static STEPS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static NUM_GUARDS: AtomicU64 = AtomicU64::new(0);
static COV_ON: AtomicBool = AtomicBool::new(false);

pub const MAX_GUARDS: usize = 1 << 15;
pub static mut COV: [u8; MAX_GUARDS] = [0; MAX_GUARDS];

pub const STEP_EXIT: i32 = 97;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    if COV_ON.load(Relaxed) {
        unsafe {
            let g = *guard as usize % MAX_GUARDS;
            let c = (&raw mut COV).cast::<u8>().add(g);
            *c = (*c).saturating_add(1);
        }
    }
    if n > LIMIT.load(Relaxed) {
        step_limit_hit();
    }
}

#[cold]
fn step_limit_hit() {
    // Cannot unwind from here; the parent process turns this exit code
    // into the deterministic verdict "step budget exceeded".
    eprintln!("STEP-LIMIT {}", LIMIT.load(Relaxed));
    std::process::exit(STEP_EXIT);
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            let n = NUM_GUARDS.fetch_add(1, Relaxed) + 1;
            *p = n as u32;
            p = p.add(1);
        }
    }
}

pub fn arm(limit: u64) {
    STEPS.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
}
pub fn disarm() {
    LIMIT.store(u64::MAX, Relaxed);
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}
pub fn cov_on(on: bool) {
    COV_ON.store(on, Relaxed);
}

pub struct Counting;

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Largest single request, granted or not.
pub static MAXREQ: AtomicUsize = AtomicUsize::new(0);

fn charge(n: usize) -> bool {
    if n > MAXREQ.load(Relaxed) {
        MAXREQ.store(n, Relaxed);
    }
    let live = LIVE.load(Relaxed);
    match live.checked_add(n) {
        Some(t) if t <= CAP.load(Relaxed) => {
            let t = LIVE.fetch_add(n, Relaxed) + n;
            if t > PEAK.load(Relaxed) {
                PEAK.store(t, Relaxed);
            }
            true
        }
        _ => false,
    }
}
fn release(n: usize) {
    LIVE.fetch_sub(n, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !charge(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        release(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !charge(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            if !charge(new - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            release(l.size() - new);
        }
        System.realloc(p, l, new)
    }
}

/// Start measuring: resets peak to the current live size. Returns it.
pub fn mem_mark() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    MAXREQ.store(0, Relaxed);
    l
}
pub fn mem_peak_since(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}

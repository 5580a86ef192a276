//! Counting allocator with a cap: an allocation that would push the live
//! total past the cap fails (returns null), as a machine of bounded memory
//! would. The cap is one of the simulated resources.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Capped;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static DENIED: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !reserve(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if p.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !reserve(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            if !reserve(new - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(l.size() - new, Relaxed);
        }
        System.realloc(p, l, new)
    }
}

fn reserve(n: usize) -> bool {
    let now = LIVE.fetch_add(n, Relaxed).saturating_add(n);
    // Large blocks are refused first: where one of just about all the memory
    // there is was granted, small ones still are.
    let spare = if n < 1 << 20 { 64 << 20 } else { 0 };
    if now > CAP.load(Relaxed).saturating_add(spare) {
        LIVE.fetch_sub(n, Relaxed);
        DENIED.fetch_add(1, Relaxed);
        return false;
    }
    PEAK.fetch_max(now, Relaxed);
    true
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
/// Reset the peak to the present use and return that.
pub fn mark() -> usize {
    let l = live();
    PEAK.store(l, Relaxed);
    l
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn set_cap(n: usize) {
    CAP.store(n, Relaxed);
}
pub fn denied() -> usize {
    DENIED.load(Relaxed)
}

/// Set while the library runs (and so whatever goes wrong is its doing).
static IN_LIB: AtomicUsize = AtomicUsize::new(0);
pub fn set_in_lib(b: bool) {
    IN_LIB.store(usize::from(b), Relaxed);
    arm(PROF, if b { CALL_CPU.load(Relaxed) } else { 0 });
}

/// Seconds of CPU time after which a call counts as hanging.
static CALL_CPU: AtomicUsize = AtomicUsize::new(0);
pub fn set_call_cpu(secs: usize) {
    CALL_CPU.store(secs, Relaxed);
}

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
}
pub const VIRTUAL: i32 = 1;
pub const PROF: i32 = 2;
/// The timer's signal ends the process (SIGVTALRM 26 or SIGPROF 27).
pub fn arm(timer: i32, secs: usize) {
    let v = [0, 0, secs as i64, 0];
    unsafe {
        setitimer(timer, &v, std::ptr::null_mut());
    }
}
pub fn in_lib() -> bool {
    IN_LIB.load(Relaxed) != 0
}

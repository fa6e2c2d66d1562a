//! Allocation seam: counts live bytes, peak and the largest single request of the process, and refuses
//! requests no deployment could serve (the process then ends as it would on a real device).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const HARD_LIMIT: usize = 6 << 30;
pub struct Meter;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);

fn note(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    BIGGEST.fetch_max(n, Relaxed);
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        note(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}

pub struct Used {
    /// peak above the level at the start
    pub peak: usize,
    pub biggest: usize,
}

/// Runs f and reports what it allocated.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, Used) {
    let start = LIVE.load(Relaxed);
    PEAK.store(start, Relaxed);
    BIGGEST.store(0, Relaxed);
    let r = f();
    let u = Used { peak: PEAK.load(Relaxed).saturating_sub(start), biggest: BIGGEST.load(Relaxed) };
    (r, u)
}

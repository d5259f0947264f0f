//! Counts memory allocated, and the most of it at any time.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static NOW: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn more(n: usize) {
    let now = NOW.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { more(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { more(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both are there while moving
        more(n);
        let r = System.realloc(p, l, n);
        NOW.fetch_sub(l.size(), Relaxed);
        r
    }
}

/// The most memory allocated at any time of `f`, beyond that at its start
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let start = NOW.load(Relaxed);
    PEAK.store(start, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(start))
}

//! Allocation monitor: every allocator event of the process is observed (live bytes, total bytes,
//! number of events, peak), per thread totals are not needed because measured sections run alone.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Counting;
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
pub static EVENTS: AtomicU64 = AtomicU64::new(0);
pub static PEAK: AtomicU64 = AtomicU64::new(0);

fn up(n: u64) {
    TOTAL.fetch_add(n, Relaxed);
    EVENTS.fetch_add(1, Relaxed);
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size() as u64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // an in-place or moving grow: count the growth, not the whole block, as new bytes
        let old = l.size() as u64;
        let new = n as u64;
        EVENTS.fetch_add(1, Relaxed);
        if new > old {
            TOTAL.fetch_add(new - old, Relaxed);
            let lv = LIVE.fetch_add(new - old, Relaxed) + (new - old);
            PEAK.fetch_max(lv, Relaxed);
        } else {
            LIVE.fetch_sub(old - new, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    pub total: u64,
    pub events: u64,
    pub peak: u64,
    pub leaked: i64,
}

/// Runs `f` (whose result is dropped inside the section) and reports what it allocated.
pub fn measure<T>(f: impl FnOnce() -> T) -> Usage {
    let (l0, t0, e0) = (LIVE.load(Relaxed), TOTAL.load(Relaxed), EVENTS.load(Relaxed));
    PEAK.store(l0, Relaxed);
    drop(f());
    let peak = PEAK.load(Relaxed);
    Usage {
        total: TOTAL.load(Relaxed) - t0,
        events: EVENTS.load(Relaxed) - e0,
        peak: peak - l0,
        leaked: LIVE.load(Relaxed) as i64 - l0 as i64,
    }
}

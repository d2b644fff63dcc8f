//! Allocation monitor: counts live bytes and refuses allocations beyond the budget of the running
//! case, so that an unbounded allocation ends in an observable abort of the worker process instead
//! of taking the machine down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Mon;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
pub static REFUSED: AtomicU64 = AtomicU64::new(0);

fn grow(n: usize) -> bool {
    let n = n as i64;
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if n < 0 || now > LIMIT.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        REFUSED.fetch_add(1, Relaxed);
        return false;
    }
    PEAK.fetch_max(now, Relaxed);
    true
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new >= l.size() {
            if !grow(new - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub((l.size() - new) as i64, Relaxed);
        }
        System.realloc(p, l, new)
    }
}

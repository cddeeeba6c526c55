//! Counting allocator: the resource monitor. Counters are per thread, so that a case observes only itself.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn plus(n: usize) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = TOTAL.try_with(|c| c.set(c.get() + n as u64));
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
}
fn minus(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            plus(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            plus(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        minus(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            minus(l.size());
            plus(n);
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Counters {
    pub live: i64,
    pub total: u64,
    pub calls: u64,
    pub peak: i64,
}
pub fn now() -> Counters {
    Counters { live: LIVE.with(|c| c.get()), total: TOTAL.with(|c| c.get()), calls: CALLS.with(|c| c.get()), peak: PEAK.with(|c| c.get()) }
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(|c| c.get())));
}

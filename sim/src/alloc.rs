//! Seam: the allocator. Counts what each thread allocates, so that a run can bound memory by
//! the data supplied, and offers a scheduling point for simulated threads.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    /// Set while the thread runs code under test in allocation-yield mode.
    pub static YIELD: Cell<bool> = const { Cell::new(false) };
}

fn note(delta: isize, size: usize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + delta;
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
    if delta > 0 {
        let _ = LARGEST.try_with(|l| if size > l.get() { l.set(size) });
        let _ = COUNT.try_with(|n| n.set(n.get() + 1));
    }
}

fn maybe_yield() {
    let go = YIELD.try_with(|y| y.replace(false)).unwrap_or(false);
    if go {
        crate::sched::alloc_point();
        let _ = YIELD.try_with(|y| y.set(true));
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        maybe_yield();
        let p = System.alloc(l);
        if !p.is_null() { note(l.size() as isize, l.size()); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        maybe_yield();
        let p = System.alloc_zeroed(l);
        if !p.is_null() { note(l.size() as isize, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        maybe_yield();
        let q = System.realloc(p, l, n);
        if !q.is_null() { note(n as isize - l.size() as isize, n); }
        q
    }
}

pub struct Usage { pub peak: usize, pub largest: usize, pub count: u64 }

/// Runs `f` and reports the memory this thread allocated beyond what it already held.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Usage) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    LARGEST.with(|l| l.set(0));
    let n0 = COUNT.with(|c| c.get());
    let r = f();
    let u = Usage {
        peak: (PEAK.with(|p| p.get()) - base).max(0) as usize,
        largest: LARGEST.with(|l| l.get()),
        count: COUNT.with(|c| c.get()) - n0,
    };
    (r, u)
}

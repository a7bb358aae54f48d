//! Allocator which measures the peak of memory allocated by the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static PAUSED: Cell<bool> = const { Cell::new(false) };
}

fn add(n: isize) {
    if PAUSED.try_with(|p| p.get()).unwrap_or(true) { return; }
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { add(l.size() as isize) }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { add(l.size() as isize) }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as isize));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { add(n as isize - l.size() as isize) }
        q
    }
}

/// Peak allocation during f, in bytes above what was allocated before
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let t = f();
    let peak = PEAK.with(|p| p.get());
    (t, ((peak - base) as i64).min(i32::MAX as i64))
}

/// Runs f without counting what it allocates: the harness' own buffers and records
pub fn unmeasured<T>(f: impl FnOnce() -> T) -> T {
    let was = PAUSED.with(|p| p.replace(true));
    let t = f();
    PAUSED.with(|p| p.set(was));
    t
}

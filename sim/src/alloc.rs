//! Allocator seam: every allocation of the simulated process is counted per
//! thread, and requests no simulated machine could satisfy fail.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracking;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    /// live bytes beyond which an allocation fails
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static TRAFFIC: Cell<u64> = const { Cell::new(0) };
}

/// The simulated machine's memory for one decode; a larger live set is an out of
/// memory condition (allocation fails, which aborts a Rust program).
pub const MACHINE: i64 = 2 << 30;

#[inline]
fn grow(n: i64) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if v > LIMIT.try_with(|m| m.get()).unwrap_or(i64::MAX) {
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = TRAFFIC.try_with(|a| a.set(a.get() + n as u64));
        true
    })
    .unwrap_or(true)
}
#[inline]
fn shrink(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n));
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if !grow(l.size() as i64) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        crate::sched::point();
        if !grow(l.size() as i64) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::point();
        shrink(l.size() as i64);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        crate::sched::point();
        // old and new block coexist while the data moves
        if !grow(new as i64) {
            return std::ptr::null_mut();
        }
        let q = unsafe { System.realloc(p, l, new) };
        if q.is_null() {
            shrink(new as i64);
        } else {
            shrink(l.size() as i64);
        }
        q
    }
}

/// Forget the past: peak becomes the current live size.
pub fn reset() -> i64 {
    let l = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l));
    l
}
/// Run `f` on a machine with MACHINE bytes to spare.
pub fn confined<T>(f: impl FnOnce() -> T) -> T {
    struct Back(i64);
    impl Drop for Back {
        fn drop(&mut self) {
            LIMIT.with(|m| m.set(self.0));
        }
    }
    let _back = Back(LIMIT.with(|m| m.replace(live() + MACHINE)));
    f()
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}
/// Bytes requested so far on this thread, never decreasing.
pub fn traffic() -> u64 {
    TRAFFIC.with(|l| l.get())
}

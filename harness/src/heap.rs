//! Counts the heap memory of the calling thread, so that an operation's working memory can be observed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
fn note(d: i64) {
    let _ = LIVE.try_with(|l| { let v = l.get() + d; l.set(v); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); });
    if d > 0 { let _ = CALLS.try_with(|c| c.set(c.get() + 1)); }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { note(l.size() as i64) } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { note(l.size() as i64) } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { note(n as i64 - l.size() as i64); }
        q
    }
}
/// runs `f` and returns how far the live heap of this thread rose above its level at the start,
/// what was still live at the end, and how many allocations there were
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, i64, u64) {
    let base = LIVE.with(|l| l.get());
    let calls = CALLS.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - base).max(0) as u64, LIVE.with(|l| l.get()) - base, CALLS.with(|c| c.get()) - calls)
}

//! Counts the bytes live and the peak on the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Counting;
thread_local! { static LIVE: Cell<isize> = const { Cell::new(0) }; static PEAK: Cell<isize> = const { Cell::new(0) }; }
fn add(n: isize) { let _ = LIVE.try_with(|l| { l.set(l.get() + n); let v = l.get(); let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) }); }); }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as isize - l.size() as isize); System.realloc(p, l, n) }
}
/// runs f and returns its result with the most memory it had allocated at one time
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, isize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, PEAK.with(|p| p.get()) - base)
}

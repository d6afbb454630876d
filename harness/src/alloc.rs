// A counting allocator with a per-case ceiling: a request that would exceed the
// ceiling is refused, which Rust turns into an abort of this process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
pub static NOW: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = NOW.fetch_add(l.size(), Relaxed) + l.size();
        if n > CAP.load(Relaxed) {
            NOW.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(n, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        NOW.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}

pub fn begin(cap: usize) {
    let now = NOW.load(Relaxed);
    PEAK.store(now, Relaxed);
    CAP.store(now.saturating_add(cap), Relaxed);
}
pub fn end(base: usize) -> usize {
    CAP.store(usize::MAX, Relaxed);
    PEAK.load(Relaxed).saturating_sub(base)
}
pub fn now() -> usize {
    NOW.load(Relaxed)
}

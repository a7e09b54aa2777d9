//! Allocator that fills fresh and released memory with a chosen pattern (so reads of either show up in results),
//! and counts live blocks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering::Relaxed};
pub struct Poison;
static PATTERN: AtomicU32 = AtomicU32::new(256);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub fn set_poison(p: u32) { PATTERN.store(p, Relaxed); }
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            LIVE.fetch_add(1, Relaxed);
            let pat = PATTERN.load(Relaxed);
            if pat < 256 { std::ptr::write_bytes(p, pat as u8, l.size()); }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if p.is_null() { return; }
        LIVE.fetch_sub(1, Relaxed);
        let pat = PATTERN.load(Relaxed);
        if pat < 256 { std::ptr::write_bytes(p, !(pat as u8), l.size()); }
        System.dealloc(p, l);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { LIVE.fetch_add(1, Relaxed); }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

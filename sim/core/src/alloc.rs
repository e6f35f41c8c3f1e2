//! The allocator seam: every allocation and release made by simulated code is a scheduling point,
//! is counted, and can be made to fail.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;

pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
/// number of allocations made so far
pub fn total() -> u64 {
    TOTAL.load(Relaxed)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if crate::sched::on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        note(1, l.size() as i64);
        TOTAL.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if crate::sched::on_alloc(l.size()) {
            return std::ptr::null_mut();
        }
        note(1, l.size() as i64);
        TOTAL.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if crate::sched::on_alloc(new) {
            return std::ptr::null_mut();
        }
        note(0, new as i64 - l.size() as i64);
        TOTAL.fetch_add(1, Relaxed);
        System.realloc(p, l, new)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::sched::on_dealloc();
        note(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
}

#[inline]
fn note(blocks: i64, bytes: i64) {
    LIVE_BLOCKS.fetch_add(blocks, Relaxed);
    LIVE_BYTES.fetch_add(bytes, Relaxed);
}

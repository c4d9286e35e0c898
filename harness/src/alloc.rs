//! Allocator that remembers the largest single request of each thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Tracking;
thread_local! { static MAX: Cell<usize> = const { Cell::new(0) }; }

fn note(n: usize) {
    if n > 1 << 16 {
        let _ = MAX.try_with(|m| {
            if n > m.get() {
                m.set(n)
            }
        });
    }
}
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
pub fn reset() {
    MAX.with(|m| m.set(0));
}
pub fn max_single() -> usize {
    MAX.with(|m| m.get())
}

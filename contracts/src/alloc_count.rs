//! Counts the memory that a thread asks for at once.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(l.size())));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(l.size())));
        System.alloc_zeroed(l)
    }
}
/// The biggest single request of this thread since the last call.
pub fn take_biggest() -> usize {
    BIGGEST.with(|b| b.replace(0))
}

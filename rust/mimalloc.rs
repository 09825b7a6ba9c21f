//! The allocator of evmrs is the simulated heap.
use std::alloc::{GlobalAlloc, Layout};
extern "C" {
    fn sim_alloc(n: usize, align: usize) -> *mut u8;
    fn sim_free(p: *mut u8);
}
#[derive(Clone, Copy, Default, Debug)]
pub struct MiMalloc;
unsafe impl GlobalAlloc for MiMalloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { sim_alloc(l.size(), l.align()) }
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        unsafe { sim_free(p) }
    }
}

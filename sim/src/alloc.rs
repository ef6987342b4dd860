//! Allocator of the simulated process: memory freed during a run is overwritten and not handed out again,
//! so that a use after free shows itself the same way every time.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Poison;
static KEPT: AtomicUsize = AtomicUsize::new(0);
const KEEP: usize = 400 << 20;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if simcore::active() && KEPT.load(Ordering::Relaxed) < KEEP {
            std::ptr::write_bytes(p, 0xDD, l.size().min(1 << 16));
            if l.size() <= 1 << 20 {
                KEPT.fetch_add(l.size(), Ordering::Relaxed);
                return;
            }
        }
        System.dealloc(p, l)
    }
}

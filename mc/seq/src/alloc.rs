//! Allocator whose reuse of addresses is chosen by the enumeration.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Policy;
/// When set, freed blocks are poisoned and held back, so no address is reused soon.
pub static HOLD: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
const N: usize = 512;
static mut RING: [(usize, usize, usize); N] = [(0, 0, 0); N];
static POS: AtomicUsize = AtomicUsize::new(0);

unsafe impl GlobalAlloc for Policy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // a stale read of freed memory must not look valid
        std::ptr::write_bytes(p, 0xDD, l.size());
        if !HOLD.load(Relaxed) { return System.dealloc(p, l) }
        while LOCK.swap(true, Acquire) { std::hint::spin_loop() }
        let i = POS.fetch_add(1, Relaxed) % N;
        let old = RING[i];
        RING[i] = (p as usize, l.size(), l.align());
        LOCK.store(false, Release);
        if old.0 != 0 { System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2)) }
    }
}

//! An allocator that can be told to keep an eye on memory: what is freed is overwritten and not
//! used again for a while, freeing twice is noticed, and what is not freed can be counted.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};

pub struct Watch;
static EVER: AtomicBool = AtomicBool::new(false);
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static HELD: AtomicUsize = AtomicUsize::new(0);
const MOST: usize = 1 << 19;
static mut HOLD: [(usize, usize, usize); MOST] = [(0, 0, 0); MOST];

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(SeqCst) {
            LIVE.fetch_add(1, SeqCst);
        }
        let p = System.alloc(l);
        // memory used again must not look like memory freed
        if EVER.load(SeqCst) && !p.is_null() {
            std::ptr::write_bytes(p, 0xAA, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ON.load(SeqCst) {
            return System.dealloc(p, l);
        }
        LIVE.fetch_sub(1, SeqCst);
        if l.size() >= 16 && (0..l.size()).all(|k| *p.add(k) == 0xDD) {
            libc::abort();
        }
        std::ptr::write_bytes(p, 0xDD, l.size());
        let n = HELD.fetch_add(1, SeqCst);
        if n < MOST {
            HOLD[n] = (p as usize, l.size(), l.align());
        } else {
            System.dealloc(p, l);
        }
    }
}

/// Runs single-threaded code under observation; says how many allocations are left over.
pub fn watched<T, F: FnOnce() -> T>(f: F) -> (T, i64) {
    LIVE.store(0, SeqCst);
    HELD.store(0, SeqCst);
    EVER.store(true, SeqCst);
    ON.store(true, SeqCst);
    let x = f();
    ON.store(false, SeqCst);
    unsafe {
        for k in 0..HELD.load(SeqCst).min(MOST) {
            let (p, s, a) = HOLD[k];
            System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a));
        }
    }
    (x, LIVE.load(SeqCst))
}

//! Global allocator that tracks live and peak memory, poisons fresh and freed blocks and
//! refuses absurd requests (reported as memory exhaustion, which aborts like the real thing).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub struct Mon;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
/// What fresh memory holds.
static FRESH: AtomicU8 = AtomicU8::new(0xA5);
pub static CAP: AtomicI64 = AtomicI64::new(3 << 30);

const EDGE: usize = 1 << 14;

unsafe fn fill(p: *mut u8, size: usize, v: u8) {
    if size <= 4 * EDGE {
        std::ptr::write_bytes(p, v, size);
    } else {
        std::ptr::write_bytes(p, v, EDGE);
        std::ptr::write_bytes(p.add(size - EDGE), v, EDGE);
    }
}

fn grow(n: usize) -> bool {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    if l > CAP.load(Relaxed) {
        LIVE.fetch_sub(n as i64, Relaxed);
        return false;
    }
    BLOCKS.fetch_add(1, Relaxed);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    if n > BIGGEST.load(Relaxed) {
        BIGGEST.store(n, Relaxed);
    }
    true
}

fn shrink(n: usize) {
    LIVE.fetch_sub(n as i64, Relaxed);
    BLOCKS.fetch_sub(1, Relaxed);
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if p.is_null() {
            shrink(l.size());
        } else {
            fill(p, l.size(), FRESH.load(Relaxed));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            shrink(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() <= (64 << 20) {
            fill(p, l.size(), 0xDD);
        }
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // the old and the new block are both held while the contents move
        if !grow(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if q.is_null() {
            shrink(new);
        } else {
            shrink(l.size());
            if new > l.size() {
                fill(q.add(l.size()), new - l.size(), FRESH.load(Relaxed));
            }
        }
        q
    }
}

pub fn poison(v: u8) {
    FRESH.store(v, Relaxed)
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn blocks() -> i64 {
    BLOCKS.load(Relaxed)
}
/// Starts a measurement: returns the live memory now.
pub fn mark() -> i64 {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    BIGGEST.store(0, Relaxed);
    l
}
pub fn peak_since(mark: i64) -> i64 {
    PEAK.load(Relaxed) - mark
}
pub fn biggest() -> usize {
    BIGGEST.load(Relaxed)
}

#[cfg(not(feature = "plainalloc"))]
#[global_allocator]
static A: Mon = Mon;

/// Whether the measurements mean anything in this build.
pub fn active() -> bool {
    cfg!(not(feature = "plainalloc"))
}

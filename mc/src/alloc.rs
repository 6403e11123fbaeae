//! The harness owns the allocator: it counts, can place every allocation against an inaccessible
//! page (so that out-of-bounds vector accesses fault) with only the alignment that was asked for,
//! and is a scheduling point for the controlled scheduler.
use crate::sys::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub struct A;

pub const SYSTEM: u8 = 0;
/// end of allocation flush with a guard page
pub const G_END: u8 = 1;
/// as G_END, but never more aligned than requested
pub const G_MISALIGN: u8 = 2;
/// start of allocation flush with a guard page
pub const G_START: u8 = 3;

pub static MODE: AtomicU8 = AtomicU8::new(0);
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static GUARDED: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
const REGION: usize = 1 << 38;
const PG: usize = 4096;
/// what one worker may hold; beyond it allocations fail (and the process aborts)
const CAP: usize = 3_500_000_000;

fn lock() {
    while LOCK.swap(true, std::sync::atomic::Ordering::Acquire) {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, std::sync::atomic::Ordering::Release);
}

unsafe fn galloc(l: Layout, mode: u8) -> *mut u8 {
    lock();
    if BASE.load(Relaxed) == 0 {
        let p = mmap(std::ptr::null_mut(), REGION, PROT_NONE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
        if p as isize == -1 {
            unlock();
            return std::ptr::null_mut();
        }
        BASE.store(p as usize, Relaxed);
        NEXT.store(p as usize + PG, Relaxed);
    }
    if LIVE.load(Relaxed) == 0 {
        NEXT.store(BASE.load(Relaxed) + PG, Relaxed);
    }
    let slack = if mode == G_MISALIGN { l.align() } else { 0 };
    let pages = (l.size().max(1) + slack + l.align().min(64) + PG - 1) / PG;
    let start = NEXT.load(Relaxed);
    NEXT.store(start + (pages + 1) * PG, Relaxed);
    assert!(start + (pages + 1) * PG < BASE.load(Relaxed) + REGION);
    LIVE.fetch_add(1, Relaxed);
    unlock();
    GUARDED.fetch_add(1, Relaxed);
    if mprotect(start as *mut _, pages * PG, PROT_RW) != 0 {
        return std::ptr::null_mut();
    }
    let end = start + pages * PG;
    let p = match mode {
        G_START => start,
        G_END => (end - l.size().max(1)) & !(l.align() - 1),
        _ => {
            let mut p = (end - l.size().max(1)) & !(l.align() - 1);
            if p % (l.align() * 2) == 0 {
                p -= l.align();
            }
            p
        }
    };
    // fill with junk so that reads of uninitialised memory are not accidentally zero
    if l.size() <= 1 << 20 {
        std::ptr::write_bytes(p as *mut u8, 0xA5, l.size());
    }
    p as *mut u8
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        scoped_threadpool::sched::alloc_point();
        let _b = scoped_threadpool::sched::busy();
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        if c > CAP {
            CUR.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(c, Relaxed);
        let m = MODE.load(Relaxed);
        if m == SYSTEM {
            System.alloc(l)
        } else {
            galloc(l, m)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        scoped_threadpool::sched::alloc_point();
        let _b = scoped_threadpool::sched::busy();
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        if c > CAP {
            CUR.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(c, Relaxed);
        let m = MODE.load(Relaxed);
        if m == SYSTEM {
            System.alloc_zeroed(l)
        } else {
            let p = galloc(l, m);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        scoped_threadpool::sched::alloc_point();
        let _b = scoped_threadpool::sched::busy();
        CUR.fetch_sub(l.size(), Relaxed);
        let b = BASE.load(Relaxed);
        if b != 0 && (p as usize) >= b && (p as usize) < b + REGION {
            let start = p as usize & !(PG - 1);
            let end = (p as usize + l.size().max(1) + l.align().min(64) + PG) & !(PG - 1);
            // drop contents and make inaccessible
            mmap(start as *mut _, end - start, PROT_NONE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | 0x10, -1, 0);
            LIVE.fetch_sub(1, Relaxed);
        } else {
            System.dealloc(p, l)
        }
    }
}

/// run `f` with the given allocator mode
pub fn with_mode<R>(m: u8, f: impl FnOnce() -> R) -> R {
    struct G(u8);
    impl Drop for G {
        fn drop(&mut self) {
            MODE.store(self.0, Relaxed);
        }
    }
    let _g = G(MODE.swap(m, Relaxed));
    f()
}
pub fn reset_peak() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}

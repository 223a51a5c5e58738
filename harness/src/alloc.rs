//! Counting allocator: bytes requested by the current thread while a window is open, and a hard
//! limit whose crossing ends the process with a status the parent recognises.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub const EXIT_ALLOC: i32 = 78;
pub struct Counting;

thread_local! {
    static OPEN: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static HARD: Cell<i64> = const { Cell::new(i64::MAX) };
    static GROUP: Cell<Option<&'static AtomicI64>> = const { Cell::new(None) };
}

/// From now on what this thread allocates and frees is added to the group's live bytes.
pub fn join(group: &'static AtomicI64) {
    GROUP.with(|g| g.set(Some(group)));
}

#[inline]
fn add(n: i64) {
    let _ = GROUP.try_with(|g| {
        if let Some(g) = g.get() {
            g.fetch_add(n, Relaxed);
        }
    });
    let _ = OPEN.try_with(|o| {
        if o.get() {
            LIVE.with(|l| {
                let v = l.get() + n;
                l.set(v);
                if v > HARD.with(|h| h.get()) {
                    unsafe { libc::_exit(EXIT_ALLOC) }
                }
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        add(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
}

/// Runs f; returns its result and the peak of live bytes it held. The process exits with EXIT_ALLOC
/// as soon as more than `hard` bytes are live.
pub fn measured<T>(hard: usize, f: impl FnOnce() -> T) -> (T, usize) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    HARD.with(|l| l.set(hard as i64));
    OPEN.with(|o| o.set(true));
    let r = f();
    OPEN.with(|o| o.set(false));
    HARD.with(|l| l.set(i64::MAX));
    (r, PEAK.with(|p| p.get()).max(0) as usize)
}

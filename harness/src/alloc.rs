//! An allocator that overwrites what is freed, and moves what is reallocated, so that text which is
//! referred to after its memory was given back, or moved, never still reads as before. It also keeps
//! count of what the current thread holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Poison;

const FREED: u8 = b'Z';

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
}

/// What a piece of work took
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Usage {
    /// Bytes held at its end more than at its start
    pub left: isize,
    /// Bytes held at most
    pub peak: isize,
    /// Bytes ever allocated
    pub total: usize,
}

/// Runs `f` on the current thread, and counts
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let live = LIVE.with(|c| c.get());
    let total = TOTAL.with(|c| c.get());
    PEAK.with(|c| c.set(live));
    let t = f();
    let u = Usage {
        left: LIVE.with(|c| c.get()) - live,
        peak: PEAK.with(|c| c.get()) - live,
        total: TOTAL.with(|c| c.get()) - total,
    };
    (t, u)
}

fn took(n: usize) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n as isize;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = TOTAL.try_with(|c| c.set(c.get().wrapping_add(n)));
}

fn gave(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as isize));
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            took(l.size());
        }
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            took(l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            gave(l.size());
            std::ptr::write_bytes(p, FREED, l.size());
            // not to be dropped as a dead store
            std::hint::black_box(p);
            System.dealloc(p, l)
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        unsafe {
            let new = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
            if !new.is_null() {
                std::ptr::copy_nonoverlapping(p, new, l.size().min(size));
                self.dealloc(p, l);
            }
            new
        }
    }
}

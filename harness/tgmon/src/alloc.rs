//! Allocator monitor: what does a watched heap block contain when it is freed?
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Monitor;

thread_local! {
    static PTR: Cell<usize> = const { Cell::new(0) };
    static LEN: Cell<usize> = const { Cell::new(0) };
    static SEEN: Cell<isize> = const { Cell::new(-1) };
}

/// watch the block at `ptr` (one at a time per thread)
pub fn watch(ptr: usize, len: usize) {
    SEEN.with(|s| s.set(-1));
    LEN.with(|l| l.set(len));
    PTR.with(|p| p.set(ptr));
}

/// number of non-zero bytes the block held when it was released, if it was
pub fn unwatch() -> Option<usize> {
    PTR.with(|p| p.set(0));
    let s = SEEN.with(|s| s.get());
    if s < 0 {
        None
    } else {
        Some(s as usize)
    }
}

fn look(ptr: *mut u8) {
    let _ = PTR.try_with(|p| {
        if p.get() != 0 && p.get() == ptr as usize {
            let n = LEN.with(|l| l.get());
            let b = unsafe { std::slice::from_raw_parts(ptr, n) };
            let nz = b.iter().filter(|x| **x != 0).count();
            SEEN.with(|s| s.set(nz as isize));
            p.set(0);
        }
    });
}

unsafe impl GlobalAlloc for Monitor {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        look(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        look(p);
        System.realloc(p, l, n)
    }
}

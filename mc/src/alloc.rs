//! Global allocator that (a) counts what the current thread allocates, so a check can bound the
//! memory one call on the real code may ask for, and (b) refuses absurd single requests so that a
//! runaway reservation ends the worker (and is reported) instead of taking the sandbox down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const MAX_SINGLE: usize = 1 << 30;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static MAX: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

#[inline]
fn note(sz: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get().wrapping_add(sz as u64)));
    let _ = COUNT.try_with(|b| b.set(b.get().wrapping_add(1)));
    let _ = MAX.try_with(|b| {
        if sz as u64 > b.get() {
            b.set(sz as u64)
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        if l.size() > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        if n > MAX_SINGLE {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    pub bytes: u64,
    pub count: u64,
    pub max: u64,
}

/// Run `f` and report what this thread asked the allocator for while it ran.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let (b, c) = (BYTES.with(Cell::get), COUNT.with(Cell::get));
    MAX.with(|m| m.set(0));
    let r = f();
    let u = Usage { bytes: BYTES.with(Cell::get).wrapping_sub(b), count: COUNT.with(Cell::get).wrapping_sub(c), max: MAX.with(Cell::get) };
    (r, u)
}

//! Counting allocator: what the calling thread holds, and the most it held, since the meter was started.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

pub struct Meter;

fn add(size: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + size as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BIGGEST.try_with(|b| {
        if size > b.get() {
            b.set(size)
        }
    });
}

fn sub(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - size as i64));
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        add(layout.size());
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        sub(layout.size());
        System.dealloc(ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        add(layout.size());
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        sub(layout.size());
        add(new_size);
        System.realloc(ptr, layout, new_size)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    /// Bytes still held at the end that were not held at the start
    pub net: i64,
    /// Most bytes held on top of what was held at the start
    pub peak: i64,
    /// Largest single request
    pub biggest: usize,
}

pub fn metered<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let start = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(start));
    BIGGEST.with(|b| b.set(0));
    let out = f();
    let usage = Usage {
        net: LIVE.with(|l| l.get()) - start,
        peak: PEAK.with(|p| p.get()) - start,
        biggest: BIGGEST.with(|b| b.get()),
    };
    (out, usage)
}

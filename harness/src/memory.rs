//! Counts what each thread has allocated, so that a run whose memory grows without bound is
//! reported as one that does not return instead of taking the machine down.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

const LIMIT: isize = 1 << 30;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static WATCHED: Cell<usize> = const { Cell::new(0) };
}

/// 1 + the number of the worker whose run grows without bound.
pub static RUNAWAY: AtomicUsize = AtomicUsize::new(0);

/// A run begins on this thread, which is worker `n`.
pub fn begin(n: usize) {
    LIVE.with(|l| l.set(0));
    WATCHED.with(|w| w.set(n + 1));
}

pub fn end() {
    WATCHED.with(|w| w.set(0));
}

fn count(n: isize) {
    let watched = WATCHED.try_with(|w| w.get()).unwrap_or(0);
    if watched == 0 {
        return;
    }
    let live = LIVE.with(|l| {
        let v = l.get() + n;
        l.set(v);
        v
    });
    if live > LIMIT {
        RUNAWAY.store(watched, Ordering::SeqCst);
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

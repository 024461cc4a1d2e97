//! Counts the bytes that the current thread has allocated and not freed, and their peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
  static LIVE: Cell<i64> = const { Cell::new(0) };
  static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn moved(by: i64) {
  LIVE.with(|l| {
    l.set(l.get() + by);
    PEAK.with(|p| p.set(p.get().max(l.get())));
  });
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    moved(l.size() as i64);
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    moved(l.size() as i64);
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    moved(-(l.size() as i64));
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    moved(n as i64 - l.size() as i64);
    System.realloc(p, l, n)
  }
}

pub fn live() -> i64 {
  LIVE.with(Cell::get)
}

/// What f returns, and how far allocations rose above where they were while it ran.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
  let l = live();
  PEAK.with(|p| p.set(l));
  let r = f();
  (r, PEAK.with(Cell::get) - l)
}

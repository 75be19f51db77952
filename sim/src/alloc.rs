//! The allocator seam: counts what each simulated thread requests and returns.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static BALANCE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static REQUESTED: Cell<u64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            let _ = BALANCE.try_with(|b| b.set(b.get() + l.size() as i64));
            let _ = BLOCKS.try_with(|b| b.set(b.get() + 1));
            let _ = REQUESTED.try_with(|b| b.set(b.get() + l.size() as u64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = BALANCE.try_with(|b| b.set(b.get() - l.size() as i64));
        let _ = BLOCKS.try_with(|b| b.set(b.get() - 1));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            let _ = BALANCE.try_with(|b| b.set(b.get() + n as i64 - l.size() as i64));
            let _ = REQUESTED.try_with(|b| b.set(b.get() + (n.saturating_sub(l.size())) as u64));
        }
        q
    }
}
/// Bytes and blocks this thread holds.
pub fn balance() -> (i64, i64) {
    (BALANCE.get(), BLOCKS.get())
}
/// Bytes this thread has asked for so far.
pub fn requested() -> u64 {
    REQUESTED.get()
}

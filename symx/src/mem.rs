//! Counts the heap use of each thread, so that one job cannot take the machine's memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static USED: Cell<i64> = const { Cell::new(0) };
    static CUT_AT: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
fn add(x: i64) {
    let _ = USED.try_with(|u| u.set(u.get() + x));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
pub const LIMIT: i64 = 2_800_000_000;
pub fn used() -> i64 {
    USED.with(|u| u.get())
}
/// Called from the long loops of the algebra: ends the path when the thread holds too much memory or
/// the deadline has passed.
pub fn guard() {
    let t = CUT_AT.with(|c| c.get());
    if t == 0 {
        return; // between paths
    }
    if used() > LIMIT {
        std::panic::panic_any(crate::engine::Abort::Cut("memory bound".into()));
    }
    if now() > t {
        std::panic::panic_any(crate::engine::Abort::Cut("time".into()));
    }
}
fn now() -> u64 {
    use std::time::*;
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// hard deadline of this thread's algebra, from now; None: none
pub fn deadline(d: Option<std::time::Duration>) {
    let v = d.map(|d| now() + d.as_millis() as u64).unwrap_or(0);
    CUT_AT.with(|c| c.set(v));
}

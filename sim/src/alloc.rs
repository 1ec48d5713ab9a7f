//! A counting global allocator: live bytes (for the memory bound of C12), and the number of
//! allocations as a logical clock, so that "never ends" is decided without looking at real time.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LIVE_LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
/// exit status of a run that used up its budget of allocations
pub const BUDGET_EXIT: i32 = 86;
pub const MEMORY_EXIT: i32 = 87;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            tick(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            tick(n);
        }
        q
    }
}
fn tick(n: usize) {
    let live = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    let c = COUNT.fetch_add(1, Relaxed);
    if c >= LIMIT.load(Relaxed) {
        unsafe { libc::_exit(BUDGET_EXIT) }
    }
    if live >= LIVE_LIMIT.load(Relaxed) {
        unsafe { libc::_exit(MEMORY_EXIT) }
    }
}
/// From now on, at most `n` more allocations and `bytes` more live memory
pub fn budget(n: u64, bytes: i64) {
    LIMIT.store(COUNT.load(Relaxed).saturating_add(n), Relaxed);
    LIVE_LIMIT.store(LIVE.load(Relaxed).saturating_add(bytes), Relaxed);
}
pub fn no_budget() {
    LIMIT.store(u64::MAX, Relaxed);
    LIVE_LIMIT.store(i64::MAX, Relaxed);
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn count() -> u64 {
    COUNT.load(Relaxed)
}

//! Global allocator with a thread-local fault schedule and live accounting.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

/// Memory freed while the quarantine is on: poisoned and kept until flushed,
/// so that reads of it and second frees are seen for what they are.
const QUARANTINE: usize = 512;
thread_local! {
    static QUAR: Cell<bool> = const { Cell::new(false) };
    static HELD: std::cell::UnsafeCell<[(usize, usize, usize); QUARANTINE]> = const { std::cell::UnsafeCell::new([(0, 0, 0); QUARANTINE]) };
    static NHELD: Cell<usize> = const { Cell::new(0) };
    static TWICE: Cell<bool> = const { Cell::new(false) };
}
/// Runs library code with frees quarantined.
pub fn quarantined<R>(f: impl FnOnce() -> R) -> R {
    QUAR.with(|q| q.set(true));
    let r = f();
    QUAR.with(|q| q.set(false));
    r
}
/// Returns quarantined memory; whether anything was freed twice.
pub fn flush() -> bool {
    let n = NHELD.with(|n| n.replace(0));
    for i in 0..n {
        let (p, size, align) = HELD.with(|h| unsafe { (*h.get())[i] });
        unsafe { System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(size, align)) };
    }
    TWICE.with(|t| t.replace(false))
}
/// Keeps a freed block in quarantine; false if the caller must free it.
fn hold(p: *mut u8, l: Layout) -> bool {
    if !QUAR.try_with(Cell::get).unwrap_or(false) {
        return false;
    }
    let n = NHELD.with(Cell::get);
    let again = HELD.with(|h| unsafe { (&(*h.get()))[..n].iter().any(|x| x.0 == p as usize) });
    if again {
        TWICE.with(|t| t.set(true));
        return true;
    }
    if n == QUARANTINE {
        return false;
    }
    HELD.with(|h| unsafe { (*h.get())[n] = (p as usize, l.size(), l.align()) });
    NHELD.with(|c| c.set(n + 1));
    true
}

thread_local! {
    static ARMED: Cell<i64> = const { Cell::new(-1) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
}

/// The `k`-th allocation request from now fails (0-based), as do all later ones
/// until disarmed.
pub fn arm(k: i64) {
    FIRED.with(|f| f.set(false));
    ARMED.with(|a| a.set(k));
}
pub fn disarm() -> bool {
    ARMED.with(|a| a.set(-1));
    FIRED.with(|f| f.get())
}
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}
pub fn live_bytes() -> i64 {
    LIVE_BYTES.with(Cell::get)
}

thread_local! {
    static BEYOND: Cell<bool> = const { Cell::new(false) };
}
unsafe extern "C" {
    fn _exit(code: i32) -> !;
}
/// Exit code of a worker whose infallible request no machine could serve.
pub const BEYOND_MEMORY: i32 = 77;
/// Runs an operation that may ask for any amount of memory infallibly. Where
/// the answer to a request no machine could serve is the runtime ending the
/// process, the script ends here and judges nothing.
pub fn unbounded<R>(f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            BEYOND.with(|b| b.set(false));
        }
    }
    let _reset = Reset;
    BEYOND.with(|b| b.set(true));
    f()
}
fn beyond() -> *mut u8 {
    if BEYOND.try_with(Cell::get).unwrap_or(false) {
        unsafe { _exit(BEYOND_MEMORY) }
    }
    std::ptr::null_mut()
}

fn refuse() -> bool {
    ARMED
        .try_with(|a| {
            let k = a.get();
            if k < 0 {
                false
            } else if k == 0 {
                let _ = FIRED.try_with(|f| f.set(true));
                true
            } else {
                a.set(k - 1);
                false
            }
        })
        .unwrap_or(false)
}

fn count(d: i64, bytes: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + d));
    let _ = LIVE_BYTES.try_with(|l| l.set(l.get() + bytes));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // Oversized requests are refused like a real allocator would, quickly.
        if refuse() {
            return std::ptr::null_mut();
        }
        if l.size() > 1 << 36 {
            return beyond();
        }
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            count(1, l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1, -(l.size() as i64));
        // Poison freed memory so that stale reads are visible.
        if l.size() <= 1 << 16 {
            unsafe { std::ptr::write_bytes(p, 0xA5, l.size()) };
        }
        if hold(p, l) {
            return;
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        if n > 1 << 36 {
            return beyond();
        }
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            count(0, n as i64 - l.size() as i64);
        }
        q
    }
}

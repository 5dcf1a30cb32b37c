//! Accounting allocator: how much memory the code under test holds, per simulated thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Acct;
struct T {
    on: Cell<bool>,
    cur: Cell<i64>,
    peak: Cell<i64>,
    big: Cell<usize>,
    cap: Cell<i64>,
    n: Cell<u64>,
}
thread_local! {
    static T: T = const { T { on: Cell::new(false), cur: Cell::new(0), peak: Cell::new(0), big: Cell::new(0), cap: Cell::new(i64::MAX), n: Cell::new(0) } };
}
fn add(n: i64, single: usize) {
    let _ = T.try_with(|t| {
        if t.on.get() {
            let c = t.cur.get() + n;
            t.cur.set(c);
            t.n.set(t.n.get() + 1);
            if c > t.peak.get() {
                t.peak.set(c);
            }
            if single > t.big.get() {
                t.big.set(single);
            }
            if c > t.cap.get() {
                t.on.set(false);
                crate::cx::limit_hit("memory", c as u64, t.cap.get() as u64);
            }
        }
    });
}
unsafe impl GlobalAlloc for Acct {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, n);
        System.realloc(p, l, n)
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Mem {
    pub peak: u64,
    pub biggest: u64,
    pub count: u64,
}
/// Runs `f` with its allocations accounted and capped.
pub fn tracked<X>(cap: u64, f: impl FnOnce() -> X) -> (X, Mem) {
    T.with(|t| {
        t.cur.set(0);
        t.peak.set(0);
        t.big.set(0);
        t.n.set(0);
        t.cap.set(cap.min(i64::MAX as u64) as i64);
        t.on.set(true);
    });
    let x = f();
    T.with(|t| {
        t.on.set(false);
        (x, Mem { peak: t.peak.get().max(0) as u64, biggest: t.big.get() as u64, count: t.n.get() })
    })
}
pub fn untracked<X>(f: impl FnOnce() -> X) -> X {
    let was = T.try_with(|t| t.on.replace(false)).unwrap_or(false);
    let x = f();
    let _ = T.try_with(|t| t.on.set(was));
    x
}

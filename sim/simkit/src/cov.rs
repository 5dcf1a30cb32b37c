//! Callbacks of the instrumented crates (the code under test and the generated bindings):
//! one call per control-flow edge. They count steps, record coverage, watch the stack and are the
//! preemption points of the simulated threads.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};

const N: usize = 1 << 20;
static EDGES: [AtomicU8; N] = [const { AtomicU8::new(0) }; N];
static NEXT: AtomicU32 = AtomicU32::new(1);

pub struct T {
    pub steps: Cell<u64>,
    pub limit: Cell<u64>,
    pub floor: Cell<usize>,
    pub lowest: Cell<usize>,
    /// simulated thread: preempt when this reaches zero
    pub count: Cell<u64>,
    pub sim: Cell<bool>,
    /// inside the simulator: no preemption
    pub mask: Cell<u32>,
}
thread_local! {
    pub static T: T = const { T { steps: Cell::new(0), limit: Cell::new(u64::MAX), floor: Cell::new(0), lowest: Cell::new(usize::MAX), count: Cell::new(0), sim: Cell::new(false), mask: Cell::new(0) } };
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        *a = NEXT.fetch_add(1, Relaxed).min(N as u32 - 1);
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    EDGES[*g as usize & (N - 1)].store(1, Relaxed);
    let here = &g as *const _ as usize;
    let _ = T.try_with(|t| {
        let s = t.steps.get() + 1;
        t.steps.set(s);
        if s >= t.limit.get() {
            t.limit.set(u64::MAX);
            crate::cx::limit_hit("steps", s, s);
        }
        if here < t.lowest.get() {
            t.lowest.set(here);
            if here < t.floor.get() {
                let d = t.floor.replace(0) - here;
                crate::cx::limit_hit("stack", d as u64, 0);
            }
        }
        if t.sim.get() {
            tick(t);
        }
    });
}
#[inline]
fn tick(t: &T) {
    if t.mask.get() == 0 {
        let c = t.count.get();
        if c <= 1 {
            crate::sched::preempt(t);
        } else {
            t.count.set(c - 1);
        }
    }
}
/// A preemption point in the harness (simulated I/O).
pub fn yield_point() {
    let _ = T.try_with(|t| {
        if t.sim.get() {
            tick(t)
        }
    });
}
macro_rules! mem { ($($n:ident)*) => { $(
    #[no_mangle]
    pub unsafe extern "C" fn $n(_a: *const u8) { yield_point() }
)* } }
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
     __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

pub fn total_edges() -> u64 {
    NEXT.load(Relaxed) as u64 - 1
}
pub fn edges() -> Vec<u32> {
    (1..NEXT.load(Relaxed).min(N as u32)).filter(|i| EDGES[*i as usize].load(Relaxed) != 0).collect()
}
pub fn flags() -> Vec<u8> {
    EDGES[..NEXT.load(Relaxed).min(N as u32) as usize].iter().map(|e| e.load(Relaxed)).collect()
}
/// Edges another process took.
pub fn mark(e: &[u32]) {
    for i in e {
        EDGES[*i as usize & (N - 1)].store(1, Relaxed);
    }
}
/// Runs `f` with a step and a stack budget; returns the steps taken and the stack used.
pub fn bounded<X>(limit: u64, stack: usize, f: impl FnOnce() -> X) -> (X, u64, u64) {
    let here = &limit as *const _ as usize;
    let (s0, l0, f0) = T.with(|t| {
        let s0 = t.steps.get();
        t.lowest.set(usize::MAX);
        (s0, t.limit.replace(s0.saturating_add(limit)), t.floor.replace(here.saturating_sub(stack)))
    });
    let x = f();
    T.with(|t| {
        t.limit.set(l0);
        t.floor.set(f0);
        (x, t.steps.get() - s0, here.saturating_sub(t.lowest.get()) as u64)
    })
}

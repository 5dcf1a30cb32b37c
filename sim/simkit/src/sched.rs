//! Deterministic scheduler for real threads: exactly one simulated thread runs at a time; at
//! preemption points (control-flow edges and memory accesses of the instrumented code, simulated
//! I/O, futex calls) the choice sequence decides who continues.
use crate::{cov, src};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// waiting on a futex word; true: has a timeout
    Blocked(usize, bool),
    Done,
}
struct Th {
    go: Arc<AtomicU32>,
    st: St,
}
#[derive(Default)]
struct S {
    active: bool,
    ths: Vec<Th>,
    cur: usize,
    switches: u64,
    preempts: u64,
    waits: u64,
    sig: u64,
    main: Arc<AtomicU32>,
}
struct Glob(UnsafeCell<Option<S>>);
unsafe impl Sync for Glob {}
static S: Glob = Glob(UnsafeCell::new(None));
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
#[allow(clippy::mut_from_ref)]
fn s() -> &'static mut S {
    unsafe { (*S.0.get()).get_or_insert_with(Default::default) }
}
pub(crate) fn masked<X>(f: impl FnOnce() -> X) -> X {
    crate::alloc::untracked(|| {
        cov::T.with(|t| t.mask.set(t.mask.get() + 1));
        let x = f();
        cov::T.with(|t| t.mask.set(t.mask.get() - 1));
        x
    })
}
fn countdown() -> u64 {
    // 0: a long time slice
    match src::below(5) {
        0 => 5000,
        1 => 1 + src::below(1000),
        2 => 1 + src::below(400),
        3 => 1 + src::below(40),
        _ => 1 + src::below(6),
    }
}
fn ready() -> Vec<usize> {
    let st = s();
    let n = st.ths.len();
    // the running thread first: choice 0 means "no switch"
    (0..n).map(|i| (st.cur + i) % n).filter(|i| st.ths[*i].st == St::Ready).collect()
}
fn park(a: &AtomicU32) {
    while a.swap(0, Ordering::AcqRel) == 0 {
        crate::sys::futex_wait(a, 0);
    }
}
fn unpark(a: &AtomicU32) {
    a.store(1, Ordering::Release);
    crate::sys::futex_wake(a);
}
fn switch_to(n: usize, from: Option<usize>) {
    let st = s();
    st.cur = n;
    if from == Some(n) {
        return;
    }
    st.switches += 1;
    let steps = cov::T.with(|t| t.steps.get());
    st.sig = src::fnv(st.sig, (n as u64) << 48 | (steps & 0xffff_ffff_ffff));
    let go = st.ths[n].go.clone();
    let mine = from.map(|f| st.ths[f].go.clone());
    unpark(&go);
    if let Some(m) = mine {
        park(&m);
    }
}
pub(crate) fn preempt(t: &cov::T) {
    t.mask.set(1);
    crate::alloc::untracked(|| {
        let st = s();
        if st.active {
            st.preempts += 1;
            let r = ready();
            let n = r[src::below(r.len() as u64) as usize];
            t.count.set(countdown());
            let me = ME.with(|m| m.get());
            switch_to(n, Some(me));
        }
    });
    t.mask.set(0);
}
/// futex(2) of a simulated thread.
fn futex(a: u64, op: u64, v: u64, timeout: u64) -> Option<i64> {
    let sim = cov::T.try_with(|t| t.sim.get()).unwrap_or(false);
    if !sim || !s().active {
        return None;
    }
    let me = ME.with(|m| m.get());
    Some(masked(|| {
        let st = s();
        match op & 0x7f {
            0 | 9 => {
                let w = unsafe { &*(a as *const AtomicU32) };
                if w.load(Ordering::SeqCst) != v as u32 {
                    return -11;
                }
                st.waits += 1;
                st.ths[me].st = St::Blocked(a as usize, timeout != 0);
                next_or_deadlock(Some(me));
                // a timed wait that was resumed by the passing of time
                if let St::Blocked(..) = s().ths[me].st {
                    s().ths[me].st = St::Ready;
                    return -110;
                }
                0
            }
            1 | 10 => {
                let mut n = 0;
                let k = st.ths.len();
                let start = src::below(k as u64) as usize;
                for i in 0..k {
                    let i = (start + i) % k;
                    if n as u64 >= v {
                        break;
                    }
                    if let St::Blocked(x, _) = st.ths[i].st {
                        if x == a as usize {
                            st.ths[i].st = St::Ready;
                            n += 1;
                        }
                    }
                }
                n
            }
            _ => -38,
        }
    }))
}
fn next_or_deadlock(from: Option<usize>) {
    let st = s();
    let r = ready();
    let n = if r.is_empty() {
        match st.ths.iter().position(|t| matches!(t.st, St::Blocked(_, true))) {
            Some(i) => i,
            None => {
                if st.ths.iter().all(|t| t.st == St::Done) {
                    st.active = false;
                    unpark(&st.main.clone());
                    return;
                }
                crate::cx::limit_hit("deadlock", st.ths.iter().filter(|t| t.st != St::Done).count() as u64, 0)
            }
        }
    } else {
        r[src::below(r.len() as u64) as usize]
    };
    switch_to(n, from);
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    if n == 202 {
        if let Some(r) = futex(a, b, c, d) {
            return crate::sys::ret(r);
        }
    }
    if n == 318 {
        return getrandom(a as *mut u8, b as usize, 0) as i64;
    }
    crate::sys::ret(crate::sys::raw6(n, a, b, c, d, e, f))
}
thread_local! { static HSEED: Cell<u64> = const { Cell::new(0x5eed) }; }
/// Seed of the hash maps created by this thread from now on (the first map of a thread decides).
pub fn set_hash_seed(x: u64) {
    HSEED.with(|h| h.set(x));
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _fl: u32) -> isize {
    let mut x = HSEED.try_with(|h| h.get()).unwrap_or(1);
    for i in 0..n {
        *p.add(i) = (src::splitmix(&mut x) >> 24) as u8;
    }
    let _ = HSEED.try_with(|h| h.set(x));
    n as isize
}
static VCLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static JUMPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Clocks as the simulated threads see them: they advance with every look at them, sometimes by a
/// drawn amount. (Locks use them to decide whether they hand over their lock.)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if id == 0 {
        // the date is the one of the simulated machine
        if let Some(v) = crate::simfs::wall() {
            *ts = (v / 1_000_000_000) as i64;
            *ts.add(1) = (v % 1_000_000_000) as i64;
            return 0;
        }
    }
    let sim = cov::T.try_with(|t| t.sim.get()).unwrap_or(false);
    if !sim || !s().active {
        return crate::sys::ret(crate::sys::raw6(228, id as u64, ts as u64, 0, 0, 0, 0)) as i32;
    }
    masked(|| {
        let mut d = 100;
        if src::below(12) == 11 {
            d += src::below(3_000_000);
            JUMPS.fetch_add(1, Ordering::Relaxed);
        }
        let v = VCLOCK.fetch_add(d, Ordering::SeqCst);
        *ts = 1_000_000 + (v / 1_000_000_000) as i64;
        *ts.add(1) = (v % 1_000_000_000) as i64;
    });
    0
}
static PID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// The process id the code under test sees; 0: the real one.
pub fn set_pid(p: u64) {
    PID.store(p, Ordering::SeqCst)
}
#[no_mangle]
pub extern "C" fn getpid() -> i32 {
    match PID.load(Ordering::SeqCst) {
        0 => unsafe { crate::sys::raw6(39, 0, 0, 0, 0, 0, 0) as i32 },
        p => p as i32,
    }
}
#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    yield_now();
    0
}
/// Preemption by the simulated thread itself.
pub fn yield_now() {
    let _ = cov::T.try_with(|t| {
        if t.sim.get() && t.mask.get() == 0 {
            preempt(t)
        }
    });
}
#[derive(Debug, Clone, Default)]
pub struct Outcome {
    pub switches: u64,
    pub preempts: u64,
    pub futex_waits: u64,
    pub clock_jumps: u64,
    pub sig: u64,
}
static CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
pub fn reset_clock() {
    CLOCK.store(1, Ordering::SeqCst)
}
/// Logical time for histories: strictly increasing over all simulated threads.
pub fn now() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}
/// Runs the bodies as simulated threads until all have finished.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let st = s();
    *st = S::default();
    VCLOCK.store(0, Ordering::SeqCst);
    JUMPS.store(0, Ordering::Relaxed);
    let main = st.main.clone();
    let mut hs = vec![];
    let n = bodies.len();
    if n == 0 {
        return Outcome::default();
    }
    for (i, b) in bodies.into_iter().enumerate() {
        let go = Arc::new(AtomicU32::new(0));
        st.ths.push(Th { go: go.clone(), st: St::Ready });
        let h = std::thread::Builder::new().stack_size(36 << 20).spawn(move || {
            ME.with(|m| m.set(i));
            park(&go);
            set_hash_seed(0x5eed + i as u64);
            cov::T.with(|t| {
                t.steps.set(0);
                t.sim.set(true);
                t.mask.set(1);
                t.count.set(countdown());
                t.mask.set(0);
            });
            b();
            cov::T.with(|t| t.sim.set(false));
            let st = s();
            st.ths[i].st = St::Done;
            next_or_deadlock(None);
        });
        hs.push(h.expect("thread"));
    }
    st.active = true;
    let first = src::below(n as u64) as usize;
    st.cur = first;
    unpark(&st.ths[first].go.clone());
    park(&main);
    for h in hs {
        let _ = h.join();
    }
    let st = s();
    Outcome { switches: st.switches.saturating_sub(n as u64 - 1), preempts: st.preempts, futex_waits: st.waits, clock_jumps: JUMPS.load(Ordering::Relaxed), sig: st.sig }
}

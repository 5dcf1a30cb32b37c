//! What a process sees of the machine and the account it runs on, apart from files and clocks:
//! environment variables, working directory, number of processors, parent, host name, addresses.
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static SEED: AtomicU64 = AtomicU64::new(0);
/// A simulated machine drawn from `seed`; 0: the real one.
pub fn set(seed: u64) {
    SEED.store(seed, Ordering::SeqCst)
}
fn drawn(what: &[u8]) -> Option<u64> {
    match SEED.load(Ordering::SeqCst) {
        0 => None,
        s => {
            let mut x = crate::src::hash_bytes(s, what);
            Some(crate::src::splitmix(&mut x) >> 8)
        }
    }
}
static VARS: Mutex<Option<HashMap<(u64, Vec<u8>), &'static [u8]>>> = Mutex::new(None);
/// # Safety
/// `name` is a C string
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const i8) -> *const i8 {
    let n = std::ffi::CStr::from_ptr(name.cast()).to_bytes();
    let d = if n.starts_with(b"RUST") || n.starts_with(b"SIM_") || n.starts_with(b"VERIF_") { None } else { drawn(n) };
    let Some(d) = d else { return real_env(n) };
    if d % 4 == 0 {
        return std::ptr::null();
    }
    crate::sched::masked(|| {
        let mut g = VARS.lock().unwrap_or_else(|e| e.into_inner());
        let m = g.get_or_insert_with(HashMap::new);
        let v = m.entry((SEED.load(Ordering::SeqCst), n.to_vec())).or_insert_with(|| {
            let path = [&b"DIR"[..], b"HOME", b"PATH", b"PWD", b"TMP", b"TEMP"].iter().any(|p| n.windows(p.len()).any(|w| w == *p));
            let s = match (d >> 2) % 4 {
                _ if path => format!("/sim/home/u{}\0", (d >> 4) % 1000),
                0 => "1\0".into(),
                1 => format!("{}\0", (d >> 4) % 2_000_000_000),
                2 => "de_DE.UTF-8\0".into(),
                _ => format!("v{:x}\0", d),
            };
            Box::leak(s.into_bytes().into_boxed_slice())
        });
        v.as_ptr().cast()
    })
}
unsafe fn real_env(n: &[u8]) -> *const i8 {
    extern "C" {
        static environ: *const *const u8;
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        if (0..n.len()).all(|i| *e.add(i) == n[i]) && *e.add(n.len()) == b'=' {
            return e.add(n.len() + 1).cast();
        }
        p = p.add(1);
    }
    std::ptr::null()
}
/// # Safety
/// as getcwd(3)
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    match drawn(b"cwd") {
        Some(d) if !b.is_null() => {
            let s = ["/\0", "/sim\0", "/sim/home/user/project\0", "/sim/builds/k\0"][(d % 4) as usize];
            if n < s.len() {
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
            b
        }
        _ => {
            if crate::sys::ret(crate::sys::raw6(79, b as u64, n as u64, 0, 0, 0, 0)) < 0 {
                return std::ptr::null_mut();
            }
            b
        }
    }
}
/// # Safety
/// as sched_getaffinity(2)
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, p: *mut u8) -> i32 {
    match drawn(b"cpus") {
        Some(d) => {
            let cpus = [1, 2, 3, 4, 8, 16, 24, 64][(d % 8) as usize];
            for i in 0..n {
                *p.add(i) = (0..8).map(|k| ((i * 8 + k < cpus) as u8) << k).sum();
            }
            0
        }
        None => {
            let r = crate::sys::raw6(204, pid as u64, n as u64, p as u64, 0, 0, 0);
            if r > 0 {
                for i in r as usize..n {
                    *p.add(i) = 0;
                }
            }
            crate::sys::ret(r.min(0)) as i32
        }
    }
}
#[no_mangle]
pub extern "C" fn getppid() -> i32 {
    match drawn(b"ppid") {
        Some(d) => 1 + (d % 60_000) as i32,
        None => unsafe { crate::sys::raw6(110, 0, 0, 0, 0, 0, 0) as i32 },
    }
}
/// # Safety
/// as gethostname(2)
#[no_mangle]
pub unsafe extern "C" fn gethostname(b: *mut u8, n: usize) -> i32 {
    let s = format!("host{}\0", drawn(b"host").unwrap_or(0) % 1000);
    std::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len().min(n));
    0
}
/// Leaves the heap of this process in another state, so that what is allocated later is elsewhere
/// and in another order.
pub fn shape_heap(seed: u64) {
    crate::sched::masked(|| shape(seed))
}
fn shape(seed: u64) {
    let mut x = seed | 1;
    let mut kept: Vec<Vec<u8>> = vec![];
    for _ in 0..crate::src::splitmix(&mut x) % 400 {
        let r = crate::src::splitmix(&mut x);
        kept.push(Vec::with_capacity(16 + (r % 600) as usize));
        if r >> 60 > 4 {
            let i = (r >> 20) as usize % kept.len();
            drop(kept.swap_remove(i));
        }
    }
    // half of the blocks stay behind, the others become holes in a drawn order
    for i in (0..kept.len()).rev().step_by(2) {
        let k = crate::src::splitmix(&mut x) as usize % (i + 1);
        drop(kept.swap_remove(k));
    }
    std::mem::forget(kept);
}

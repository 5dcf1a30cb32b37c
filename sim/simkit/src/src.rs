//! The single source of every decision of a run. A run is a function of its choice sequence:
//! either drawn from the PRNG stream (seed, check, run) or taken from a replay file.
use std::cell::UnsafeCell;

pub struct Inner {
    s: [u64; 4],
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// shared memory: [count, choices...], survives the death of the process
    shm: *mut u64,
    shm_cap: usize,
    pub digest: u64,
    pub draws: u64,
    frozen: bool,
}
struct Glob(UnsafeCell<Inner>);
// only the simulated thread that holds the scheduler token draws
unsafe impl Sync for Glob {}
static SRC: Glob = Glob(UnsafeCell::new(Inner {
    s: [1, 2, 3, 4],
    replay: None,
    pos: 0,
    rec: Vec::new(),
    shm: std::ptr::null_mut(),
    shm_cap: 0,
    digest: 0,
    draws: 0,
    frozen: false,
}));
#[allow(clippy::mut_from_ref)]
fn src() -> &'static mut Inner {
    unsafe { &mut *SRC.0.get() }
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3).rotate_left(23)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = fnv(h, u64::from_le_bytes(x) ^ ((c.len() as u64) << 56));
    }
    h
}
pub fn set_shm(p: *mut u64, cap: usize) {
    src().shm = p;
    src().shm_cap = cap;
}
pub fn start_seeded(seed: u64, check: &str, run: u64) {
    let mut x = seed ^ hash_bytes(0xcbf29ce484222325, check.as_bytes());
    let a = splitmix(&mut x);
    let mut y = a ^ run.wrapping_mul(0xD1342543DE82EF95);
    let s = src();
    for v in s.s.iter_mut() {
        *v = splitmix(&mut y);
    }
    begin(None);
}
pub fn start_replay(choices: Vec<u64>) {
    begin(Some(choices));
}
fn begin(r: Option<Vec<u64>>) {
    let s = src();
    s.replay = r;
    s.pos = 0;
    s.rec.clear();
    s.digest = 0xcbf29ce484222325;
    s.draws = 0;
    s.frozen = false;
    if !s.shm.is_null() {
        unsafe { *s.shm = 0 }
    }
}
/// After this, draws return 0 and are not recorded (post-run checks must not draw).
pub fn finish() {
    src().frozen = true;
}
pub fn choices() -> Vec<u64> {
    src().rec.clone()
}
pub fn digest() -> u64 {
    src().digest
}
/// Mixes an observed event into the history digest of the run.
pub fn observe(v: u64) {
    let s = src();
    s.digest = fnv(s.digest, v);
}
pub fn below(n: u64) -> u64 {
    crate::alloc::untracked(|| below_(n))
}
fn below_(n: u64) -> u64 {
    let s = src();
    if n <= 1 || s.frozen {
        return 0;
    }
    s.draws += 1;
    let v = match &s.replay {
        Some(r) => {
            let v = r.get(s.pos).copied().unwrap_or(0);
            v.min(n - 1)
        }
        None => {
            let t = &mut s.s;
            let result = t[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
            let u = t[1] << 17;
            t[2] ^= t[0];
            t[3] ^= t[1];
            t[1] ^= t[2];
            t[0] ^= t[3];
            t[2] ^= u;
            t[3] = t[3].rotate_left(45);
            ((result as u128 * n as u128) >> 64) as u64
        }
    };
    s.pos += 1;
    s.rec.push(v);
    if !s.shm.is_null() {
        let i = s.rec.len();
        if i < s.shm_cap {
            unsafe {
                *s.shm.add(i) = v;
                std::ptr::write_volatile(s.shm, i as u64);
            }
        }
    }
    s.digest = fnv(s.digest, v.wrapping_add(n << 32));
    v
}
pub fn chance(num: u64, den: u64) -> bool {
    below(den) >= den - num
}
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + below(hi - lo + 1)
}
/// One of the items, the first being the simplest.
pub fn pick<T: Clone>(v: &[T]) -> T {
    v[below(v.len() as u64) as usize].clone()
}
/// The choices as a `Draw` for value generation.
pub struct G;
impl simmodel::gen::Draw for G {
    fn below(&mut self, n: u64) -> u64 {
        below(n)
    }
}

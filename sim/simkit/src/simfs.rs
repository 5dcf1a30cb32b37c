//! Simulated file system below `/sim`, in place of the C library's file functions for such paths:
//! the code under test uses std::fs unchanged. Every operation is a numbered step at which the run
//! can inject an error, a short or interrupted transfer, a full disk or the death of the process;
//! directory listings come in any order; power loss tears what was not synced.
use crate::{below, chance, src, sys};
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::ffi::CStr;

pub const BASE: i32 = 1 << 20;
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
}
#[derive(Clone, Debug)]
struct Open {
    path: String,
    ino: u64,
    pos: u64,
    append: bool,
    dir: bool,
    rd: bool,
    wr: bool,
    live: bool,
}
/// What goes wrong.
#[derive(Clone, Debug)]
pub struct Plan {
    /// operation (counted from `arm`) that fails
    pub fail_at: Option<u64>,
    /// only operations of this kind are counted for `fail_at`
    pub only: Option<&'static str>,
    /// kinds that never fail (their failure cannot be seen by any program)
    pub errno: i32,
    pub persistent: bool,
    /// short and interrupted transfers, in 1/64
    pub short: u64,
    pub intr: u64,
    /// bytes that can still be stored
    pub space: Option<u64>,
    /// the process dies before this operation: nothing it does afterwards has any effect
    pub die_at: Option<u64>,
    pub shuffle: bool,
    /// file sizes reported wrongly (a file that changes while it is read)
    pub lie: bool,
}
impl Plan {
    pub fn calm() -> Plan {
        Plan { fail_at: None, only: None, errno: 5, persistent: false, short: 0, intr: 0, space: None, die_at: None, shuffle: false, lie: false }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub op: u64,
    pub kind: &'static str,
    pub path: String,
    /// errno, 0 for success
    pub err: i32,
    pub n: u64,
}
#[derive(Default)]
struct Fs {
    /// names
    tree: BTreeMap<String, u64>,
    /// inodes: content survives its name while open
    ino: BTreeMap<u64, Node>,
    next: u64,
    fds: Vec<Option<Open>>,
    dirs: BTreeMap<usize, (Vec<(String, u64)>, usize, i32)>,
    plan: Option<Plan>,
    ops: u64,
    counted: u64,
    injected: u64,
    dead: bool,
    log: Vec<Ev>,
    /// what a power loss falls back to, by path; None: did not exist
    stable: BTreeMap<String, Option<Vec<u8>>>,
    broken: bool,
    pub unsupported: Vec<String>,
    sim_ns: u64,
    /// the wall clock of the simulated machine
    wall: u64,
    /// modification times, by inode
    mtime: BTreeMap<u64, u64>,
}
/// Time stamps of files are as coarse as the timer tick.
const TICK: u64 = 4_000_000;
static MUTE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Drops what the code under test prints to standard error.
pub fn mute_stderr(on: bool) {
    MUTE.store(on, std::sync::atomic::Ordering::Relaxed)
}
struct Glob(UnsafeCell<Option<Fs>>);
unsafe impl Sync for Glob {}
static FS: Glob = Glob(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
fn fs() -> &'static mut Fs {
    unsafe { (*FS.0.get()).get_or_insert_with(Default::default) }
}
fn quiet<X>(f: impl FnOnce() -> X) -> X {
    crate::cov::yield_point();
    crate::alloc::untracked(|| {
        crate::cov::T.try_with(|t| t.mask.set(t.mask.get() + 1)).ok();
        let x = f();
        crate::cov::T.try_with(|t| t.mask.set(t.mask.get() - 1)).ok();
        x
    })
}
pub fn reset() {
    *fs() = Fs { next: 10, wall: 1_700_000_000_000_000_000, ..Default::default() };
    mkdirs("/sim");
}
pub fn arm(p: Plan) {
    let f = fs();
    f.plan = Some(p);
    f.ops = 0;
    f.counted = 0;
    f.injected = 0;
    f.dead = false;
    f.broken = false;
    f.log.clear();
}
/// Ends fault injection and the simulated process: open files are closed.
pub fn disarm() -> Vec<Ev> {
    let f = fs();
    f.plan = None;
    f.dead = false;
    f.fds.clear();
    f.dirs.clear();
    std::mem::take(&mut f.log)
}
pub fn ops() -> u64 {
    fs().ops
}
pub fn injected() -> u64 {
    fs().injected
}
pub fn died() -> bool {
    fs().dead
}
pub fn sim_ns() -> u64 {
    std::mem::take(&mut fs().sim_ns)
}
pub fn unsupported() -> Vec<String> {
    fs().unsupported.clone()
}
/// The wall clock of the simulated machine, which a look at it advances.
pub fn wall() -> Option<u64> {
    let f = unsafe { (*FS.0.get()).as_mut()? };
    f.wall += 1_000;
    Some(f.wall)
}
/// Time passes, or the clock is set back.
pub fn clock_moves(ns: i64) {
    let f = fs();
    f.wall = f.wall.wrapping_add_signed(ns)
}
pub fn mkdirs(p: &str) {
    let f = fs();
    let mut s = String::new();
    for c in p.split('/').filter(|c| !c.is_empty()) {
        s.push('/');
        s.push_str(c);
        if !f.tree.contains_key(&s) {
            f.next += 1;
            f.tree.insert(s.clone(), f.next);
            f.ino.insert(f.next, Node::Dir);
        }
    }
}
pub fn put(p: &str, b: &[u8]) {
    if let Some((d, _)) = p.rsplit_once('/') {
        mkdirs(d);
    }
    let f = fs();
    f.next += 1;
    f.tree.insert(p.to_string(), f.next);
    f.ino.insert(f.next, Node::File(b.to_vec()));
    f.wall += 1_000_000;
    f.mtime.insert(f.next, f.wall);
}
/// Puts files in the place of all that is there, while the simulated process goes on.
pub fn replace(dir: &str, t: &[(String, Vec<u8>)]) {
    quiet(|| {
        remove(dir);
        mkdirs(dir);
        for (p, b) in t {
            put(&format!("{}/{}", dir, p), b);
        }
    })
}
pub fn remove(p: &str) {
    let f = fs();
    let pre = format!("{}/", p);
    f.tree.retain(|k, _| k != p && !k.starts_with(&pre));
}
pub fn get(p: &str) -> Option<Node> {
    let f = fs();
    f.tree.get(p).and_then(|i| f.ino.get(i)).cloned()
}
/// All files below a directory.
pub fn files(p: &str) -> BTreeMap<String, Vec<u8>> {
    let f = fs();
    let pre = format!("{}/", p);
    f.tree
        .iter()
        .filter(|(k, _)| k.starts_with(&pre))
        .filter_map(|(k, i)| match f.ino.get(i) {
            Some(Node::File(b)) => Some((k[pre.len()..].to_string(), b.clone())),
            _ => None,
        })
        .collect()
}
/// From here on everything present is durable.
pub fn sync_all() {
    fs().stable.clear();
}
fn touched(f: &mut Fs, p: &str) {
    if !f.stable.contains_key(p) {
        let old = match f.tree.get(p).and_then(|i| f.ino.get(i)) {
            Some(Node::File(b)) => Some(b.clone()),
            _ => None,
        };
        f.stable.insert(p.to_string(), old);
    }
}
/// Power loss: every file changed since the last sync ends in one of the states a disk may show.
pub fn power_loss(mut note: impl FnMut(&str, &'static str)) {
    let f = fs();
    let st = std::mem::take(&mut f.stable);
    for (p, old) in st {
        let new = match f.tree.get(&p).and_then(|i| f.ino.get(i)) {
            Some(Node::File(b)) => Some(b.clone()),
            _ => None,
        };
        if new == old {
            continue;
        }
        let set = |f: &mut Fs, b: Option<Vec<u8>>| match b {
            None => {
                f.tree.remove(&p);
            }
            Some(b) => {
                let t = f.tree.get(&p).and_then(|i| f.mtime.get(i)).copied().unwrap_or(f.wall);
                f.next += 1;
                f.tree.insert(p.clone(), f.next);
                f.ino.insert(f.next, Node::File(b));
                f.mtime.insert(f.next, t);
            }
        };
        match below(6) {
            0 => note(&p, "kept"),
            1 => {
                set(f, old);
                note(&p, "lost-back-to-old")
            }
            2 => {
                let mut b = new.unwrap_or_default();
                b.truncate(below(b.len() as u64 + 1) as usize);
                set(f, Some(b));
                note(&p, "torn")
            }
            3 => {
                let mut b = new.unwrap_or_default();
                let n = b.len();
                let k = (below(n as u64 + 1) as usize) & !511;
                b[k..].fill(0);
                set(f, Some(b));
                note(&p, "tail-zeroed")
            }
            4 => {
                set(f, Some(vec![]));
                note(&p, "emptied")
            }
            _ => {
                // new prefix over the old content
                let b = new.unwrap_or_default();
                let k = below(b.len() as u64 + 1) as usize;
                let mut m = b[..k].to_vec();
                if let Some(o) = old {
                    if o.len() > k {
                        m.extend_from_slice(&o[k..]);
                    }
                }
                set(f, Some(m));
                note(&p, "mixed-with-old")
            }
        }
    }
}
fn norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
unsafe fn sim_path(p: *const i8) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b == b"/sim" || b.starts_with(b"/sim/") {
        Some(crate::alloc::untracked(|| norm(&String::from_utf8_lossy(b))))
    } else {
        None
    }
}
unsafe fn at_path(dfd: i32, p: *const i8) -> Option<String> {
    if let Some(p) = sim_path(p) {
        return Some(p);
    }
    if dfd >= BASE && !p.is_null() {
        return crate::alloc::untracked(|| {
            let b = CStr::from_ptr(p).to_string_lossy().to_string();
            let d = fs().fds.get((dfd - BASE) as usize).cloned().flatten()?;
            Some(norm(&format!("{}/{}", d.path, b)))
        });
    }
    None
}
/// One step of the simulated process: decides whether it fails.
fn step(kind: &'static str, path: &str, n: u64) -> Result<(), i32> {
    let f = fs();
    f.ops += 1;
    let took = 20_000 + below(3) * 2_000_000;
    f.sim_ns += took;
    f.wall += took;
    let op = f.ops;
    let Some(p) = f.plan.clone() else { return Ok(()) };
    if p.die_at.map(|d| op > d).unwrap_or(false) {
        f.dead = true;
    }
    if f.dead {
        return Err(5);
    }
    let counts = p.only.map(|k| k == kind).unwrap_or(true);
    if counts {
        f.counted += 1;
    }
    let hit = p.fail_at == Some(f.counted) && counts || (f.broken && p.persistent);
    src::observe(src::hash_bytes(op, kind.as_bytes()));
    if hit {
        f.broken = true;
        f.injected += 1;
        f.log.push(Ev { op, kind, path: path.to_string(), err: p.errno, n });
        return Err(p.errno);
    }
    if f.log.len() < 20_000 {
        f.log.push(Ev { op, kind, path: path.to_string(), err: 0, n });
    }
    Ok(())
}
fn transfer(data: &[u8]) -> Result<usize, i32> {
    let n = data.len();
    let f = fs();
    let Some(p) = &f.plan else { return Ok(n) };
    if n == 0 {
        return Ok(0);
    }
    if p.intr > 0 && chance(p.intr, 64) {
        if let Some(e) = f.log.last_mut() {
            e.err = 4;
        }
        return Err(4);
    }
    let mut m = n;
    if p.short > 0 && n > 1 && chance(p.short, 64) {
        m = 1 + below(n as u64 - 1) as usize;
        // half of them end inside of a character, where there is one of several bytes
        if chance(1, 2) {
            if let Some(k) = (m..n).chain(1..m).find(|k| data[*k] & 0xc0 == 0x80) {
                m = k;
            }
        }
    }
    if let Some(e) = f.log.last_mut() {
        e.n = m as u64;
        if m < n {
            e.err = -1;
        }
    }
    Ok(m)
}
fn parent_ok(f: &Fs, p: &str) -> Result<(), i32> {
    let d = p.rsplit_once('/').map(|x| x.0).unwrap_or("");
    if d.is_empty() {
        return Ok(());
    }
    match f.tree.get(d).and_then(|i| f.ino.get(i)) {
        Some(Node::Dir) => Ok(()),
        Some(_) => Err(20),
        None => Err(2),
    }
}
fn do_open(p: String, fl: i32) -> Result<i32, i32> {
    let (acc, creat, excl, trunc, append, dir) = (fl & 3, fl & 0o100 != 0, fl & 0o200 != 0, fl & 0o1000 != 0, fl & 0o2000 != 0, fl & 0o200000 != 0);
    let wr = acc != 0;
    step(if creat { "create" } else if dir { "opendir" } else { "open" }, &p, 0)?;
    let f = fs();
    parent_ok(f, &p)?;
    let ino = match f.tree.get(&p).copied() {
        Some(i) => {
            if creat && excl {
                return Err(17);
            }
            match f.ino.get(&i) {
                Some(Node::Dir) if wr => return Err(21),
                Some(Node::File(_)) if dir => return Err(20),
                _ => {}
            }
            if trunc && wr {
                touched(f, &p);
                f.ino.insert(i, Node::File(vec![]));
                f.mtime.insert(i, f.wall);
            }
            i
        }
        None => {
            if !creat {
                return Err(2);
            }
            if f.plan.as_ref().and_then(|p| p.space) == Some(0) {
                f.injected += 1;
                return Err(28);
            }
            touched(f, &p);
            f.next += 1;
            let i = f.next;
            f.tree.insert(p.clone(), i);
            f.ino.insert(i, Node::File(vec![]));
            f.mtime.insert(i, f.wall);
            i
        }
    };
    let isdir = matches!(f.ino.get(&ino), Some(Node::Dir));
    f.fds.push(Some(Open { path: p, ino, pos: 0, append, dir: isdir, rd: acc != 1, wr, live: true }));
    Ok(BASE + f.fds.len() as i32 - 1)
}
fn file(fd: i32) -> Result<&'static mut Open, i32> {
    match fs().fds.get_mut((fd - BASE) as usize) {
        Some(Some(o)) if o.live => Ok(o),
        _ => Err(9),
    }
}
fn do_read(fd: i32, buf: &mut [u8], at: Option<u64>) -> Result<usize, i32> {
    let o = file(fd)?;
    step("read", &o.path.clone(), buf.len() as u64)?;
    if o.dir {
        return Err(21);
    }
    if !o.rd {
        return Err(9);
    }
    let f = fs();
    let Some(Node::File(b)) = f.ino.get(&o.ino) else { return Err(5) };
    let pos = at.unwrap_or(o.pos).min(b.len() as u64) as usize;
    let n = buf.len().min(b.len() - pos);
    let n = transfer(&b[pos..pos + n])?;
    buf[..n].copy_from_slice(&b[pos..pos + n]);
    if at.is_none() {
        o.pos += n as u64;
    }
    Ok(n)
}
fn do_write(fd: i32, buf: &[u8], at: Option<u64>) -> Result<usize, i32> {
    let o = file(fd)?;
    step("write", &o.path.clone(), buf.len() as u64)?;
    if !o.wr {
        return Err(9);
    }
    let mut n = transfer(buf)?;
    let f = fs();
    if let Some(p) = f.plan.as_mut() {
        if let Some(s) = p.space.as_mut() {
            if *s == 0 && n > 0 {
                f.injected += 1;
                if let Some(e) = f.log.last_mut() {
                    e.err = 28;
                }
                return Err(28);
            }
            n = n.min(*s as usize);
            *s -= n as u64;
        }
    }
    touched(f, &o.path);
    f.mtime.insert(o.ino, f.wall);
    let Some(Node::File(b)) = f.ino.get_mut(&o.ino) else { return Err(5) };
    let pos = if o.append { b.len() as u64 } else { at.unwrap_or(o.pos) } as usize;
    if b.len() < pos + n {
        b.resize(pos + n, 0);
    }
    b[pos..pos + n].copy_from_slice(&buf[..n]);
    if at.is_none() {
        o.pos = (pos + n) as u64;
    }
    Ok(n)
}
fn fin(r: Result<i64, i32>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => {
            sys::set_errno(e);
            -1
        }
    }
}
struct St {
    ino: u64,
    dir: bool,
    size: u64,
    time: u64,
}
fn do_stat(p: Result<String, i32>, ino: Option<u64>) -> Result<St, i32> {
    let p = p?;
    step("stat", &p, 0)?;
    let f = fs();
    let i = match ino {
        Some(i) => i,
        None => {
            parent_ok(f, &p)?;
            *f.tree.get(&p).ok_or(2)?
        }
    };
    let time = f.mtime.get(&i).copied().unwrap_or(1_700_000_000_000_000_000) / TICK * TICK;
    match f.ino.get(&i) {
        Some(Node::Dir) => Ok(St { ino: i, dir: true, size: 4096, time }),
        Some(Node::File(b)) => {
            let mut size = b.len() as u64;
            if f.plan.as_ref().map(|p| p.lie).unwrap_or(false) {
                size = [0, 1, size / 2, size + 1, size * 3 + 7, 1 << 20][below(6) as usize];
            }
            Ok(St { ino: i, dir: false, size, time })
        }
        None => Err(2),
    }
}
unsafe fn fill_stat(b: *mut u8, s: &St) {
    std::ptr::write_bytes(b, 0, 144);
    let w = |o: usize, v: u64| std::ptr::write_unaligned(b.add(o) as *mut u64, v);
    w(0, 77);
    w(8, s.ino);
    w(16, 1);
    std::ptr::write_unaligned(b.add(24) as *mut u32, if s.dir { 0o040755 } else { 0o100644 });
    w(48, s.size);
    w(56, 4096);
    w(64, s.size.div_ceil(512));
    for o in [72, 88, 104] {
        w(o, s.time / 1_000_000_000);
        w(o + 8, s.time % 1_000_000_000);
    }
}
unsafe fn fill_statx(b: *mut u8, s: &St) {
    std::ptr::write_bytes(b, 0, 256);
    std::ptr::write_unaligned(b as *mut u32, 0x7ff);
    std::ptr::write_unaligned(b.add(4) as *mut u32, 4096);
    std::ptr::write_unaligned(b.add(16) as *mut u32, 1);
    std::ptr::write_unaligned(b.add(28) as *mut u16, if s.dir { 0o040755 } else { 0o100644 });
    std::ptr::write_unaligned(b.add(32) as *mut u64, s.ino);
    std::ptr::write_unaligned(b.add(40) as *mut u64, s.size);
    std::ptr::write_unaligned(b.add(48) as *mut u64, s.size.div_ceil(512));
    for o in [64, 80, 96, 112] {
        std::ptr::write_unaligned(b.add(o) as *mut u64, s.time / 1_000_000_000);
        std::ptr::write_unaligned(b.add(o + 8) as *mut u32, (s.time % 1_000_000_000) as u32);
    }
    std::ptr::write_unaligned(b.add(136) as *mut u32, 77);
}
fn fd_of(fd: i32) -> Result<(String, u64), i32> {
    file(fd).map(|o| (o.path.clone(), o.ino))
}
unsafe fn raw(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64) -> i64 {
    sys::ret(sys::raw6(n, a, b, c, d, e, 0))
}
const AT_FDCWD: i32 = -100;

macro_rules! c { ($($(#[$m:meta])* fn $n:ident($($a:ident: $t:ty),*) -> $r:ty $b:block)*) => { $( #[no_mangle] #[allow(clippy::missing_safety_doc)] pub unsafe extern "C" fn $n($($a: $t),*) -> $r $b )* } }
c! {
    fn open64(p: *const i8, fl: i32, m: u32) -> i32 {
        match sim_path(p) {
            Some(p) => quiet(|| fin(do_open(p, fl).map(|x| x as i64)) as i32),
            None => raw(257, AT_FDCWD as u64, p as u64, fl as u64, m as u64, 0) as i32,
        }
    }
    fn openat64(d: i32, p: *const i8, fl: i32, m: u32) -> i32 {
        match at_path(d, p) {
            Some(p) => quiet(|| fin(do_open(p, fl).map(|x| x as i64)) as i32),
            None => raw(257, d as u64, p as u64, fl as u64, m as u64, 0) as i32,
        }
    }
    fn close(fd: i32) -> i32 {
        if fd < BASE { return raw(3, fd as u64, 0, 0, 0, 0) as i32 }
        quiet(|| match file(fd) { Ok(o) => { o.live = false; 0 } Err(_) => 0 })
    }
    fn read(fd: i32, b: *mut u8, n: usize) -> isize {
        if fd < BASE { return raw(0, fd as u64, b as u64, n as u64, 0, 0) as isize }
        quiet(|| fin(do_read(fd, std::slice::from_raw_parts_mut(b, n), None).map(|x| x as i64)) as isize)
    }
    fn write(fd: i32, b: *const u8, n: usize) -> isize {
        if fd == 2 && MUTE.load(std::sync::atomic::Ordering::Relaxed) { return n as isize }
        if fd < BASE { return raw(1, fd as u64, b as u64, n as u64, 0, 0) as isize }
        quiet(|| fin(do_write(fd, std::slice::from_raw_parts(b, n), None).map(|x| x as i64)) as isize)
    }
    fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
        if fd < BASE { return raw(17, fd as u64, b as u64, n as u64, o as u64, 0) as isize }
        quiet(|| fin(do_read(fd, std::slice::from_raw_parts_mut(b, n), Some(o as u64)).map(|x| x as i64)) as isize)
    }
    fn pwrite64(fd: i32, b: *const u8, n: usize, o: i64) -> isize {
        if fd < BASE { return raw(18, fd as u64, b as u64, n as u64, o as u64, 0) as isize }
        quiet(|| fin(do_write(fd, std::slice::from_raw_parts(b, n), Some(o as u64)).map(|x| x as i64)) as isize)
    }
    fn readv(fd: i32, v: *const [usize; 2], n: i32) -> isize {
        if fd < BASE { return raw(19, fd as u64, v as u64, n as u64, 0, 0) as isize }
        for i in 0..n as usize {
            let x = *v.add(i);
            if x[1] > 0 { return read(fd, x[0] as *mut u8, x[1]) }
        }
        0
    }
    fn writev(fd: i32, v: *const [usize; 2], n: i32) -> isize {
        if fd < BASE { return raw(20, fd as u64, v as u64, n as u64, 0, 0) as isize }
        for i in 0..n as usize {
            let x = *v.add(i);
            if x[1] > 0 { return write(fd, x[0] as *const u8, x[1]) }
        }
        0
    }
    fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
        if fd < BASE { return raw(8, fd as u64, o as u64, w as u64, 0, 0) }
        quiet(|| fin((|| {
            let f = file(fd)?;
            let len = match fs().ino.get(&f.ino) { Some(Node::File(b)) => b.len() as i64, _ => 0 };
            let n = match w { 0 => o, 1 => f.pos as i64 + o, _ => len + o };
            if n < 0 { return Err(22) }
            f.pos = n as u64;
            Ok(n)
        })()))
    }
    fn lseek(fd: i32, o: i64, w: i32) -> i64 { lseek64(fd, o, w) }
    fn fstat64(fd: i32, b: *mut u8) -> i32 {
        if fd < BASE { return raw(5, fd as u64, b as u64, 0, 0, 0) as i32 }
        quiet(|| fin(fd_of(fd).and_then(|(p, i)| do_stat(Ok(p), Some(i))).map(|s| { fill_stat(b, &s); 0 })) as i32)
    }
    fn fstat(fd: i32, b: *mut u8) -> i32 { fstat64(fd, b) }
    fn stat64(p: *const i8, b: *mut u8) -> i32 {
        match sim_path(p) {
            Some(p) => quiet(|| fin(do_stat(Ok(p), None).map(|s| { fill_stat(b, &s); 0 })) as i32),
            None => raw(4, p as u64, b as u64, 0, 0, 0) as i32,
        }
    }
    fn stat(p: *const i8, b: *mut u8) -> i32 { stat64(p, b) }
    fn lstat64(p: *const i8, b: *mut u8) -> i32 {
        match sim_path(p) {
            Some(_) => stat64(p, b),
            None => raw(6, p as u64, b as u64, 0, 0, 0) as i32,
        }
    }
    fn lstat(p: *const i8, b: *mut u8) -> i32 { lstat64(p, b) }
    fn fstatat64(d: i32, p: *const i8, b: *mut u8, fl: i32) -> i32 {
        match at_path(d, p) {
            Some(p) => quiet(|| fin(do_stat(Ok(p), None).map(|s| { fill_stat(b, &s); 0 })) as i32),
            None => raw(262, d as u64, p as u64, b as u64, fl as u64, 0) as i32,
        }
    }
    fn statx(d: i32, p: *const i8, fl: i32, mask: u32, b: *mut u8) -> i32 {
        if d >= BASE && !p.is_null() && *p == 0 {
            return quiet(|| fin(fd_of(d).and_then(|(p, i)| do_stat(Ok(p), Some(i))).map(|s| { fill_statx(b, &s); 0 })) as i32)
        }
        match at_path(d, p) {
            Some(p) => quiet(|| fin(do_stat(Ok(p), None).map(|s| { fill_statx(b, &s); 0 })) as i32),
            None => raw(332, d as u64, p as u64, fl as u64, mask as u64, b as u64) as i32,
        }
    }
    fn mkdir(p: *const i8, m: u32) -> i32 {
        match sim_path(p) {
            Some(p) => quiet(|| fin((|| {
                step("mkdir", &p, 0)?;
                let f = fs();
                if f.tree.contains_key(&p) { return Err(17) }
                parent_ok(f, &p)?;
                mkdirs(&p);
                Ok(0)
            })()) as i32),
            None => raw(83, p as u64, m as u64, 0, 0, 0) as i32,
        }
    }
    fn unlink(p: *const i8) -> i32 {
        match sim_path(p) {
            Some(p) => quiet(|| fin(do_unlink(p, false)) as i32),
            None => raw(87, p as u64, 0, 0, 0, 0) as i32,
        }
    }
    fn rmdir(p: *const i8) -> i32 {
        match sim_path(p) {
            Some(p) => quiet(|| fin(do_unlink(p, true)) as i32),
            None => raw(84, p as u64, 0, 0, 0, 0) as i32,
        }
    }
    fn unlinkat(d: i32, p: *const i8, fl: i32) -> i32 {
        match at_path(d, p) {
            Some(p) => quiet(|| fin(do_unlink(p, fl & 0x200 != 0)) as i32),
            None => raw(263, d as u64, p as u64, fl as u64, 0, 0) as i32,
        }
    }
    fn rename(a: *const i8, b: *const i8) -> i32 {
        match (sim_path(a), sim_path(b)) {
            (Some(a), Some(b)) => quiet(|| fin(do_rename(a, b)) as i32),
            (None, None) => raw(82, a as u64, b as u64, 0, 0, 0) as i32,
            _ => { sys::set_errno(18); -1 }
        }
    }
    fn fsync(fd: i32) -> i32 {
        if fd < BASE { return raw(74, fd as u64, 0, 0, 0, 0) as i32 }
        quiet(|| fin((|| {
            let o = file(fd)?;
            let p = o.path.clone();
            step("fsync", &p, 0)?;
            fs().stable.remove(&p);
            Ok(0)
        })()) as i32)
    }
    fn fdatasync(fd: i32) -> i32 {
        if fd < BASE { return raw(75, fd as u64, 0, 0, 0, 0) as i32 }
        fsync(fd)
    }
    fn ftruncate64(fd: i32, n: i64) -> i32 {
        if fd < BASE { return raw(77, fd as u64, n as u64, 0, 0, 0) as i32 }
        quiet(|| fin((|| {
            let o = file(fd)?;
            step("truncate", &o.path.clone(), n as u64)?;
            let f = fs();
            touched(f, &o.path);
            if let Some(Node::File(b)) = f.ino.get_mut(&o.ino) { b.resize(n as usize, 0) }
            Ok(0)
        })()) as i32)
    }
    fn access(p: *const i8, m: i32) -> i32 {
        match sim_path(p) {
            Some(p) => quiet(|| fin(do_stat(Ok(p), None).map(|_| 0)) as i32),
            None => raw(21, p as u64, m as u64, 0, 0, 0) as i32,
        }
    }
    fn chmod(p: *const i8, m: u32) -> i32 {
        match sim_path(p) {
            Some(p) => quiet(|| fin(do_stat(Ok(p), None).map(|_| 0)) as i32),
            None => raw(90, p as u64, m as u64, 0, 0, 0) as i32,
        }
    }
    fn fchmod(fd: i32, m: u32) -> i32 {
        if fd < BASE { return raw(91, fd as u64, m as u64, 0, 0, 0) as i32 }
        0
    }
    fn fcntl(fd: i32, cmd: i32, arg: u64) -> i32 {
        if fd < BASE { return raw(72, fd as u64, cmd as u64, arg, 0, 0) as i32 }
        match file(fd) { Ok(_) => 0, Err(e) => { sys::set_errno(e); -1 } }
    }
    fn fcntl64(fd: i32, cmd: i32, arg: u64) -> i32 { fcntl(fd, cmd, arg) }
    fn readlink(p: *const i8, b: *mut u8, n: usize) -> isize {
        match sim_path(p) {
            Some(_) => { sys::set_errno(22); -1 }
            None => raw(89, p as u64, b as u64, n as u64, 0, 0) as isize,
        }
    }
    fn realpath(p: *const i8, out: *mut i8) -> *mut i8 {
        match sim_path(p) {
            Some(p) => quiet(|| {
                match do_stat(Ok(p.clone()), None) {
                    Ok(_) => {
                        let b = if out.is_null() { malloc(p.len() + 1) as *mut i8 } else { out };
                        std::ptr::copy_nonoverlapping(p.as_ptr() as *const i8, b, p.len());
                        *b.add(p.len()) = 0;
                        b
                    }
                    Err(e) => { sys::set_errno(e); std::ptr::null_mut() }
                }
            }),
            None => {
                let f: extern "C" fn(*const i8, *mut i8) -> *mut i8 = std::mem::transmute(next(c"realpath"));
                f(p, out)
            }
        }
    }
    fn opendir(p: *const i8) -> *mut u8 {
        match sim_path(p) {
            Some(p) => quiet(|| match do_opendir(p) {
                Ok(d) => d,
                Err(e) => { sys::set_errno(e); std::ptr::null_mut() }
            }),
            None => {
                let f: extern "C" fn(*const i8) -> *mut u8 = std::mem::transmute(next(c"opendir"));
                f(p)
            }
        }
    }
    fn fdopendir(fd: i32) -> *mut u8 {
        if fd >= BASE {
            return quiet(|| match fd_of(fd).and_then(|(p, _)| do_opendir(p)) {
                Ok(d) => d,
                Err(e) => { sys::set_errno(e); std::ptr::null_mut() }
            })
        }
        let f: extern "C" fn(i32) -> *mut u8 = std::mem::transmute(next(c"fdopendir"));
        f(fd)
    }
    fn readdir64(d: *mut u8) -> *mut u8 {
        if is_dir(d) {
            return quiet(|| {
                let f = fs();
                let path = f.dirs.get(&(d as usize)).map(|x| x.2.to_string()).unwrap_or_default();
                if let Err(e) = step("readdir", &path, 0) { sys::set_errno(e); return std::ptr::null_mut() }
                let x = f.dirs.get_mut(&(d as usize)).unwrap();
                if x.1 >= x.0.len() { return std::ptr::null_mut() }
                let (name, ino) = x.0[x.1].clone();
                x.1 += 1;
                let isdir = matches!(f.ino.get(&ino), Some(Node::Dir));
                // struct dirent64 lives behind the handle
                std::ptr::write_unaligned(d as *mut u64, ino);
                std::ptr::write_unaligned(d.add(8) as *mut u64, x.1 as u64);
                std::ptr::write_unaligned(d.add(16) as *mut u16, 280);
                *d.add(18) = if isdir { 4 } else { 8 };
                std::ptr::copy_nonoverlapping(name.as_ptr(), d.add(19), name.len());
                *d.add(19 + name.len()) = 0;
                d
            })
        }
        let f: extern "C" fn(*mut u8) -> *mut u8 = std::mem::transmute(next(c"readdir64"));
        f(d)
    }
    fn readdir(d: *mut u8) -> *mut u8 { readdir64(d) }
    fn closedir(d: *mut u8) -> i32 {
        if is_dir(d) {
            return quiet(|| { fs().dirs.remove(&(d as usize)); 0 })
        }
        let f: extern "C" fn(*mut u8) -> i32 = std::mem::transmute(next(c"closedir"));
        f(d)
    }
    fn dirfd(d: *mut u8) -> i32 {
        if is_dir(d) { return fs().dirs.get(&(d as usize)).map(|x| x.2).unwrap_or(-1) }
        let f: extern "C" fn(*mut u8) -> i32 = std::mem::transmute(next(c"dirfd"));
        f(d)
    }
}
extern "C" {
    fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
    fn malloc(n: usize) -> *mut u8;
}
unsafe fn next(n: &CStr) -> *mut u8 {
    dlsym(-1isize as *mut u8, n.as_ptr())
}
fn is_dir(d: *mut u8) -> bool {
    unsafe { (*FS.0.get()).as_ref().map(|f| f.dirs.contains_key(&(d as usize))).unwrap_or(false) }
}
fn do_opendir(p: String) -> Result<*mut u8, i32> {
    step("opendir", &p, 0)?;
    let f = fs();
    match f.tree.get(&p).and_then(|i| f.ino.get(i)) {
        Some(Node::Dir) => {}
        Some(_) => return Err(20),
        None => return Err(2),
    }
    let pre = format!("{}/", p);
    let mut v: Vec<(String, u64)> = f.tree.iter().filter(|(k, _)| k.starts_with(&pre) && !k[pre.len()..].contains('/')).map(|(k, i)| (k[pre.len()..].to_string(), *i)).collect();
    if f.plan.as_ref().map(|p| p.shuffle).unwrap_or(false) {
        for i in (1..v.len()).rev() {
            let j = i - below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    let b: Box<[u64; 40]> = Box::new([0; 40]);
    let d = Box::into_raw(b) as *mut u8;
    f.dirs.insert(d as usize, (v, 0, -1));
    Ok(d)
}
fn do_unlink(p: String, dir: bool) -> Result<i64, i32> {
    step(if dir { "rmdir" } else { "unlink" }, &p, 0)?;
    let f = fs();
    match f.tree.get(&p).and_then(|i| f.ino.get(i)) {
        None => return Err(2),
        Some(Node::Dir) if !dir => return Err(21),
        Some(Node::File(_)) if dir => return Err(20),
        Some(Node::Dir) => {
            let pre = format!("{}/", p);
            if f.tree.keys().any(|k| k.starts_with(&pre)) {
                return Err(39);
            }
        }
        _ => touched(f, &p),
    }
    f.tree.remove(&p);
    Ok(0)
}
fn do_rename(a: String, b: String) -> Result<i64, i32> {
    step("rename", &b, 0)?;
    let f = fs();
    let i = *f.tree.get(&a).ok_or(2)?;
    parent_ok(f, &b)?;
    if matches!(f.ino.get(&i), Some(Node::Dir)) {
        let pre = format!("{}/", a);
        let mv: Vec<(String, u64)> = f.tree.iter().filter(|(k, _)| **k == a || k.starts_with(&pre)).map(|(k, i)| (k.clone(), *i)).collect();
        for (k, i) in mv {
            f.tree.remove(&k);
            f.tree.insert(format!("{}{}", b, &k[a.len()..]), i);
        }
        return Ok(0);
    }
    touched(f, &a);
    touched(f, &b);
    f.tree.remove(&a);
    f.tree.insert(b, i);
    Ok(0)
}

//! Raw system calls (never interposed) and small libc declarations.
use std::arch::asm;

#[inline]
pub unsafe fn raw6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn write_fd(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw6(1, fd as u64, b.as_ptr() as u64, b.len() as u64, 0, 0, 0) };
        if r <= 0 {
            if r == -4 {
                continue;
            }
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw6(231, code as u64, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn futex_wait(a: &std::sync::atomic::AtomicU32, v: u32) {
    unsafe {
        raw6(202, a as *const _ as u64, 128, v as u64, 0, 0, 0);
    }
}
pub fn futex_wake(a: &std::sync::atomic::AtomicU32) {
    unsafe {
        raw6(202, a as *const _ as u64, 129, 1, 0, 0, 0);
    }
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
pub fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
/// Real wall clock, for the driver only.
pub fn wall() -> std::time::Instant {
    std::time::Instant::now()
}

/// A line on stdout for the driver, without allocating.
pub struct Line {
    b: [u8; 512],
    n: usize,
}
impl Line {
    pub fn new() -> Self {
        Line { b: [0; 512], n: 0 }
    }
    pub fn send(&mut self) {
        if self.n < 512 {
            self.b[self.n] = b'\n';
            self.n += 1;
        } else {
            self.b[511] = b'\n';
        }
        write_fd(1, &self.b[..self.n]);
    }
}
impl Default for Line {
    fn default() -> Self {
        Self::new()
    }
}
impl std::fmt::Write for Line {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.bytes() {
            if self.n < 511 {
                self.b[self.n] = if c == b'\n' { b' ' } else { c };
                self.n += 1;
            }
        }
        Ok(())
    }
}
/// Starts this program again without address randomisation, where that is allowed: the locks of
/// the code under test hash addresses.
pub fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    unsafe {
        let p = raw6(135, 0xffff_ffff, 0, 0, 0, 0, 0);
        if p < 0 || p & 0x40000 != 0 || std::env::var_os("SIM_ASLR").is_some() {
            return;
        }
        if raw6(135, (p | 0x40000) as u64, 0, 0, 0, 0, 0) < 0 {
            return;
        }
    }
    let mut a = std::env::args_os();
    let _ = a.next();
    if let Ok(exe) = std::env::current_exe() {
        let _ = std::process::Command::new(exe).args(a).env("SIM_ASLR", "off").exec();
    }
}

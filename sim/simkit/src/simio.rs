//! Simulated byte sinks and sources with short, interrupted, delayed and failing operations.
use crate::{below, chance, cov};
use std::io::{Error, ErrorKind, IoSlice, IoSliceMut, Read, Result, Write};

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::InvalidData,
    ErrorKind::StorageFull,
    ErrorKind::NotConnected,
    ErrorKind::OutOfMemory,
];
/// What happens on a simulated stream, drawn per operation.
#[derive(Clone, Debug)]
pub struct Plan {
    /// probability of each fault per operation, in 1/64
    pub short: u64,
    pub intr: u64,
    /// the operation number that fails for good, if any
    pub fail_at: Option<u64>,
    pub fail_kind: ErrorKind,
    /// fail only after this many bytes were transferred
    pub fail_after: Option<u64>,
    /// Ok(0) instead of an error (sinks only)
    pub zero: bool,
}
impl Plan {
    pub fn calm() -> Plan {
        Plan { short: 0, intr: 0, fail_at: None, fail_kind: ErrorKind::Other, fail_after: None, zero: false }
    }
    pub fn draw(len: u64, may_fail: bool) -> Plan {
        let mut p = Plan::calm();
        p.short = [0, 16, 48, 64][below(4) as usize];
        p.intr = [0, 8, 32][below(3) as usize];
        if may_fail && chance(1, 2) {
            p.fail_kind = KINDS[below(KINDS.len() as u64) as usize];
            if chance(1, 2) {
                p.fail_after = Some(below(len + 2));
            } else {
                p.fail_at = Some(below(6));
            }
            p.zero = chance(1, 5);
        }
        p
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Data(u64),
    Short(u64),
    Intr,
    Zero,
    Eof,
    Err(ErrorKind, u64),
}
pub struct Stream {
    pub plan: Plan,
    pub data: Vec<u8>,
    pub pos: usize,
    pub ops: u64,
    pub log: Vec<Ev>,
    pub sim_ns: u64,
    /// the error that was reported for good
    pub failed: Option<(ErrorKind, String)>,
    pub flushes: u64,
    pub id: u64,
    intr_run: u64,
}
impl Stream {
    pub fn sink(plan: Plan, id: u64) -> Self {
        Stream { plan, data: vec![], pos: 0, ops: 0, log: vec![], sim_ns: 0, failed: None, flushes: 0, id, intr_run: 0 }
    }
    pub fn source(data: Vec<u8>, plan: Plan, id: u64) -> Self {
        let mut s = Self::sink(plan, id);
        s.data = data;
        s
    }
    fn due(&self, done: u64) -> bool {
        self.plan.fail_at.map(|n| self.ops > n).unwrap_or(false) || self.plan.fail_after.map(|n| done >= n).unwrap_or(false)
    }
    /// Decides the outcome of an operation that could transfer `want` bytes.
    fn op(&mut self, want: usize, done: u64, write: bool) -> Result<usize> {
        cov::yield_point();
        crate::alloc::untracked(|| self.op_(want, done, write))
    }
    fn op_(&mut self, want: usize, done: u64, write: bool) -> Result<usize> {
        self.ops += 1;
        self.sim_ns += 1000 + below(5) * 100_000;
        if self.failed.is_none() && self.due(done) {
            if self.plan.zero && write && want > 0 {
                self.failed = Some((ErrorKind::WriteZero, String::new()));
                self.log.push(Ev::Zero);
                return Ok(0);
            }
            self.failed = Some((self.plan.fail_kind, format!("simulated fault {}", self.id)));
            self.log.push(Ev::Err(self.plan.fail_kind, done));
        }
        if let Some((k, m)) = &self.failed {
            if *k == ErrorKind::WriteZero && m.is_empty() {
                return Ok(0);
            }
            return Err(Error::new(*k, m.clone()));
        }
        if want == 0 {
            return Ok(0);
        }
        if self.plan.intr > 0 && self.intr_run < 20 && chance(self.plan.intr, 64) {
            self.intr_run += 1;
            self.log.push(Ev::Intr);
            return Err(Error::new(ErrorKind::Interrupted, "simulated interrupt"));
        }
        self.intr_run = 0;
        let mut n = want;
        if let Some(f) = self.plan.fail_after {
            n = n.min((f - done) as usize).max(1);
        }
        if self.plan.short > 0 && n > 1 && chance(self.plan.short, 64) {
            n = 1 + below(if chance(1, 2) { 8.min(n as u64 - 1) } else { n as u64 - 1 }) as usize;
        }
        self.log.push(if n < want { Ev::Short(n as u64) } else { Ev::Data(n as u64) });
        Ok(n)
    }
    /// Books the faults of this stream.
    pub fn report(&self, cx: &mut crate::Cx, what: &str) {
        cx.event(self.sim_ns);
        for (i, e) in self.log.iter().enumerate() {
            match e {
                Ev::Data(_) | Ev::Eof => {}
                Ev::Short(_) => cx.fault(&format!("{what}-short"), i as u64),
                Ev::Intr => cx.fault(&format!("{what}-interrupted"), i as u64),
                Ev::Zero => cx.fault(&format!("{what}-zero"), i as u64),
                Ev::Err(..) => cx.fault(&format!("{what}-error"), i as u64),
            }
        }
    }
}
impl Write for Stream {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = self.op(b.len(), self.data.len() as u64, true)?;
        crate::alloc::untracked(|| self.data.extend_from_slice(&b[..n]));
        Ok(n)
    }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> {
        let all: Vec<u8> = b.iter().flat_map(|x| x.iter().copied()).collect();
        self.write(&all)
    }
    fn flush(&mut self) -> Result<()> {
        self.flushes += 1;
        match &self.failed {
            Some((k, m)) if !m.is_empty() => Err(Error::new(*k, m.clone())),
            _ => Ok(()),
        }
    }
}
impl Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let want = b.len().min(self.data.len() - self.pos);
        if want == 0 && b.is_empty() {
            return Ok(0);
        }
        let done = self.pos as u64;
        if want == 0 {
            // end of data: an error may still come instead
            cov::yield_point();
            self.ops += 1;
            if self.failed.is_none() && self.due(done) {
                self.failed = Some((self.plan.fail_kind, format!("simulated fault {}", self.id)));
                self.log.push(Ev::Err(self.plan.fail_kind, done));
            }
            if let Some((k, m)) = &self.failed {
                return Err(Error::new(*k, m.clone()));
            }
            self.log.push(Ev::Eof);
            return Ok(0);
        }
        let n = self.op(want, done, false)?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
    fn read_vectored(&mut self, b: &mut [IoSliceMut<'_>]) -> Result<usize> {
        for x in b.iter_mut() {
            if !x.is_empty() {
                return self.read(x);
            }
        }
        Ok(0)
    }
}

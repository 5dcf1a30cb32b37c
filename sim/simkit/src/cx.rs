//! The context of one run: what it counts, traces and reports.
use crate::src;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// A violation of the property: what kind it is (stable while shrinking) and what happened.
#[derive(Debug, Clone)]
pub struct Fail {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Fail>;
pub fn fail<T>(class: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Fail { class: class.into(), msg: msg.into() })
}

/// Counts add up over runs; those called `max-...` keep the largest value.
pub fn merge(m: &mut BTreeMap<String, u64>, k: String, v: u64) {
    let max = k.starts_with("max-");
    let e = m.entry(k).or_default();
    *e = if max { (*e).max(v) } else { *e + v };
}
#[derive(Default)]
pub struct Cx {
    pub counts: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub sig: u64,
    pub nontrivial: bool,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub sample: String,
}
impl Cx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        merge(&mut self.counts, k.to_string(), n)
    }
    /// A fault was injected: it is part of the signature of the run.
    pub fn fault(&mut self, k: &str, at: u64) {
        self.count(&format!("fault:{}", k));
        self.nontrivial = true;
        self.sign(src::hash_bytes(at, k.as_bytes()));
    }
    pub fn sign(&mut self, v: u64) {
        self.sig = src::fnv(self.sig, v);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            if let Ok(mut t) = TRACE.lock() {
                if let Some(t) = t.as_mut() {
                    use std::io::Write;
                    let _ = t.write_all(format!("{}\n", s.replace('\n', " ")).as_bytes());
                }
            }
            self.trace.push(s);
        }
    }
    pub fn event(&mut self, ns: u64) {
        self.sim_ns += ns;
    }
}

static TRACE: Mutex<Option<std::fs::File>> = Mutex::new(None);
pub fn trace_to(f: Option<std::fs::File>) -> Option<std::fs::File> {
    std::mem::replace(&mut TRACE.lock().unwrap(), f)
}
static CUR: AtomicU64 = AtomicU64::new(0);
static LABEL: Mutex<String> = Mutex::new(String::new());
pub fn set_run(i: u64) {
    CUR.store(i, Relaxed)
}
/// Context for violations that end the process (limits, aborts).
pub fn set_label(s: &str) {
    if let Ok(mut l) = LABEL.lock() {
        l.clear();
        l.push_str(s);
    }
}
pub fn label() -> String {
    LABEL.lock().map(|l| l.clone()).unwrap_or_default()
}
/// A budget of the current run was exceeded inside the code under test: the run is over.
pub fn limit_hit(what: &str, got: u64, cap: u64) -> ! {
    let mut l = crate::sys::Line::new();
    let lab = LABEL.try_lock();
    let lab: &str = match &lab {
        Ok(l) => l.as_str(),
        Err(_) => "",
    };
    let _ = write!(l, "V {} limit-{}:{}\t{} limit exceeded: {} (budget {}) in {}", CUR.load(Relaxed), what, lab, what, got, cap, lab);
    l.send();
    crate::sys::exit_now(77)
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Records panics instead of printing them.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", short(l.file()), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{}\t{}", loc, m));
    }));
}
fn short(f: &str) -> String {
    let p: Vec<&str> = f.split('/').collect();
    p[p.len().saturating_sub(2)..].join("/")
}
#[derive(Debug, Clone)]
pub struct Panicked {
    pub at: String,
    pub msg: String,
}
/// Runs code under test; a panic becomes a value.
pub fn guarded<X>(f: impl FnOnce() -> X) -> Result<X, Panicked> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let s = PANIC.try_with(|p| p.borrow().clone()).unwrap_or_default();
        let (a, b) = s.split_once('\t').unwrap_or(("", ""));
        Panicked { at: a.to_string(), msg: b.to_string() }
    })
}

//! Runs a check: workers over seeded runs, attribution of crashes, shrinking, replay, evidence.
use crate::cx::{self, Cx, R};
use crate::json::J;
use crate::{cov, src};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct CheckDef {
    pub id: &'static str,
    pub run: fn(&mut Cx) -> R,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
struct Known {
    replay: String,
    property: String,
    class: String,
    what: String,
}
/// known-findings.txt: `known: property=<id> class=<class> replay=<file> <what>` and `fixed: ...` lines
fn known(id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", verif())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let mut p = r.splitn(4, ' ');
        let f = |s: Option<&str>, k: &str| s.and_then(|s| s.strip_prefix(k)).unwrap_or("").to_string();
        let property = f(p.next(), "property=");
        let class = f(p.next(), "class=");
        let replay = f(p.next(), "replay=");
        let what = p.next().unwrap_or("").to_string();
        if property == id {
            v.push(Known { replay, property, class, what });
        }
    }
    v
}

pub fn main(checks: &[CheckDef]) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let find = |id: &str| checks.iter().find(|c| c.id == id).unwrap_or_else(|| panic!("no check {}", id));
    match s(1).as_str() {
        "worker" => worker(find(&s(2)), n(3), n(4), n(5), n(6), n(7), &s(8)),
        "one" => one(find(&s(2)), &a[3..]),
        "check" => check(find(&s(2)), &s(3)),
        "replay" => replay(checks, &s(2)),
        "bench" => bench(find(&s(2)), n(3), n(4)),
        "list" => {
            for c in checks {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check ID quick|thorough | replay FILE | bench ID SEED N");
            2
        }
    }
}

fn exec(c: &CheckDef, run: u64, tracing: bool) -> (Cx, R) {
    let mut cx = Cx { tracing, sig: 0x1234, ..Default::default() };
    cx::set_run(run);
    crate::sched::reset_clock();
    cx::set_label("");
    let r = match cx::guarded(|| (c.run)(&mut cx)) {
        Ok(r) => r,
        Err(p) => cx::fail(format!("harness-panic:{}", p.at), format!("panic outside the code under test: {} at {}", p.msg, p.at)),
    };
    src::finish();
    (cx, r)
}
fn bench(c: &CheckDef, seed: u64, n: u64) -> i32 {
    cx::quiet_panics();
    let t = Instant::now();
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..n {
        src::start_seeded(seed, c.id, i);
        let (cx, r) = exec(c, i, false);
        for (k, v) in cx.counts {
            cx::merge(&mut counts, k, v);
        }
        if let Err(f) = r {
            let e = classes.entry(f.class).or_insert((0, i, f.msg));
            e.0 += 1;
        }
    }
    println!("{} runs in {:?}; edges {}/{}", n, t.elapsed(), cov::edges().len(), cov::total_edges());
    println!("{:?}", counts);
    for (k, v) in classes {
        println!("{} x{} first run {}: {}", k, v.0, v.1, v.2.chars().take(600).collect::<String>());
    }
    0
}

static ISOLATED: std::sync::Mutex<&[&str]> = std::sync::Mutex::new(&[]);
/// Checks whose runs each start in a copy of the same process, because the code under test keeps
/// state for the life of a process.
pub fn isolate(ids: &'static [&'static str]) {
    *ISOLATED.lock().unwrap() = ids;
}
struct Done {
    ns: u64,
    sig: u64,
    nontrivial: bool,
    digest: u64,
    counts: BTreeMap<String, u64>,
    trace: Vec<String>,
    fail: Option<(String, String)>,
}
fn here(c: &CheckDef, i: u64, sampling: bool) -> Done {
    let (cx, r) = exec(c, i, sampling);
    Done { ns: cx.sim_ns, sig: cx.sig, nontrivial: cx.nontrivial, digest: src::digest(), counts: cx.counts, trace: cx.trace, fail: r.err().map(|f| (f.class, f.msg)) }
}
/// The same in a forked copy of this process.
fn forked(c: &CheckDef, i: u64, sampling: bool) -> Done {
    extern "C" {
        fn fork() -> i32;
        fn pipe(fd: *mut i32) -> i32;
        fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
        fn kill(p: i32, s: i32) -> i32;
        fn getpid() -> i32;
    }
    use std::os::fd::FromRawFd;
    let mut fd = [0i32; 2];
    let pid = unsafe {
        assert_eq!(pipe(fd.as_mut_ptr()), 0);
        fork()
    };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        let before = cov::flags();
        let d = here(c, i, sampling);
        let new: Vec<J> = cov::edges().into_iter().filter(|e| before[*e as usize] == 0).map(|e| J::U(e as u64)).collect();
        let (class, msg) = d.fail.clone().unwrap_or_default();
        let j = J::obj()
            .with("ns", d.ns)
            .with("sig", d.sig)
            .with("nontrivial", d.nontrivial as u64)
            .with("digest", d.digest)
            .with("counts", d.counts)
            .with("trace", J::A(d.trace.iter().take(12).map(|t| J::S(t.chars().take(900).collect())).collect()))
            .with("failed", d.fail.is_some() as u64)
            .with("class", class)
            .with("msg", msg)
            .with("edges", J::A(new));
        crate::sys::write_fd(fd[1], j.show(0).as_bytes());
        crate::sys::exit_now(0);
    }
    let mut t = String::new();
    let mut st = 0;
    unsafe {
        drop(std::fs::File::from_raw_fd(fd[1]));
        let _ = std::fs::File::from_raw_fd(fd[0]).read_to_string(&mut t);
        waitpid(pid, &mut st, 0);
        // a run that ended its process ends this one in the same way
        if st & 0x7f != 0 {
            kill(getpid(), st & 0x7f);
        }
        if st != 0 {
            crate::sys::exit_now(st >> 8 & 0xff);
        }
    }
    let j = J::parse(&t).expect("result of a run");
    let u = |k: &str| j.get(k).map(|x| x.u64()).unwrap_or(0);
    let s = |k: &str| j.get(k).map(|x| x.str().to_string()).unwrap_or_default();
    cov::mark(&j.get("edges").map(|e| e.arr().iter().map(|x| x.u64() as u32).collect::<Vec<_>>()).unwrap_or_default());
    let mut counts = BTreeMap::new();
    if let Some(J::O(o)) = j.get("counts") {
        for (k, v) in o {
            counts.insert(k.clone(), v.u64());
        }
    }
    Done {
        ns: u("ns"),
        sig: u("sig"),
        nontrivial: u("nontrivial") != 0,
        digest: u("digest"),
        counts,
        trace: j.get("trace").map(|t| t.arr().iter().map(|x| x.str().to_string()).collect()).unwrap_or_default(),
        fail: (u("failed") != 0).then(|| (s("class"), s("msg"))),
    }
}

/// Runs `count` runs from `start` in steps of `stride`, within `secs` seconds.
fn worker(c: &CheckDef, seed: u64, start: u64, stride: u64, count: u64, secs: u64, out: &str) -> i32 {
    cx::quiet_panics();
    let t0 = Instant::now();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut ns) = (0u64, 0u64);
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut digests = vec![];
    let mut i = start;
    let isolated = ISOLATED.lock().unwrap().contains(&c.id);
    while runs < count && (t0.elapsed().as_secs() < secs || secs == 0) {
        crate::sys::write_fd(1, format!("R {}\n", i).as_bytes());
        src::start_seeded(seed, c.id, i);
        let sampling = samples.len() < 3 && runs % 7 == 3;
        let cx = if isolated { forked(c, i, sampling) } else { here(c, i, sampling) };
        runs += 1;
        ns += cx.ns;
        if cx.nontrivial {
            sigs.insert(cx.sig);
        }
        if i < 24 {
            digests.push((i, src::fnv(cx.digest, cx.sig)));
        }
        if sampling && cx.nontrivial && samples.len() < 3 {
            let mut t = cx.trace.clone();
            t.truncate(12);
            samples.push(format!("run {}: {}", i, t.join(" | ").chars().take(900).collect::<String>()));
        }
        for (k, v) in cx.counts {
            cx::merge(&mut counts, k, v);
        }
        if let Some((class, msg)) = cx.fail {
            let m = format!("V {} {}\t{}\n", i, class.replace([' ', '\n', '\t'], "_"), msg.replace('\n', " "));
            crate::sys::write_fd(1, m.as_bytes());
        }
        i += stride;
    }
    let sv: Vec<u8> = sigs.iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{}.sig", out), sv);
    let ev: Vec<u8> = cov::edges().iter().flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{}.cov", out), ev);
    let j = J::obj()
        .with("runs", runs)
        .with("ns", ns)
        .with("counts", counts)
        .with("samples", samples)
        .with("edges_total", cov::total_edges())
        .with("digests", J::A(digests.into_iter().map(|(i, d)| J::A(vec![J::U(i), J::S(format!("{:x}", d))])).collect()));
    crate::sys::write_fd(1, format!("E {}\n", j.show(0)).as_bytes());
    0
}

#[derive(Clone, Debug)]
struct Vio {
    run: u64,
    class: String,
    msg: String,
    start: u64,
    stride: u64,
}
enum Msg {
    Vio(Vio),
    Run,
    End(usize, J),
    Dead(usize, u64, String, bool),
}
fn spawn(args: &[String], err: &str) -> Child {
    let e = std::fs::File::create(err).expect("scratch file");
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).stdout(Stdio::piped()).stderr(e).stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
    c.spawn().expect("spawn")
}
struct W {
    child: Child,
    last: std::sync::Arc<std::sync::atomic::AtomicU64>,
    beat: std::sync::Arc<std::sync::Mutex<Instant>>,
    /// the beat after which nothing came for a while, and the processor time used by then
    stale: Option<(Instant, f64)>,
    done: bool,
}
/// Processor time used by a process, in seconds.
fn cpu(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}
impl W {
    /// No sign of life: 40 s of its own processor time, or 100 s on the clock of a busy machine.
    fn hangs(&mut self) -> bool {
        let b = *self.beat.lock().unwrap();
        if self.done || b.elapsed() < Duration::from_secs(5) {
            return false;
        }
        let now = cpu(self.child.id());
        match self.stale {
            Some((at, used)) if at == b => now - used > 40.0 || b.elapsed() > Duration::from_secs(100),
            _ => {
                self.stale = Some((b, now));
                false
            }
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn start_worker(c: &CheckDef, seed: u64, w: usize, start: u64, stride: u64, count: u64, secs: u64, dir: &str, gen: u64, tx: mpsc::Sender<Msg>) -> W {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    use std::sync::{Arc, Mutex};
    let out = format!("{}/w{}-{}", dir, w, gen);
    let err = format!("{}.err", out);
    let args: Vec<String> = ["worker", c.id, &seed.to_string(), &start.to_string(), &stride.to_string(), &count.to_string(), &secs.to_string(), &out].iter().map(|s| s.to_string()).collect();
    let mut child = spawn(&args, &err);
    let last = Arc::new(AtomicU64::new(u64::MAX));
    let beat = Arc::new(Mutex::new(Instant::now()));
    let so = child.stdout.take().unwrap();
    let (l2, b2) = (last.clone(), beat.clone());
    std::thread::spawn(move || {
        let mut ended = false;
        let mut reported = u64::MAX;
        for line in BufReader::new(so).lines() {
            let Ok(line) = line else { break };
            *b2.lock().unwrap() = Instant::now();
            if let Some(r) = line.strip_prefix("R ") {
                l2.store(r.parse().unwrap_or(0), SeqCst);
                let _ = tx.send(Msg::Run);
            } else if let Some(r) = line.strip_prefix("V ") {
                let (i, r) = r.split_once(' ').unwrap_or(("0", r));
                let (cl, m) = r.split_once('\t').unwrap_or((r, ""));
                reported = i.parse().unwrap_or(0);
                let _ = tx.send(Msg::Vio(Vio { run: reported, class: cl.replace(' ', "_"), msg: m.to_string(), start, stride }));
            } else if let Some(r) = line.strip_prefix("E ") {
                ended = true;
                if let Some(j) = J::parse(r) {
                    let _ = tx.send(Msg::End(w, j.with("out", out.clone())));
                }
            }
        }
        if !ended {
            let l = l2.load(SeqCst);
            let mut e = String::new();
            let _ = std::fs::File::open(&err).map(|f| f.take(2000).read_to_string(&mut e));
            let _ = tx.send(Msg::Dead(w, l, e, reported == l));
        }
    });
    W { child, last, beat, stale: None, done: false }
}

fn scratch() -> String {
    let d = format!("{}/simrun.{}", std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into()), std::process::id());
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

fn check(c: &CheckDef, tier: &str) -> i32 {
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed = env_u64("VERIF_SEED", 1);
    let t0 = Instant::now();
    let nw = env_u64("SIM_WORKERS", 8);
    let total = env_u64("SIM_RUNS", if tier == "quick" { c.quick } else { c.thorough });
    let cap = env_u64("SIM_SECS", if tier == "quick" { 150 } else { 2400 });
    let dir = scratch();
    let kn = known(c.id);
    let mut found = vec![];
    let (tx, rx) = mpsc::channel();
    let mut ws: Vec<W> = vec![];
    let mut gens = vec![0u64; nw as usize];
    for w in 0..nw {
        ws.push(start_worker(c, seed, w as usize, w, nw, total.div_ceil(nw), cap, &dir, 0, tx.clone()));
    }
    let mut runs = 0u64;
    let mut ends: Vec<J> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    'main: while ws.iter().any(|w| !w.done) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Run) => runs += 1,
            Ok(Msg::Vio(v)) => {
                if kn.iter().any(|k| k.class == v.class) {
                    *known_hits.entry(v.class).or_default() += 1;
                } else {
                    found.push(v);
                    break 'main;
                }
            }
            Ok(Msg::End(w, j)) => {
                ws[w].done = true;
                let _ = ws[w].child.wait();
                ends.push(j);
            }
            Ok(Msg::Dead(w, last, err, reported)) => {
                let st = ws[w].child.wait();
                if !reported {
                    let why = describe(&st.ok(), &err);
                    let v = Vio { run: last, class: why.0, msg: why.1, start: w as u64, stride: nw };
                    if last == u64::MAX {
                        eprintln!("worker did not start: {:?}", v);
                        return 2;
                    }
                    if kn.iter().any(|k| k.class == v.class) {
                        *known_hits.entry(v.class).or_default() += 1;
                    } else {
                        found.push(v);
                        break 'main;
                    }
                }
                // go on behind the run that ended the worker
                gens[w] += 1;
                let done = (last - w as u64) / nw + 1;
                let per = total.div_ceil(nw);
                let left = cap.saturating_sub(t0.elapsed().as_secs());
                if done < per && left > 0 {
                    ws[w] = start_worker(c, seed, w, last + nw, nw, per - done, left, &dir, gens[w], tx.clone());
                } else {
                    ws[w].done = true;
                }
            }
            Err(_) => {}
        }
        for (w, k) in ws.iter_mut().enumerate() {
            if k.hangs() {
                let run = k.last.load(std::sync::atomic::Ordering::SeqCst);
                let _ = k.child.kill();
                *k.beat.lock().unwrap() = Instant::now();
                if run == u64::MAX {
                    eprintln!("worker {} does not start", w);
                    return 2;
                }
                let v = Vio { run, class: "hang".into(), msg: "the run did not end within 40 s of processor time".into(), start: w as u64, stride: nw };
                if kn.iter().any(|k| k.class == v.class) {
                    *known_hits.entry(v.class).or_default() += 1;
                } else {
                    found.push(v);
                    break 'main;
                }
            }
        }
    }
    for w in ws.iter_mut() {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    let code = if let Some(v) = found.into_iter().next() {
        let p = report(c, seed, &v, &dir, t0);
        println!("VIOLATION property={} replay={}", c.id, p);
        evidence(c, tier, seed, runs, &ends, &known_hits, t0, 1, false);
        1
    } else {
        // determinism of the simulation: the first runs again, in another process
        let mut det = J::Null;
        let args: Vec<String> = ["worker", c.id, &seed.to_string(), "0", "1", "24", "60", &format!("{}/det", dir)].iter().map(|s| s.to_string()).collect();
        let o = Command::new(std::env::current_exe().unwrap()).args(&args).output();
        if let Ok(o) = o {
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                if let Some(r) = l.strip_prefix("E ") {
                    det = J::parse(r).unwrap_or(J::Null);
                }
            }
        }
        let want: BTreeMap<u64, String> = ends.iter().flat_map(|e| e.get("digests").map(|d| d.arr().to_vec()).unwrap_or_default()).map(|x| (x.arr()[0].u64(), x.arr()[1].str().to_string())).collect();
        let got: BTreeMap<u64, String> = det.get("digests").map(|d| d.arr().to_vec()).unwrap_or_default().into_iter().map(|x| (x.arr()[0].u64(), x.arr()[1].str().to_string())).collect();
        let same = got.iter().filter(|(k, v)| want.get(k) == Some(v)).count();
        let differ: Vec<u64> = got.iter().filter(|(k, v)| want.get(k).map(|x| x != *v).unwrap_or(false)).map(|(k, _)| *k).collect();
        if !differ.is_empty() {
            println!("note: runs {:?} gave a different history in a second process", differ);
        }
        for k in &kn {
            // a listed finding is shown when its recorded history still fails
            let p = format!("{}/{}", verif(), k.replay);
            let j = std::fs::read_to_string(&p).ok().and_then(|t| J::parse(&t));
            let still = j.map(|j| eval(c, &Input::of(&j), &dir, Duration::from_secs(60)).0.map(|x| x.0) == Some(k.class.clone())).unwrap_or(false);
            if still || known_hits.contains_key(&k.class) {
                println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            }
        }
        evidence(c, tier, seed, runs, &ends, &known_hits, t0, 0, differ.is_empty() && same > 0);
        println!("ok property={} runs={} wall={:.1}s", c.id, runs, t0.elapsed().as_secs_f64());
        0
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
fn describe(st: &Option<std::process::ExitStatus>, err: &str) -> (String, String) {
    use std::os::unix::process::ExitStatusExt;
    let sig = st.and_then(|s| s.signal());
    let first: String = err.lines().filter(|l| !l.trim().is_empty()).take(3).collect::<Vec<_>>().join("; ");
    match sig {
        Some(s) => {
            let what = if err.contains("stack overflow") {
                "stack-overflow"
            } else if err.contains("memory allocation") {
                "alloc-failure"
            } else {
                "abort"
            };
            (format!("{}:sig{}", what, s), format!("the process died: signal {} {}", s, first))
        }
        None => (format!("exit:{}", st.and_then(|s| s.code()).unwrap_or(-1)), format!("the process ended: {:?} {}", st, first)),
    }
}

/// What a single execution takes as input.
#[derive(Clone, Debug)]
enum Input {
    Choices(Vec<u64>),
    /// a history of runs in one process; the last one is judged
    Runs(u64, Vec<u64>),
}
impl Input {
    fn of(j: &J) -> Input {
        match j.get("runs") {
            Some(J::A(a)) => Input::Runs(j.get("seed").map(|s| s.u64()).unwrap_or(1), a.iter().map(|x| x.u64()).collect()),
            _ => Input::Choices(j.get("choices").map(|c| c.arr().iter().map(|x| x.u64()).collect()).unwrap_or_default()),
        }
    }
    fn json(&self, mut j: J) -> J {
        match self {
            Input::Choices(c) => j.set("choices", c.clone()),
            Input::Runs(s, r) => {
                j.set("seed", *s);
                j.set("runs", r.clone());
            }
        }
        j
    }
}
/// `one ID IN OUT`: executes the input file; writes choices and trace to OUT.shm / OUT.trace
fn one(c: &CheckDef, a: &[String]) -> i32 {
    cx::quiet_panics();
    let Some(j) = std::fs::read_to_string(&a[0]).ok().and_then(|t| J::parse(&t)) else { return 2 };
    let out = a[1].clone();
    let tracing = a.get(2).map(|x| x == "trace").unwrap_or(false);
    const CAP: usize = 4 << 20;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(format!("{}.shm", out)).unwrap();
    f.set_len((CAP * 8) as u64).unwrap();
    use std::os::fd::AsRawFd;
    let p = unsafe { crate::sys::raw6(9, 0, (CAP * 8) as u64, 3, 1, f.as_raw_fd() as u64, 0) };
    if p > 0 {
        src::set_shm(p as *mut u64, CAP);
    }
    if tracing {
        // written as the run goes: the run may end the process
        cx::trace_to(std::fs::File::create(format!("{}.trace", out)).ok());
    }
    let (cx, r) = match Input::of(&j) {
        Input::Choices(ch) => {
            src::start_replay(ch);
            exec(c, 0, tracing)
        }
        Input::Runs(seed, runs) => {
            let mut last = None;
            for (k, i) in runs.iter().enumerate() {
                src::start_seeded(seed, c.id, *i);
                last = Some(exec(c, *i, tracing && k + 1 == runs.len()));
            }
            last.unwrap()
        }
    };
    drop(cx::trace_to(None));
    match r {
        Ok(()) => println!("OK {:x}", src::fnv(src::digest(), cx.sig)),
        Err(f) => println!("V 0 {}\t{}\nD {:x}", f.class.replace([' ', '\n', '\t'], "_"), f.msg.replace('\n', " "), src::fnv(src::digest(), cx.sig)),
    }
    0
}
/// Executes an input in a fresh process: (class, message) of the violation if any, and the choices made.
fn eval(c: &CheckDef, i: &Input, dir: &str, limit: Duration) -> (Option<(String, String)>, Vec<u64>, String) {
    eval_(c, i, dir, limit, false)
}
fn eval_(c: &CheckDef, i: &Input, dir: &str, limit: Duration, trace: bool) -> (Option<(String, String)>, Vec<u64>, String) {
    let inp = format!("{}/in.json", dir);
    let out = format!("{}/one", dir);
    std::fs::write(&inp, i.json(J::obj()).show(0)).unwrap();
    let mut args: Vec<String> = ["one", c.id, &inp, &out].iter().map(|s| s.to_string()).collect();
    if trace {
        args.push("trace".into());
    }
    let err = format!("{}/one.err", dir);
    let mut ch = spawn(&args, &err);
    let mut so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let mut st = None;
    let pid = ch.id();
    // the limit is one of processor time; a process that waits has a minute more
    while t0.elapsed() < limit || (t0.elapsed() < limit + Duration::from_secs(60) && cpu(pid) < limit.as_secs_f64()) {
        if let Ok(Some(s)) = ch.try_wait() {
            st = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    let hung = st.is_none();
    if hung {
        let _ = ch.kill();
        st = ch.wait().ok();
    }
    let text = h.join().unwrap_or_default();
    let mut choices = vec![];
    if let Ok(mut f) = std::fs::File::open(format!("{}.shm", out)) {
        let mut n = [0u8; 8];
        if f.read_exact(&mut n).is_ok() {
            let n = u64::from_le_bytes(n) as usize;
            let mut b = vec![0u8; n * 8];
            if f.read_exact(&mut b).is_ok() {
                choices = b.chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
            }
        }
    }
    let mut digest = String::new();
    let mut res = None;
    let mut clean = false;
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("V ") {
            let r = r.split_once(' ').map(|x| x.1).unwrap_or(r);
            let (cl, m) = r.split_once('\t').unwrap_or((r, ""));
            res = Some((cl.replace(' ', "_"), m.to_string()));
        } else if let Some(r) = l.strip_prefix("D ").or_else(|| l.strip_prefix("OK ")) {
            digest = r.to_string();
            clean = true;
        }
    }
    if res.is_none() && !clean {
        res = if hung {
            Some(("hang".into(), "the run did not end".into()))
        } else {
            let e = std::fs::read_to_string(&err).unwrap_or_default();
            Some(describe(&st, &e))
        };
    }
    (res, choices, digest)
}
fn report(c: &CheckDef, seed: u64, v: &Vio, dir: &str, t0: Instant) -> String {
    let lim = Duration::from_secs(if v.class == "hang" { 42 } else { 60 });
    let budget = Duration::from_secs(env_u64("SIM_SHRINK_SECS", 60)) + t0.elapsed();
    let one = Input::Runs(seed, vec![v.run]);
    let (r, choices, _) = eval(c, &one, dir, lim);
    let mut class = v.class.clone();
    let mut best;
    let mut evals = 0u64;
    if r.is_some() {
        class = r.unwrap().0;
        best = Input::Choices(choices.clone());
        let again = eval(c, &best, dir, lim).0.map(|x| x.0);
        if again.as_ref() == Some(&class) {
            if class != "hang" {
                let ch = shrink(choices, |ch| {
                    evals += 1;
                    if t0.elapsed() > budget {
                        return None;
                    }
                    let (r, got, _) = eval(c, &Input::Choices(ch.to_vec()), dir, lim);
                    (r.map(|x| x.0).as_ref() == Some(&class)).then_some(got)
                });
                best = Input::Choices(ch);
            }
        } else {
            best = one;
        }
    } else {
        // not alone: the history of the worker process matters
        let mut runs: Vec<u64> = (0..).map(|k| v.start + k * v.stride).take_while(|i| *i <= v.run).collect();
        let test = |r: &[u64]| eval(c, &Input::Runs(seed, r.to_vec()), dir, Duration::from_secs(200)).0.map(|x| x.0).as_ref() == Some(&class);
        if test(&runs) {
            let mut k = runs.len() / 2;
            while k >= 1 && t0.elapsed() < budget {
                let mut i = 0;
                while i + k < runs.len() && t0.elapsed() < budget {
                    let mut t = runs.clone();
                    t.drain(i..i + k);
                    evals += 1;
                    if test(&t) {
                        runs = t;
                    } else {
                        i += k;
                    }
                }
                k /= 2;
            }
        }
        best = Input::Runs(seed, runs);
    }
    let (r, _, d1) = eval_(c, &best, dir, lim, true);
    let trace = std::fs::read_to_string(format!("{}/one.trace", dir)).unwrap_or_default();
    let (r2, _, d2) = eval(c, &best, dir, lim);
    let rep = r.as_ref().map(|x| &x.0) == Some(&class) && r2.as_ref().map(|x| &x.0) == Some(&class) && d1 == d2;
    let (cl, msg) = r.unwrap_or((v.class.clone(), v.msg.clone()));
    let j = best.json(
        J::obj()
            .with("property", c.id)
            .with("seed", seed)
            .with("run", v.run)
            .with("class", cl.clone())
            .with("message", msg.clone())
            .with("first_message", v.msg.clone())
            .with("reproduces", rep)
            .with("shrink_evaluations", evals)
            .with("trace", trace.lines().map(|s| s.to_string()).collect::<Vec<_>>()),
    );
    let rd = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&rd);
    let p = format!("{}/{}-seed{}-run{}.json", rd, c.id, seed, v.run);
    std::fs::write(&p, j.show(1)).expect("replay file");
    println!("violation of {} (seed {} run {}): {}: {}", c.id, seed, v.run, cl, msg);
    for l in trace.lines().take(40) {
        println!("   {}", l);
    }
    println!("replay: {} replay {} (reproduces exactly: {})", std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default(), p, rep);
    p
}
/// Shrinks a choice sequence; `ok` returns the choices actually made if the violation persists.
fn shrink(start: Vec<u64>, mut ok: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut tries = 0;
    let mut attempt = |c: &[u64], best: &mut Vec<u64>| -> bool {
        tries += 1;
        if tries > 4000 {
            return false;
        }
        if let Some(mut g) = ok(c) {
            while g.last() == Some(&0) {
                g.pop();
            }
            let cand = if better(&g, c) { g } else { c.to_vec() };
            if better(&cand, best) {
                *best = cand;
                return true;
            }
        }
        false
    };
    // a prefix, the rest simplest
    let mut lo = 0usize;
    let mut hi = best.len();
    while lo < hi {
        let mid = (lo + hi) / 2;
        let c = best[..mid.min(best.len())].to_vec();
        if attempt(&c, &mut best) {
            hi = best.len().min(mid);
        } else {
            lo = mid + 1;
        }
    }
    loop {
        let before = best.clone();
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                let mut c = best.clone();
                c.drain(i..e);
                if attempt(&c, &mut best) {
                    continue;
                }
                if best[i..e.min(best.len())].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].fill(0);
                    attempt(&c, &mut best);
                }
                i += k;
            }
            k /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let mut lo = 0;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&c, &mut best) {
                    lo = mid + 1;
                }
            }
        }
        if best == before {
            return best;
        }
    }
}
fn replay(checks: &[CheckDef], file: &str) -> i32 {
    let Some(j) = std::fs::read_to_string(file).ok().and_then(|t| J::parse(&t)) else {
        eprintln!("cannot read {}", file);
        return 2;
    };
    let id = j.get("property").map(|x| x.str().to_string()).unwrap_or_default();
    let Some(c) = checks.iter().find(|c| c.id == id) else { return 2 };
    let dir = scratch();
    let (r, _, _) = eval_(c, &Input::of(&j), &dir, Duration::from_secs(60), true);
    let trace = std::fs::read_to_string(format!("{}/one.trace", dir)).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    println!("{}", trace);
    match r {
        Some((cl, m)) => {
            println!("{}: {}", cl, m);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        None => {
            println!("the violation does not occur");
            0
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn evidence(c: &CheckDef, tier: &str, seed: u64, runs: u64, ends: &[J], known_hits: &BTreeMap<String, u64>, t0: Instant, violations: u64, det: bool) {
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut edges: HashSet<u32> = HashSet::new();
    let mut ns = 0;
    let mut samples: Vec<J> = vec![];
    let mut total_edges = 0;
    for e in ends {
        ns += e.get("ns").map(|x| x.u64()).unwrap_or(0);
        total_edges = total_edges.max(e.get("edges_total").map(|x| x.u64()).unwrap_or(0));
        if let Some(J::O(m)) = e.get("counts") {
            for (k, v) in m {
                cx::merge(&mut counts, k.clone(), v.u64());
            }
        }
        for s in e.get("samples").map(|s| s.arr()).unwrap_or(&[]) {
            if samples.len() < 6 {
                samples.push(s.clone());
            }
        }
        let out = e.get("out").map(|x| x.str().to_string()).unwrap_or_default();
        for b in std::fs::read(format!("{}.sig", out)).unwrap_or_default().chunks(8) {
            sigs.insert(u64::from_le_bytes(b.try_into().unwrap()));
        }
        for b in std::fs::read(format!("{}.cov", out)).unwrap_or_default().chunks(4) {
            edges.insert(u32::from_le_bytes(b.try_into().unwrap()));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut faults = J::obj();
    let mut other = J::obj();
    for (k, v) in counts {
        match k.strip_prefix("fault:") {
            Some(f) => faults.set(f, v),
            None => other.set(&k, v),
        }
    }
    if samples.is_empty() {
        samples.push(J::S("no complete worker report (the run ended with a violation)".into()));
    }
    let cov = J::obj()
        .with("evaluations", runs)
        .with("distinct_nontrivial", sigs.len() as u64)
        .with("rule", c.rule)
        .with("samples", J::A(samples))
        .with("runs_per_hour", (runs as f64 / wall * 3600.0).round())
        .with("seeds_per_hour", (runs as f64 / wall * 3600.0).round())
        .with("simulated_seconds", ns as f64 / 1e9)
        .with("faults_injected", faults)
        .with("counts", other)
        .with("coverage_edges_reached", edges.len() as u64)
        .with("coverage_edges_total", total_edges)
        .with("determinism_recheck_identical", det)
        .with("known_finding_hits", known_hits.clone())
        .with("real_components", c.real)
        .with("stub_components", c.stub);
    let j = J::obj()
        .with("property", c.id)
        .with("tier", tier)
        .with("seed", seed)
        .with("level", "exploration")
        .with("coverage", cov)
        .with("assumptions", c.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>())
        .with("wall_s", wall)
        .with("violations", violations);
    let d = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(format!("{}/{}.json", d, c.id), j.show(1));
}

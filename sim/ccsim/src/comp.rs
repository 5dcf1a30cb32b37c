//! Runs the real compiler inside the simulation.
use simkit::cx::{guarded, Panicked};
use simkit::{cov, sched, simfs, src};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::sync::Mutex;

pub const STACK: usize = 24 << 20;
pub type Files = BTreeMap<String, Vec<u8>>;
/// A schema tree: (path below the schema directory, content).
pub type Tree = Vec<(String, Vec<u8>)>;

/// One compilation, as the command line tool and the build scripts do it.
pub fn compile(schema: &str, out: &str, root: &str, steps: u64) -> Result<(), Panicked> {
    cov::bounded(steps, STACK, || {
        guarded(|| {
            let mut m = zserio_rs_build::Model::from_filesystem(Path::new(schema));
            m.evaluate();
            zserio_rs_build::generate_model(&mut m, Path::new(out), root);
        })
    })
    .0
}
/// Runs `f` on a thread of its own (fresh hash keys).
pub fn alone<X: Send + 'static>(hash: u64, f: impl FnOnce() -> X + Send + 'static) -> X {
    std::thread::Builder::new()
        .stack_size(STACK + (8 << 20))
        .spawn(move || {
            sched::set_hash_seed(hash);
            f()
        })
        .expect("thread")
        .join()
        .expect("simulated process")
}
pub fn budget(t: &Tree) -> u64 {
    20_000_000 + 200_000 * t.iter().map(|x| x.1.len() as u64).sum::<u64>()
}
pub fn solo(t: &Tree, hash: u64, schema: &str, out: &str, root: &str) -> Result<(), Panicked> {
    let (s, o, r) = (schema.to_string(), out.to_string(), root.to_string());
    let b = budget(t);
    alone(hash, move || compile(&s, &o, &r, b))
}
pub fn place(dir: &str, t: &Tree) {
    simfs::mkdirs(dir);
    for (p, b) in t {
        simfs::put(&format!("{}/{}", dir, p), b);
    }
}
pub fn key(t: &Tree, root: &str) -> u64 {
    let mut s: Vec<&(String, Vec<u8>)> = t.iter().collect();
    s.sort();
    let mut h = src::hash_bytes(7, root.as_bytes());
    for (p, b) in s {
        h = src::hash_bytes(src::hash_bytes(h, p.as_bytes()), b);
    }
    h
}
static MEMO: Mutex<Option<HashMap<u64, Option<Files>>>> = Mutex::new(None);
/// What an undisturbed compilation in a fresh process yields; None: the schema is refused.
pub fn fresh(t: &Tree, root: &str) -> Option<Files> {
    let k = key(t, root);
    if let Some(x) = MEMO.lock().unwrap().get_or_insert_with(HashMap::new).get(&k) {
        return x.clone();
    }
    simfs::reset();
    place("/sim/schema", t);
    simfs::mkdirs("/sim/out");
    let r = solo(t, 0x5eed, "/sim/schema", "/sim/out", root);
    if let (Err(p), Ok(_)) = (&r, std::env::var("SIM_WHY")) {
        eprintln!("REFUSED {} at {}", p.msg, p.at);
        for (n, b) in t {
            eprintln!("--- {}\n{}", n, String::from_utf8_lossy(b));
        }
    }
    let f = r.is_ok().then(|| simfs::files("/sim/out"));
    let mut m = MEMO.lock().unwrap();
    let m = m.as_mut().unwrap();
    if m.len() > 400 {
        m.clear();
    }
    m.insert(k, f.clone());
    f
}
/// The first file that is missing, additional or different.
pub fn diff(want: &Files, got: &Files, extra_ok: bool) -> Option<(&'static str, String)> {
    for (p, b) in want {
        match got.get(p) {
            None => return Some(("missing", p.clone())),
            Some(g) if g != b => {
                let i = b.iter().zip(g.iter()).position(|(x, y)| x != y).unwrap_or(b.len().min(g.len()));
                return Some(("differs", format!("{} ({} instead of {} bytes, first difference at byte {}: {:?} instead of {:?})", p, g.len(), b.len(), i, ctx(g, i), ctx(b, i))));
            }
            _ => {}
        }
    }
    if !extra_ok {
        if let Some(p) = got.keys().find(|p| !want.contains_key(*p)) {
            return Some(("additional", p.clone()));
        }
    }
    None
}
fn ctx(b: &[u8], i: usize) -> String {
    String::from_utf8_lossy(&b[i.saturating_sub(10).min(b.len())..(i + 24).min(b.len())]).to_string()
}

//! What the checks of the runtime share: the corpus types, value generation and guarded calls of
//! the code under test.
use simkit::alloc::{self, Mem};
use simkit::cx::{guarded, set_label, Panicked};
use simkit::{below, chance, cov, range, Cx, G};
use simmodel::codec::*;
use simmodel::gen::Gen;
use simmodel::model::*;
use simmodel::value::*;
use simschema::glue::{Obj, TypeOps};
use std::sync::OnceLock;
use zserio::ZserioError;

pub struct World {
    pub m: Model,
    /// the model with the known deviation of aligned optional fields
    pub q: Model,
    pub types: Vec<Box<dyn TypeOps>>,
    /// size of the elements of array fields, by (compound, field)
    pub elem: std::collections::BTreeMap<(usize, usize), usize>,
    /// biggest element or object among everything a type can contain
    pub biggest: Vec<usize>,
    /// most members of a type among everything a type can contain
    pub members: Vec<usize>,
    pub recursive: Vec<bool>,
    /// contains arrays whose length is given by an expression
    pub by_field: Vec<bool>,
}
pub fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let pk: Vec<_> = simschema::gen::CORPUS.iter().map(|(f, t)| simmodel::ast::parse(t).unwrap_or_else(|e| panic!("{} {}", f, e))).collect();
        let m = simmodel::model::build(&pk).expect("corpus");
        let mut q = m.clone();
        q.quirk = true;
        let elem: std::collections::BTreeMap<_, _> = simschema::gen::elem_sizes().into_iter().map(|(a, b, c)| ((a, b), c)).collect();
        let obj = simschema::gen::obj_sizes();
        let n = m.comps.len();
        let mut reach = vec![std::collections::BTreeSet::new(); n];
        for (i, c) in m.comps.iter().enumerate() {
            for f in &c.fields {
                if let Ty::Comp(j, _) = &f.ty {
                    reach[i].insert(*j);
                }
            }
        }
        loop {
            let mut more = false;
            for i in 0..n {
                let add: Vec<usize> = reach[i].iter().flat_map(|j| reach[*j].iter().copied()).collect();
                for a in add {
                    more |= reach[i].insert(a);
                }
            }
            if !more {
                break;
            }
        }
        let biggest = (0..n)
            .map(|i| {
                reach[i].iter().copied().chain([i]).map(|j| (0..m.comps[j].fields.len()).map(|f| elem.get(&(j, f)).copied().unwrap_or(24)).max().unwrap_or(24).max(obj[j])).max().unwrap_or(64)
            })
            .collect();
        let members = (0..n).map(|i| reach[i].iter().copied().chain([i]).map(|j| m.comps[j].fields.len()).max().unwrap_or(0)).collect();
        let recursive = (0..n).map(|i| reach[i].contains(&i)).collect();
        let len = |i: usize| m.comps[i].fields.iter().any(|f| matches!(&f.array, Some(simmodel::ast::ArrLen::Expr(e)) if !matches!(e, simmodel::ast::Expr::Int(_))));
        let by_field = (0..n).map(|i| len(i) || reach[i].iter().any(|j| len(*j))).collect();
        World { m, q, types: simschema::gen::types(), elem, biggest, members, recursive, by_field }
    })
}
/// A type of the corpus and a legal value of it.
pub struct Case {
    pub t: &'static dyn TypeOps,
    pub v: Value,
}
pub fn draw_type() -> &'static dyn TypeOps {
    let w = world();
    &*w.types[below(w.types.len() as u64) as usize]
}
pub fn draw_budget() -> (u64, bool) {
    let b = match below(8) {
        0..=3 => 6 + below(20),
        4..=5 => 60,
        6 => 160,
        _ => 320,
    };
    (b, chance(1, 60))
}
pub fn draw_value(t: &'static dyn TypeOps, budget: u64, big: bool) -> Option<Value> {
    set_label(t.name());
    for _ in 0..3 {
        if let Some(v) = Gen::new(&world().m, &mut G, budget, big).top(t.idx()) {
            return Some(v);
        }
    }
    None
}
pub fn draw_case() -> Option<Case> {
    let t = draw_type();
    let (b, big) = draw_budget();
    Some(Case { t, v: draw_value(t, b, big)? })
}
pub fn small_case() -> Option<Case> {
    let t = draw_type();
    let b = 4 + below(24);
    Some(Case { t, v: draw_value(t, b, false)? })
}
pub fn flat<T>(r: Result<Result<T, ZserioError>, Panicked>) -> Out<T> {
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e.to_string(), io_kind(&e)),
        Err(p) => Out::Panic(p),
    }
}
pub fn io_kind(e: &ZserioError) -> Option<std::io::ErrorKind> {
    match e {
        ZserioError::IoError(e) => Some(e.kind()),
        _ => None,
    }
}
/// How a call of the code under test ended.
pub enum Out<T> {
    Ok(T),
    Err(String, Option<std::io::ErrorKind>),
    Panic(Panicked),
}
impl<T> Out<T> {
    pub fn show(&self, f: impl Fn(&T) -> String) -> String {
        match self {
            Out::Ok(v) => format!("Ok({})", f(v)),
            Out::Err(e, k) => format!("Err({}{})", e, k.map(|k| format!(", {:?}", k)).unwrap_or_default()),
            Out::Panic(p) => format!("panic at {}: {}", p.at, p.msg),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
}
/// Limits of a simulated process, far beyond what a correct call needs.
pub const STEPS: u64 = 400_000_000;
pub const STACK: usize = 6 << 20;
pub const MEMORY: u64 = 3 << 30;

pub struct Used {
    pub steps: u64,
    pub stack: u64,
    pub mem: Mem,
}
/// Calls the code under test with budgets; exceeding one ends the process as a violation.
pub fn call<T>(steps: u64, mem: u64, f: impl FnOnce() -> Result<T, ZserioError>) -> (Out<T>, Used) {
    let ((r, m), s, k) = {
        let (x, s, k) = cov::bounded(steps, STACK, || alloc::tracked(mem, || guarded(f)));
        (x, s, k)
    };
    (flat(r), Used { steps: s, stack: k, mem: m })
}
pub fn enc(o: &dyn Obj) -> Out<Vec<u8>> {
    call(STEPS, MEMORY, || o.to_bytes()).0
}
pub fn dec(t: &dyn TypeOps, b: &[u8]) -> Out<Box<dyn Obj>> {
    call(STEPS, MEMORY, || t.from_bytes(b)).0
}
/// Encoded by the code under test; None (and counted) if it refuses a legal value.
pub fn stored(cx: &mut Cx, c: &Case) -> Option<(Box<dyn Obj>, Vec<u8>)> {
    let o = c.t.make(&c.v);
    match enc(&*o) {
        Out::Ok(b) => Some((o, b)),
        _ => {
            cx.count("skipped:encode-refused");
            None
        }
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 48 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn show(v: &Value) -> String {
    v.show().chars().take(400).collect()
}
/// A value that usually cannot be serialised: an integer that does not fit its bits, an array of
/// the wrong length, an active alternative that is missing.
pub fn spoil(v: &Value) -> Value {
    let mut v = v.clone();
    let mut n = [0i64; 3];
    visit(&mut v, &mut |x| {
        if let Some(k) = kind(x) {
            n[k] += 1;
        }
    });
    let k = [2, 0, 0, 1, 1, 1][below(6) as usize];
    let k = if n[k] > 0 { k } else { 0 };
    if n[k] == 0 {
        return v;
    }
    let mut at = below(n[k] as u64) as i64;
    let x = [i64::MAX as i128, -1, 1 << 40, u64::MAX as i128, 200][below(5) as usize];
    let more = below(2) == 0;
    visit(&mut v, &mut |y| {
        if kind(y) == Some(k) {
            if at == 0 {
                match y {
                    Value::Int(i) => *i = x,
                    Value::Arr(a) => {
                        let l = a.last().cloned();
                        match l {
                            Some(l) if more => a.push(l),
                            _ => {
                                a.pop();
                            }
                        }
                    }
                    Value::Comp(c) => c.fields.iter_mut().for_each(|f| *f = Value::Absent),
                    _ => {}
                }
            }
            at -= 1;
        }
    });
    v
}
fn kind(v: &Value) -> Option<usize> {
    match v {
        Value::Int(_) => Some(0),
        Value::Arr(a) if !a.is_empty() => Some(1),
        Value::Comp(c) if world().m.comps[c.ty].kind != Kind::Struct => Some(2),
        _ => None,
    }
}
fn visit(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    f(v);
    match v {
        Value::Comp(c) => c.fields.iter_mut().for_each(|x| visit(x, f)),
        Value::Arr(a) => a.iter_mut().for_each(|x| visit(x, f)),
        _ => {}
    }
}
/// Damage of stored bytes.
pub fn corrupt(cx: &mut Cx, b: &mut Vec<u8>, other: &[u8]) {
    let n = 1 + below(3);
    for _ in 0..n {
        let len = b.len() as u64;
        let sector = [1u64, 2, 4, 8, 16, 64][below(6) as usize];
        let at = |l: u64| if l == 0 { 0 } else { below(l) as usize };
        let kind = below(11);
        let name = match kind {
            0 => {
                // one bit
                if len > 0 {
                    let i = at(len);
                    b[i] ^= 1 << below(8);
                }
                "bit-flip"
            }
            1 => {
                if len > 0 {
                    let i = at(len);
                    b[i] = [0xff, 0x80, 0x7f, 0x00, 0xfe][below(5) as usize];
                }
                "byte-set"
            }
            2 => {
                let i = at(len);
                let e = (i as u64 + sector).min(len) as usize;
                b.drain(i..e);
                "sector-lost"
            }
            3 => {
                let i = at(len);
                let e = (i as u64 + sector).min(len) as usize;
                let d = b[i..e].to_vec();
                for (k, x) in d.into_iter().enumerate() {
                    b.insert(e + k, x);
                }
                "sector-duplicated"
            }
            4 => {
                let i = at(len);
                let e = (i as u64 + sector).min(len) as usize;
                let fill = if below(2) == 0 { 0 } else { 0xff };
                b[i..e].fill(fill);
                "sector-cleared"
            }
            5 => {
                // stale: the same place of another object
                let i = at(len);
                let e = (i as u64 + sector).min(len).min(other.len() as u64) as usize;
                if i < e {
                    b[i..e].copy_from_slice(&other[i..e]);
                }
                "sector-stale"
            }
            6 => {
                // misdirected write
                let i = at(len);
                let j = at(len);
                let l = sector.min(len - i as u64).min(len - j as u64) as usize;
                let d = b[i..i + l].to_vec();
                b[j..j + l].copy_from_slice(&d);
                "sector-misdirected"
            }
            7 => {
                let k = at(len + 1);
                b.truncate(k);
                "truncated"
            }
            8 => {
                let k = 1 + below(sector);
                for _ in 0..k {
                    b.push(below(256) as u8);
                }
                "garbage-appended"
            }
            9 => {
                let i = at(len);
                let e = (i as u64 + sector).min(len) as usize;
                for x in &mut b[i..e] {
                    *x = below(256) as u8;
                }
                "sector-garbage"
            }
            _ => {
                // two ranges swapped in place
                let i = at(len);
                let j = at(len);
                if len > 0 {
                    b.swap(i, j);
                }
                "bytes-swapped"
            }
        };
        cx.fault(name, kind * 1000 + n);
    }
}
/// Also covers hostile data: any length of the object replaced.
pub fn forge(cx: &mut Cx, c: &Case) -> Option<Vec<u8>> {
    let w = world();
    let n = lengths(&w.m, &c.v).ok()?;
    if n == 0 {
        return None;
    }
    let k = below(n);
    let x = forged_len();
    let r = encode_forged(&w.m, &c.v, k, x).ok()??;
    cx.fault("length-forged", k);
    Some(r.0)
}
pub fn forged_len() -> i128 {
    match below(6) {
        0 => (1 << 31) - 1,
        1 => 1i128 << range(3, 30),
        2 => (1i128 << range(3, 31)) - 1,
        3 => below(300) as i128,
        4 => 1 + below(1 << 20) as i128,
        _ => below(1 << 31) as i128,
    }
}
pub fn norm(v: &Value) -> Option<Value> {
    guarded(|| normalize(&world().m, v).ok()).ok().flatten()
}

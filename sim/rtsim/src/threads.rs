//! C07: concurrent calls are isolated; C08: the array allocation chunk.
use crate::io::too_big;
use crate::store::default_chunk;
use crate::world::*;
use simkit::simio::{Plan, Stream};
use simkit::{below, chance, cov, cx::fail, sched, src, Cx, R};
use simmodel::codec::{encode_forged, lengths};
use simmodel::ast::ArrLen;
use simmodel::value::Value;
use simschema::glue::{Obj, TypeOps};
use std::sync::{Arc, Mutex};

type T = &'static dyn TypeOps;
enum What {
    Bytes(usize),
    /// to a sink that fails behind that many bytes
    Sink(usize, Option<u64>),
    Size(usize, u64),
    Load(T, Vec<u8>),
    /// from a source that fails behind that many bytes
    Source(T, Vec<u8>, Option<u64>),
    /// an object of this thread, decoded into again and again
    Reuse(T, Vec<Vec<u8>>),
    Clone(usize),
}
/// What a call returned, comparable between executions.
#[derive(PartialEq, Clone, Debug)]
enum Ret {
    Bytes(Vec<u8>),
    Num(u64),
    Val(Value),
    Err(String),
    Panic(String),
    Both(Box<Ret>, Vec<u8>),
    List(Vec<Ret>),
}
fn ret<X>(r: Out<X>, f: impl Fn(X) -> Ret) -> Ret {
    match r {
        Out::Ok(x) => f(x),
        Out::Err(e, k) => Ret::Err(format!("{} {:?}", e, k)),
        Out::Panic(p) => Ret::Panic(p.msg),
    }
}
fn perform(w: &What, objs: &[Box<dyn Obj>]) -> Ret {
    let val = |o: Box<dyn Obj>| Ret::Val(o.value());
    match w {
        What::Bytes(i) => ret(call(STEPS, MEMORY, || objs[*i].to_bytes()).0, Ret::Bytes),
        What::Sink(i, at) => {
            let mut s = Stream::sink(Plan { fail_after: *at, short: 20, ..Plan::calm() }, 0);
            let r = ret(call(STEPS, MEMORY, || objs[*i].to_writer(&mut s)).0, |_| Ret::Num(0));
            Ret::Both(Box::new(r), s.data)
        }
        What::Size(i, p) => ret(call(STEPS, MEMORY, || objs[*i].bitsize(*p)).0, Ret::Num),
        What::Load(t, b) => ret(call(STEPS, MEMORY, || t.from_bytes(b)).0, val),
        What::Source(t, b, at) => {
            let mut s = Stream::source(b.clone(), Plan { fail_after: *at, short: 20, ..Plan::calm() }, 0);
            ret(call(STEPS, MEMORY, || t.from_reader(&mut s)).0, val)
        }
        What::Reuse(t, bs) => {
            let mut o = t.fresh();
            let mut l = vec![];
            for b in bs {
                let r = call(STEPS, MEMORY, || o.read(&mut bitreader::BitReader::new(b))).0;
                l.push(match r {
                    Out::Ok(()) => Ret::Val(o.value()),
                    r => ret(r, |_| Ret::Num(0)),
                });
            }
            Ret::List(l)
        }
        What::Clone(i) => {
            let c = objs[*i].dup();
            ret(call(STEPS, MEMORY, || c.to_bytes()).0, Ret::Bytes)
        }
    }
}
fn name(w: &What) -> &'static str {
    match w {
        What::Bytes(_) => "to_bytes",
        What::Sink(..) => "to_writer",
        What::Size(..) => "bitsize",
        What::Load(..) => "from_bytes",
        What::Source(..) => "from_reader",
        What::Reuse(..) => "zserio_read",
        What::Clone(_) => "clone+to_bytes",
    }
}
fn short(r: &Ret) -> String {
    format!("{:?}", r).chars().take(300).collect()
}

pub fn c07(cx: &mut Cx) -> R {
    // the concurrent calls are the first ones of the process
    let cold = below(2) == 1;
    let nobj = 2 + below(3) as usize;
    let mut objs: Vec<Box<dyn Obj>> = vec![];
    let mut vals: Vec<(Case, Vec<u8>)> = vec![];
    for _ in 0..nobj {
        let Some(c) = small_case() else { continue };
        let ob = if cold {
            // prepared by the reference codec: nothing of the code under test has run yet
            simmodel::codec::encode(&world().m, &c.v).ok().map(|b| (c.t.make(&c.v), b))
        } else {
            stored(cx, &c)
        };
        let Some((o, b)) = ob else { continue };
        if chance(1, 4) {
            let bad = c.t.make(&spoil(&c.v));
            objs.push(bad);
        } else {
            objs.push(o);
        }
        vals.push((c, b));
    }
    if vals.is_empty() {
        cx.count("skipped");
        return Ok(());
    }
    let n = objs.len() as u64;
    // sometimes many threads, most of them in the same kind of call
    let crowd = chance(1, 6);
    let nth = if crowd { 5 + below(12) as usize } else { 2 + below(3) as usize };
    let usual = below(9);
    if crowd {
        cx.count("crowd");
    }
    let mut plans: Vec<Vec<What>> = vec![];
    for _ in 0..nth {
        let k = if crowd { 1 } else { 1 + below(4) };
        let mut v = vec![];
        for _ in 0..k {
            let i = below(n) as usize;
            let (c, b) = &vals[i];
            let mut data = b.clone();
            if chance(1, 4) {
                let cut = below(b.len() as u64 + 1) as usize;
                data.truncate(cut);
                cx.fault("torn", cut as u64);
            } else if chance(1, 4) {
                corrupt(cx, &mut data, b);
                if too_big(c.t.idx(), &data) {
                    data = b.clone();
                }
            }
            let at = if chance(1, 3) {
                cx.fault("stream-error", i as u64);
                Some(below(b.len() as u64 + 1))
            } else {
                None
            };
            let kind = if crowd && chance(3, 4) { usual } else { below(9) };
            v.push(match kind {
                0 | 1 => What::Bytes(i),
                2 => What::Sink(i, at),
                3 => What::Size(i, below(20)),
                4 | 5 => What::Load(c.t, data),
                6 => What::Source(c.t, data, at),
                7 => What::Reuse(c.t, vec![b.clone(), data, b.clone()]),
                _ => What::Clone(i),
            });
        }
        plans.push(v);
    }
    // alone, in order
    let solo = |plans: &[Vec<What>], objs: &[Box<dyn Obj>]| -> Vec<Vec<Ret>> { plans.iter().map(|p| p.iter().map(|w| perform(w, objs)).collect()).collect() };
    let mut alone = if cold { vec![] } else { solo(&plans, &objs) };
    cx.count(if cold { "cold-start" } else { "warm-start" });
    let objs = Arc::new(objs);
    let plans = Arc::new(plans);
    let got: Vec<Arc<Mutex<Vec<Ret>>>> = (0..nth).map(|_| Arc::new(Mutex::new(vec![]))).collect();
    let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..nth)
        .map(|i| {
            let (o, p, g) = (objs.clone(), plans.clone(), got[i].clone());
            Box::new(move || {
                for w in &p[i] {
                    let r = perform(w, &o);
                    g.lock().unwrap().push(r);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    simkit::cx::set_label("threads");
    let out = sched::run(bodies);
    book(cx, &out);
    if cold {
        alone = solo(&plans, &objs);
    }
    for p in &alone {
        for r in p {
            if matches!(r, Ret::Panic(_)) {
                cx.fault("call-panics", 0);
            }
        }
    }
    for i in 0..nth {
        let g = got[i].lock().unwrap();
        for (k, w) in plans[i].iter().enumerate() {
            cx.count(name(w));
            if g.get(k) != Some(&alone[i][k]) {
                return fail(
                    format!("interference:{}", name(w)),
                    format!("thread {} call {} ({}): alone {}, among {} threads {}", i, k, name(w), short(&alone[i][k]), nth, g.get(k).map(short).unwrap_or_default()),
                );
            }
        }
    }
    Ok(())
}
fn book(cx: &mut Cx, o: &sched::Outcome) {
    cx.add("thread-switches", o.switches);
    cx.add("preemption-points", o.preempts);
    cx.add("futex-waits", o.futex_waits);
    cx.sign(o.sig);
    if o.switches > 0 {
        cx.nontrivial = true;
    }
    cx.event(o.preempts * 1000);
    src::observe(o.sig);
}

#[derive(Clone, Debug)]
enum Op {
    Set(usize),
    Get(usize),
    /// which load, how it came out
    Load(usize, usize),
}
#[derive(Clone, Debug)]
struct Ev {
    op: Op,
    from: u64,
    to: u64,
}
/// An object whose data end right behind the length of one of its arrays.
struct Probe {
    t: T,
    bytes: Vec<u8>,
    declared: u64,
    elem: usize,
    /// the biggest allocation of the same load with nothing forged
    base: u64,
    /// the arrays the load begins: declared length, elements that are there, and size of an element
    arrays: Vec<(u64, u64, u64)>,
    what: String,
}
/// Forges the length of an array and cuts the data behind it.
fn probe() -> Option<Probe> {
    let w = world();
    for _ in 0..4 {
        let c = small_case()?;
        let n = lengths(&w.m, &c.v).ok()?;
        if n == 0 {
            continue;
        }
        let k = below(n);
        let x = [1 << 20, 100_000, 20_000, 5_000, 1_500, 300, 40][below(7) as usize];
        let Some((b, (array, ci, fi, _))) = encode_forged(&w.m, &c.v, k, x).ok()? else { continue };
        let (plain, _) = encode_forged(&w.m, &c.v, k, 1 << 30).ok()??;
        if !array {
            continue;
        }
        // the forged length lies behind the last byte both encodings have in common; the data end there
        let same = b.iter().zip(&plain).take_while(|(x, y)| x == y).count();
        let f = &w.m.comps[ci].fields[fi];
        if !matches!(f.array, Some(ArrLen::Auto)) {
            continue;
        }
        let elem = *w.elem.get(&(ci, fi))?;
        // the shortest data with the whole length, and perhaps some more
        let begun = |cut: usize| {
            let d = simmodel::codec::decode_at(&w.m, c.t.idx(), &b[..cut], 0, crate::store::work_limit(cut));
            (d.value == Err(simmodel::codec::DecErr::Eof) && d.arrays.iter().any(|(i, j, n, _)| (*i, *j, *n) == (ci, fi, x as u64))).then_some(d)
        };
        let Some(cut) = (same..(same + 5).min(b.len() + 1)).find(|cut| begun(*cut).is_some()) else { continue };
        let more = below(4) as usize;
        let cut = (cut + more).min(b.len());
        let Some(d) = begun(cut) else { continue };
        if d.work > 400 {
            continue;
        }
        let good = simmodel::codec::encode(&w.m, &c.v).ok()?;
        zserio::set_array_alloc_chunk(0);
        let base = call(STEPS, MEMORY, || c.t.from_bytes(&good)).1.mem.biggest;
        let arrays = d.arrays.iter().map(|(ci, fi, n, got)| (*n, *got, w.elem.get(&(*ci, *fi)).copied().unwrap_or(0) as u64)).collect();
        return Some(Probe { t: c.t, bytes: b[..cut].to_vec(), declared: x as u64, elem, base, arrays, what: format!("{}.{}", w.m.comps[ci].name, f.name) });
    }
    None
}
/// Overwrites numbers until an array declares more elements than there are data: also the length of an
/// array that is given by other fields.
fn probe_fields() -> Option<Probe> {
    let w = world();
    let t = (0..12).map(|_| draw_type()).find(|t| w.by_field[t.idx()])?;
    let c = Case { t, v: draw_value(t, 4 + below(24), false)? };
    let good = simmodel::codec::encode(&w.m, &c.v).ok()?;
    if good.is_empty() || good.len() > 300 {
        return None;
    }
    zserio::set_array_alloc_chunk(0);
    let base = call(STEPS, MEMORY, || c.t.from_bytes(&good)).1.mem.biggest;
    for _ in 0..6 {
        let mut b = good.clone();
        let at = below(b.len() as u64) as usize;
        let n = (1 + below(5) as usize).min(b.len() - at);
        let x = match below(3) {
            0 => u64::MAX,
            1 => 1 << below(24),
            _ => below(1 << 24),
        };
        for k in 0..n {
            b[at + n - 1 - k] = (x >> (8 * k)) as u8;
        }
        let d = simmodel::codec::decode_at(&w.m, c.t.idx(), &b, 0, crate::store::work_limit(b.len()));
        if d.value != Err(simmodel::codec::DecErr::Eof) || d.work > 400 {
            continue;
        }
        let Some((ci, fi, x, _)) = d.arrays.iter().copied().find(|(i, j, n, _)| *n >= 40 && matches!(w.m.comps[*i].fields[*j].array, Some(ArrLen::Expr(_)))) else { continue };
        let elem = *w.elem.get(&(ci, fi))?;
        let arrays = d.arrays.iter().map(|(ci, fi, n, got)| (*n, *got, w.elem.get(&(*ci, *fi)).copied().unwrap_or(0) as u64)).collect();
        let base = base.max(b.len() as u64);
        return Some(Probe { t: c.t, bytes: b, declared: x, elem, base, arrays, what: format!("{}.{}", w.m.comps[ci].name, w.m.comps[ci].fields[fi].name) });
    }
    None
}
fn draw_chunk(forged: bool) -> usize {
    if forged {
        [1000, 0, 1, 3, 64, 500, 5000, 40_000, 1 << 20][below(9) as usize]
    } else {
        [1000, 0, 1, 2, 7, 100, 5000, 1 << 20, usize::MAX, usize::MAX - 1, isize::MAX as usize][below(11) as usize]
    }
}
/// What an array may reserve up front, or take for the elements that are there, in bytes.
fn allowed(p: &Probe, chunk: usize) -> u64 {
    let most = |n: u64, got: u64| {
        let n = (chunk as u64).min(n).max(if got > 0 { 2 * got + 2 } else { 0 });
        // the least capacity of a growing vector
        if n > 0 {
            n.max(8)
        } else {
            0
        }
    };
    p.arrays.iter().map(|(n, got, e)| most(*n, *got) * e).max().unwrap_or(0).max(p.base).max(512)
}
pub fn c08(cx: &mut Cx) -> R {
    default_chunk();
    let r = c08_(cx);
    default_chunk();
    r
}
fn c08_(cx: &mut Cx) -> R {
    let forged = chance(1, 2);
    let mut loads: Vec<(T, Vec<u8>, Ret)> = vec![];
    let mut probes: Vec<Probe> = vec![];
    if forged {
        for _ in 0..1 + below(2) {
            let p = if chance(1, 3) { probe_fields().or_else(probe) } else { probe() };
            if let Some(p) = p {
                probes.push(p);
            }
        }
        zserio::set_array_alloc_chunk(0);
        for p in &probes {
            cx.fault("length-forged", p.declared);
            let r = ret(call(STEPS, MEMORY, || p.t.from_bytes(&p.bytes)).0, |o| Ret::Val(o.value()));
            loads.push((p.t, p.bytes.clone(), r));
        }
    } else {
        for _ in 0..1 + below(3) {
            let Some(c) = small_case() else { continue };
            let Some((_, mut b)) = stored(cx, &c) else { continue };
            if chance(1, 4) {
                let k = below(b.len() as u64 + 1);
                cx.fault("torn", k);
                b.truncate(k as usize);
            }
            let r = ret(call(STEPS, MEMORY, || c.t.from_bytes(&b)).0, |o| Ret::Val(o.value()));
            loads.push((c.t, b, r));
        }
    }
    if loads.is_empty() {
        cx.count("skipped");
        return Ok(());
    }
    default_chunk();
    let nth = [1, 2, 2, 3][below(4) as usize];
    let plans: Vec<Vec<Op>> = (0..nth)
        .map(|_| {
            (0..2 + below(4))
                .map(|_| match below(4) {
                    0 => Op::Get(0),
                    1 => Op::Set(draw_chunk(forged)),
                    _ => Op::Load(below(loads.len() as u64) as usize, 0),
                })
                .collect()
        })
        .collect();
    let loads = Arc::new(loads);
    let probes = Arc::new(probes);
    let hist: Arc<Mutex<Vec<(usize, Ev, u64, Option<Ret>)>>> = Arc::new(Mutex::new(vec![]));
    let body = |i: usize, ops: Vec<Op>| {
        let (l, h) = (loads.clone(), hist.clone());
        Box::new(move || {
            for mut op in ops {
                let from = sched::now();
                let mut big = 0;
                let mut r = None;
                match &mut op {
                    Op::Set(n) => {
                        cov::yield_point();
                        zserio::set_array_alloc_chunk(*n)
                    }
                    Op::Get(n) => {
                        cov::yield_point();
                        *n = zserio::get_array_alloc_chunk()
                    }
                    Op::Load(k, _) => {
                        let (t, b, _) = &l[*k];
                        let (x, u) = call(STEPS, 4 << 30, || t.from_bytes(b));
                        big = u.mem.biggest;
                        r = Some(ret(x, |o| Ret::Val(o.value())));
                    }
                }
                let to = sched::now();
                h.lock().unwrap().push((i, Ev { op, from, to }, big, r));
            }
        }) as Box<dyn FnOnce() + Send>
    };
    simkit::cx::set_label("chunk");
    if nth == 1 {
        body(0, plans[0].clone())();
    } else {
        let bodies = plans.iter().enumerate().map(|(i, p)| body(i, p.clone())).collect();
        let o = sched::run(bodies);
        book(cx, &o);
    }
    cx.nontrivial = true;
    let h = hist.lock().unwrap();
    for (i, e, _, _) in h.iter() {
        cx.note(|| format!("thread {}: {:?}", i, e));
        cx.sign(src::hash_bytes(e.to, format!("{:?}", e.op).as_bytes()));
    }
    let sets: Vec<(usize, u64, u64)> = std::iter::once((1000, 0, 0)).chain(h.iter().filter_map(|(_, e, _, _)| if let Op::Set(n) = e.op { Some((n, e.from, e.to)) } else { None })).collect();
    // settings that can be in effect during an interval
    let effective = |from: u64, to: u64| -> Vec<usize> { sets.iter().filter(|s| s.1 <= to && !sets.iter().any(|z| z.1 > s.2 && z.2 < from)).map(|s| s.0).collect() };
    for (i, e, big, r) in h.iter() {
        match e.op {
            Op::Set(_) => cx.count("set"),
            Op::Get(got) => {
                cx.count("get");
                let v = effective(e.from, e.to);
                if !v.contains(&got) {
                    return fail("chunk-read", format!("thread {}: get_array_alloc_chunk returned {}, but only {:?} can be in effect", i, got, v));
                }
            }
            Op::Load(k, _) => {
                cx.count("load");
                let (t, b, want) = &loads[k];
                if r.as_ref() != Some(want) {
                    return fail("chunk-changes-result", format!("{}: {} is loaded as {} and with the chunk {:?} as {}", t.name(), hex(b), short(want), effective(e.from, e.to), r.as_ref().map(short).unwrap_or_default()));
                }
                if forged {
                    let p = &probes[k];
                    let v = effective(e.from, e.to);
                    let cap = v.iter().map(|c| allowed(p, *c)).max().unwrap_or(0);
                    cx.max("max-reserved-permille-of-allowed", big * 1000 / cap);
                    cx.count("measured");
                    if *big > cap {
                        return fail(
                            format!("chunk-exceeded:{}", p.what),
                            format!("{}: a declared array length of {} made the load allocate {} bytes at once; with the chunk {:?} and elements of {} bytes at most {} are allowed", p.what, p.declared, big, v, p.elem, cap),
                        );
                    }
                }
            }
        }
    }
    // reads that follow each other see the settings in one order
    linear(&h.iter().map(|(_, e, _, _)| e.clone()).filter(|e| !matches!(e.op, Op::Load(..))).collect::<Vec<_>>())
}
/// Is there a sequential history of the register that fits the recorded one?
fn linear(h: &[Ev]) -> R {
    fn go(h: &[Ev], used: &mut Vec<bool>, cur: usize, left: usize) -> bool {
        if left == 0 {
            return true;
        }
        for i in 0..h.len() {
            if used[i] || (0..h.len()).any(|j| !used[j] && j != i && h[j].to < h[i].from) {
                continue;
            }
            let next = match h[i].op {
                Op::Set(n) => n,
                Op::Get(n) if n == cur => cur,
                _ => continue,
            };
            used[i] = true;
            if go(h, used, next, left - 1) {
                return true;
            }
            used[i] = false;
        }
        false
    }
    if h.len() > 14 || go(h, &mut vec![false; h.len()], 1000, h.len()) {
        return Ok(());
    }
    fail("chunk-history", format!("no order of the calls explains what was read: {:?}", h))
}

//! Objects in storage: C03 store and load, C04 torn objects, C05 damaged objects, C06 memory while
//! decoding, C09 reuse of objects, C10 record logs.
use crate::io::too_big;
use crate::world::*;
use bitreader::BitReader;
use rust_bitwriter::BitWriter;
use simkit::simio::{Plan, Stream};
use simkit::{below, chance, cx::fail, src, Cx, R};
use simmodel::ast::ArrLen;
use simmodel::codec::{decode_at, DecErr};
use simmodel::model::{Kind, Ty};
use simmodel::value::Value;
use simschema::glue::{Obj, TypeOps};
use std::collections::HashMap;

pub fn default_chunk() {
    zserio::set_array_alloc_chunk(1000);
}

pub fn c03(cx: &mut Cx) -> R {
    let Some(c) = draw_case() else {
        cx.count("skipped");
        return Ok(());
    };
    let t = c.t.name();
    cx.sign(src::hash_bytes(c.t.idx() as u64, c.v.show().as_bytes()));
    if chance(1, 8) {
        return misfit(cx, &c);
    }
    let o = c.t.make(&c.v);
    let made = norm(&o.value());
    if made.as_ref() != Some(&c.v) {
        return fail("harness:conversion", format!("{}: the object made from {} holds {}", t, show(&c.v), show(&o.value())));
    }
    let mut disk = Stream::sink(Plan::draw(64, false), 1);
    let r = call(STEPS, MEMORY, || o.to_writer(&mut disk)).0;
    disk.report(cx, "store");
    cx.count("stored");
    cx.nontrivial = true;
    match r {
        Out::Ok(()) => {}
        r => return fail(format!("store-refused:{}", t), format!("{}: storing {} ended with {}", t, show(&c.v), r.show(|_| "".into()))),
    }
    if made != norm(&o.value()) {
        return fail(format!("store-changed-object:{}", t), format!("{}: storing changed the object {}", t, show(&c.v)));
    }
    let bytes = disk.data;
    cx.add("bytes", bytes.len() as u64);
    cx.note(|| format!("store {} {} as {}", t, show(&c.v), hex(&bytes)));
    let mut src_ = Stream::source(bytes.clone(), Plan::draw(64, false), 2);
    let r = match below(4) {
        0 => call(STEPS, MEMORY, || c.t.from_bytes(&bytes)).0,
        1 => {
            let p = Plan::draw(64, false);
            let (r, f, _) = crate::files::read_intact(cx, c.t, &bytes, &p);
            assert!(f.is_none());
            r
        }
        _ => call(STEPS, MEMORY, || c.t.from_reader(&mut src_)).0,
    };
    src_.report(cx, "load");
    let l = match r {
        Out::Ok(l) => l,
        r => return fail(format!("load-refused:{}", t), format!("{}: loading {} stored as {} ended with {}", t, show(&c.v), hex(&bytes), r.show(|_| "".into()))),
    };
    match norm(&l.value()) {
        Some(v) if v == c.v => {}
        _ => return fail(format!("other-value:{}", t), format!("{}: stored {}, loaded {} (bytes {})", t, show(&c.v), show(&l.value()), hex(&bytes))),
    }
    cx.count("loaded");
    match enc(&*l) {
        Out::Ok(b) if b == bytes => {}
        r => return fail(format!("other-bytes:{}", t), format!("{}: {} was stored as {}, the loaded object is stored as {}", t, show(&c.v), hex(&bytes), r.show(|b| hex(b)))),
    }
    Ok(())
}

/// An object with one value that may not fit into its field is refused, or comes back as it was.
fn misfit(cx: &mut Cx, c: &Case) -> R {
    let t = c.t.name();
    let mut places = vec![];
    let mut arrays = vec![];
    scalars(&c.v, &mut vec![], &mut places, &mut arrays);
    if !arrays.is_empty() && chance(1, 4) {
        return wrong_length(cx, c, &arrays[below(arrays.len() as u64) as usize]);
    }
    if places.is_empty() {
        cx.count("skipped");
        return Ok(());
    }
    let (bits, path) = &places[below(places.len() as u64) as usize];
    let mut v = c.v.clone();
    match at(&mut v, path) {
        Some(Value::Int(i)) => {
            let k = match bits {
                Some(b) if chance(1, 2) => *b as u64 - below(2),
                _ => below(65),
            };
            *i = ((1i128 << k) + below(3) as i128 - 1) * if chance(1, 3) { -1 } else { 1 };
        }
        Some(Value::Ext(n, b)) => match below(3) {
            0 => b.extend((0..1 + below(3)).map(|_| below(256) as u8)),
            1 => *n += 1 + below(20) as u32,
            _ => *n = below(*n as u64 + 1) as u32,
        },
        Some(y) => {
            if let Value::Bytes(b) = y {
                let n = b.len() as i128;
                let n = if chance(1, 2) { n + 1 + below(3) as i128 } else { (n - 1 - below(3) as i128).max(0) };
                *y = Value::Arr(vec![Value::Int(n), Value::Bytes(std::mem::take(b))]);
            }
        }
        None => unreachable!(),
    }
    let o = c.t.make(&v);
    let mut made = o.value();
    let kept = at(&mut made, path).cloned();
    let mut disk = Stream::sink(Plan::draw(64, false), 1);
    let r = call(STEPS, MEMORY, || o.to_writer(&mut disk)).0;
    disk.report(cx, "store");
    cx.nontrivial = true;
    if let Out::Ok(()) = r {
        cx.count("misfit:stored");
        let r = dec(c.t, &disk.data);
        let l = match &r {
            Out::Ok(l) => at(&mut l.value(), path).cloned(),
            _ => None,
        };
        let same = match (&kept, &l) {
            (Some(Value::Ext(n, a)), Some(Value::Ext(m, b))) => n == m && (0..*n as usize).all(|i| a.get(i / 8).map(|x| x << (i % 8) & 128) == b.get(i / 8).map(|x| x << (i % 8) & 128)),
            (a, b) => a == b && b.is_some(),
        };
        // Other numbers can contradict what was chosen by the one they replace.
        let judged = matches!(r, Out::Ok(_)) || !matches!(kept, Some(Value::Int(_)));
        if !same && judged {
            return fail(
                format!("acknowledged-loss:{}", t),
                format!("{}: storing {} with {} in it was acknowledged as {}, loading gives {} ({})", t, show(&made), kept.map(|k| k.show()).unwrap_or_default(), hex(&disk.data), l.map(|k| k.show()).unwrap_or_default(), r.show(|l| show(&l.value()))),
            );
        }
    } else {
        cx.count("misfit:refused");
    }
    Ok(())
}
/// An array with more or fewer elements than it should have is refused, or comes back with as many.
fn wrong_length(cx: &mut Cx, c: &Case, (given, path): &(bool, Vec<usize>)) -> R {
    let t = c.t.name();
    let mut v = c.v.clone();
    if let Some(Value::Arr(a)) = at(&mut v, path) {
        let n = 1 + below(3) as usize;
        match a.last().cloned() {
            Some(l) if chance(1, 2) => a.extend(std::iter::repeat_n(l, n)),
            _ => a.truncate(a.len() - n.min(a.len())),
        }
    }
    let o = c.t.make(&v);
    let mut made = o.value();
    let len = |v: &mut Value| match at(v, path) {
        Some(Value::Arr(a)) => Some(a.len()),
        _ => None,
    };
    let kept = len(&mut made);
    let mut disk = Stream::sink(Plan::draw(64, false), 1);
    let r = call(STEPS, MEMORY, || o.to_writer(&mut disk)).0;
    disk.report(cx, "store");
    cx.nontrivial = true;
    let Out::Ok(()) = r else {
        cx.count("misfit:refused");
        return Ok(());
    };
    cx.count("misfit:stored");
    let r = dec(c.t, &disk.data);
    let l = match &r {
        Out::Ok(l) => len(&mut l.value()),
        _ => None,
    };
    if l != kept && (*given || matches!(r, Out::Ok(_))) {
        return fail(
            format!("acknowledged-loss:{}", t),
            format!("{}: storing {} with {:?} elements in an array was acknowledged as {}, loading gives {:?} ({})", t, show(&made), kept, hex(&disk.data), l, r.show(|l| show(&l.value()))),
        );
    }
    Ok(())
}
/// The numbers and blobs that are stored for a legal value, with the bits of those that have a fixed number,
/// and the arrays (true where the schema gives the length).
fn scalars(v: &Value, path: &mut Vec<usize>, out: &mut Vec<(Option<u32>, Vec<usize>)>, arrays: &mut Vec<(bool, Vec<usize>)>) {
    let Value::Comp(c) = v else { return };
    for (i, f) in world().m.comps[c.ty].fields.iter().enumerate() {
        path.push(i);
        let n = match &c.fields[i] {
            Value::Arr(a) => a.len(),
            _ => usize::MAX,
        };
        if n != usize::MAX {
            arrays.push((matches!(f.array, Some(ArrLen::Expr(_))), path.clone()));
        }
        for k in 0..n.min(4096) {
            let x = match &c.fields[i] {
                Value::Arr(a) => {
                    path.push(k);
                    &a[k]
                }
                x if k == 0 => x,
                _ => break,
            };
            match (&f.ty, x) {
                (_, Value::Absent) => {}
                (Ty::UInt(b) | Ty::SInt(b), _) => out.push((Some(*b), path.clone())),
                (Ty::DynU(_) | Ty::DynS(_) | Ty::Var(_) | Ty::Bytes | Ty::Extern, _) => out.push((None, path.clone())),
                (Ty::Comp(..), x) => scalars(x, path, out, arrays),
                _ => {}
            }
            if n != usize::MAX {
                path.pop();
            }
        }
        path.pop();
    }
}
fn at<'a>(v: &'a mut Value, path: &[usize]) -> Option<&'a mut Value> {
    let Some((i, rest)) = path.split_first() else { return Some(v) };
    match v {
        Value::Comp(c) => at(c.fields.get_mut(*i)?, rest),
        Value::Arr(a) => at(a.get_mut(*i)?, rest),
        _ => None,
    }
}

/// Budgets in proportion to the data: `items` is what the reference decoder had to look at.
fn steps_for(len: usize, items: u64) -> u64 {
    10_000 + 500 * len as u64 + 250 * items
}
pub fn work_limit(len: usize) -> u64 {
    20_000 + 16 * len as u64
}

pub fn c04(cx: &mut Cx) -> R {
    let Some(c) = draw_case() else {
        cx.count("skipped");
        return Ok(());
    };
    let Some((_, bytes)) = stored(cx, &c) else { return Ok(()) };
    let t = c.t.name();
    let n = bytes.len();
    let cuts: Vec<usize> = if n <= 96 {
        (0..n).collect()
    } else {
        (0..48).map(|k| if k < 4 { n - 1 - k } else { below(n as u64) as usize }).collect()
    };
    cx.sign(src::hash_bytes(c.t.idx() as u64, &bytes));
    let limit = steps_for(n, decode_at(&world().m, c.t.idx(), &bytes, 0, 10_000_000).work);
    for k in cuts {
        cx.fault("torn", k as u64);
        let part = &bytes[..k];
        let via = below(3);
        let (r, u) = if via == 0 {
            let mut s = Stream::source(part.to_vec(), Plan::draw(64, false), 3);
            let r = call(limit, MEMORY, || c.t.from_reader(&mut s));
            s.report(cx, "source");
            r
        } else {
            call(limit, MEMORY, || c.t.from_bytes(part))
        };
        src::observe(u.steps);
        match r {
            Out::Err(..) => {}
            Out::Ok(o) => {
                cx.note(|| format!("{} {} cut to {} bytes", t, hex(&bytes), k));
                return fail(format!("torn-accepted:{}", t), format!("{}: the first {} of {} bytes of {} (value {}) were loaded as {}", t, k, n, hex(&bytes), show(&c.v), show(&o.value())));
            }
            Out::Panic(p) => return fail(format!("panic:{}", p.at), format!("{}: loading the first {} of {} bytes {} panicked at {}: {}", t, k, n, hex(&bytes), p.at, p.msg)),
        }
    }
    cx.count("objects");
    Ok(())
}

/// A stored object after damage of the storage. None: skipped.
fn damaged(cx: &mut Cx) -> Option<(Case, Vec<u8>)> {
    let c = draw_case()?;
    let (_, mut b) = stored(cx, &c)?;
    let style = below(10);
    match style {
        0 => {
            b = forge(cx, &c)?;
            if chance(1, 3) {
                let k = below(b.len() as u64 + 1);
                b.truncate(k as usize);
                cx.fault("truncated", k);
            }
        }
        1 => {
            // another object altogether
            let d = small_case()?;
            b = stored(cx, &d)?.1;
            cx.fault("file-misdirected", 0);
        }
        2 => {
            let n = below(40);
            b = (0..n).map(|_| below(256) as u8).collect();
            cx.fault("garbage", n);
        }
        _ => {
            let other = if style == 3 { small_case().and_then(|d| stored(cx, &d)).map(|x| x.1).unwrap_or_default() } else { b.clone() };
            corrupt(cx, &mut b, &other);
        }
    }
    Some((c, b))
}
/// Garbage that nests a recursive type as deep as it is long.
fn deep(cx: &mut Cx) -> R {
    let w = world();
    let ts: Vec<_> = w.types.iter().filter(|t| w.recursive[t.idx()]).collect();
    let t = &ts[below(ts.len() as u64) as usize];
    let n = below(60_000);
    let b: Vec<u8> = (0..n).flat_map(|_| [7u8, 1]).collect();
    cx.fault("garbage-nested", n);
    simkit::cx::set_label(t.name());
    cx.note(|| format!("load {} from {} bytes: {} levels of nesting", t.name(), b.len(), n));
    let (r, _) = call(steps_for(b.len(), n), 2 << 30, || t.from_bytes(&b));
    match r {
        Out::Panic(p) => fail(format!("panic:{}", p.at), format!("{}: loading nested data panicked at {}: {}", t.name(), p.at, p.msg)),
        _ => Ok(()),
    }
}
pub fn c05(cx: &mut Cx) -> R {
    if chance(1, 3000) {
        return deep(cx);
    }
    let Some((c, b)) = damaged(cx) else {
        cx.count("skipped");
        return Ok(());
    };
    let t = c.t.name();
    cx.sign(src::hash_bytes(c.t.idx() as u64, &b));
    let d = decode_at(&world().m, c.t.idx(), &b, 0, work_limit(b.len()));
    if d.value == Err(DecErr::TooBig) {
        // the format lets a few bytes stand for very many elements of zero bits
        cx.count("skipped:zero-bit-elements");
        return Ok(());
    }
    cx.note(|| format!("load {} from damaged {} (was {}); reference: {} after {} items", t, b.iter().map(|x| format!("{:02x}", x)).collect::<String>(), show(&c.v), d.value.as_ref().map(show).unwrap_or_else(|e| format!("{:?}", e)), d.work));
    let limit = steps_for(b.len(), d.work);
    simkit::cx::set_label(t);
    let (r, u) = call(limit, 2 << 30, || c.t.from_bytes(&b));
    src::observe(u.steps);
    cx.max("max-steps-permille-of-budget", u.steps * 1000 / limit);
    match r {
        Out::Ok(_) => cx.count("accepted"),
        Out::Err(..) => cx.count("rejected"),
        Out::Panic(p) => return fail(format!("panic:{}", p.at), format!("{}: loading {} panicked at {}: {}", t, hex(&b), p.at, p.msg)),
    }
    Ok(())
}

pub fn c06(cx: &mut Cx) -> R {
    let w = world();
    let forged = chance(2, 3);
    let (c, b) = if forged {
        let Some(c) = (if chance(1, 2) { small_case() } else { draw_case() }) else { return Ok(()) };
        let again = || if chance(1, 2) { small_case() } else { draw_case() };
        let mut c = c;
        let mut b = forge(cx, &c);
        for _ in 0..3 {
            if b.is_some() {
                break;
            }
            let Some(d) = again() else { return Ok(()) };
            c = d;
            b = forge(cx, &c);
        }
        let Some(mut b) = b else {
            cx.count("skipped");
            return Ok(());
        };
        if chance(1, 3) {
            let k = below(b.len() as u64 + 1);
            b.truncate(k as usize);
            cx.fault("truncated", k);
        }
        (c, b)
    } else {
        match damaged(cx) {
            Some(x) => x,
            None => {
                cx.count("skipped");
                return Ok(());
            }
        }
    };
    let t = c.t.name();
    let chunk = [0u64, 1, 10, 100, 1000, 1000, 5000][below(7) as usize];
    cx.sign(src::hash_bytes(c.t.idx() as u64 ^ chunk << 20, &b));
    let d = decode_at(&w.m, c.t.idx(), &b, 0, work_limit(b.len()));
    if d.value == Err(DecErr::TooBig) {
        cx.count("skipped:zero-bit-elements");
        return Ok(());
    }
    if matches!(d.value, Err(DecErr::Eval(_))) {
        cx.count("skipped:expression-without-value");
        return Ok(());
    }
    simkit::cx::set_label(t);
    let big = w.biggest[c.t.idx()] as u64;
    let arrays = if w.recursive[c.t.idx()] { 2 + d.work } else { 4 };
    // (the states of a packed array take room for each field of the element)
    let budget = 16_384.max(200 * w.members[c.t.idx()] as u64) + 6 * b.len() as u64 + d.work * (3 * big + 160) + chunk * big * arrays;
    zserio::set_array_alloc_chunk(chunk as usize);
    cx.note(|| format!("load {} from {} with allocation chunk {}, budget {} bytes", t, hex(&b), chunk, budget));
    let (r, u) = call(STEPS, budget, || c.t.from_bytes(&b));
    default_chunk();
    src::observe(u.mem.peak);
    let p = u.mem.peak * 1000 / budget;
    cx.max("max-peak-permille-of-budget", p);
    cx.count(match r {
        Out::Ok(_) => "accepted",
        Out::Err(..) => "rejected",
        Out::Panic(_) => "panicked",
    });
    Ok(())
}

/// What a program does with one object over its life.
pub fn c09(cx: &mut Cx) -> R {
    let t = draw_type();
    let n = 2 + below(3);
    let mut vals: Vec<(Value, Vec<u8>)> = vec![];
    for _ in 0..n {
        if let Some(v) = draw_value(t, 4 + below(30), false) {
            if let Out::Ok(b) = enc(&*t.make(&v)) {
                // what is not decoded at the beginning is none of this property's business
                match dec(t, &b) {
                    Out::Ok(_) => vals.push((v, b)),
                    _ => cx.count("skipped:fresh-decode-fails"),
                }
            }
        }
    }
    if vals.is_empty() {
        cx.count("skipped");
        return Ok(());
    }
    if chance(1, 100) {
        // a long-lived process that keeps receiving what it cannot decode or encode
        let (v, b) = &vals[below(vals.len() as u64) as usize];
        if b.len() < 300 && !b.is_empty() {
            let times = [100, 300, 1100, 4200][below(4) as usize];
            let k = below(b.len() as u64) as usize;
            let encode = chance(1, 4);
            let bad = t.make(&spoil(v));
            cx.fault("failing-streak", times << 16 | k as u64);
            for _ in 0..times {
                if encode {
                    let _ = enc(&*bad);
                } else {
                    let _ = dec(t, &b[..k]);
                }
            }
        }
    }
    // what the application leaves in fields that are not selected
    let mut stale: HashMap<(usize, usize), Vec<Value>> = HashMap::new();
    for (v, _) in &vals {
        collect(v, &mut stale);
    }
    let mut o: Box<dyn Obj> = if chance(1, 2) { t.fresh() } else { t.make(&vals[0].0) };
    let steps = 2 + below(6);
    let name = t.name();
    // the value the object must hold, if its last operation succeeded
    for _ in 0..steps {
        let (v, b) = &vals[below(vals.len() as u64) as usize];
        match below(8) {
            0 => {
                let k = below(b.len() as u64 + 1) as usize;
                cx.fault("torn", k as u64);
                let r = call(STEPS, MEMORY, || o.read(&mut BitReader::new(&b[..k]))).0;
                cx.note(|| format!("read torn {} -> {}", hex(&b[..k]), r.show(|_| "".into())));
            }
            1 => {
                let mut d = b.clone();
                corrupt(cx, &mut d, b);
                if too_big(t.idx(), &d) {
                    continue;
                }
                let r = call(STEPS, MEMORY, || o.read(&mut BitReader::new(&d))).0;
                cx.note(|| format!("read damaged {} -> {}", hex(&d), r.show(|_| "".into())));
            }
            2 => {
                // a failing encode of the same object, then its real content again
                let keep = o.dup();
                o.set(&spoil(v));
                let r = enc(&*o);
                if !matches!(r, Out::Ok(_)) {
                    cx.fault("encode-failed", 0);
                }
                cx.note(|| format!("encode spoiled -> {}", r.show(|b| hex(b))));
                o = keep;
            }
            3 => {
                // repeated encodes
                let mut left = v.clone();
                let mut v = v;
                if chance(1, 2) && leave(&mut left, &stale) {
                    // an object and the parameters it is for hold the same
                    if let Value::Comp(c) = &mut left {
                        if simmodel::codec::refresh(&world().m, c).is_ok() {
                            cx.fault("stale-fields", 0);
                            v = &left;
                        }
                    }
                }
                o.set(v);
                let (x, y) = (enc(&*o), enc(&*o));
                cx.count("encoded-again");
                for r in [x, y] {
                    match r {
                        Out::Ok(x) if x == *b => {}
                        r => return fail(format!("encode-differs:{}", name), format!("{}: {} was encoded as {} first and then ended with {}", name, show(v), hex(b), r.show(|b| hex(b)))),
                    }
                }
            }
            4 => {
                // an encode that fails in the middle of a record stream
                let mut w = BitWriter::new();
                let bad = t.make(&spoil(v));
                let _ = call(STEPS, MEMORY, || bad.write(&mut w)).0;
                cx.count("failed-writes");
                o.set(v);
                match enc(&*o) {
                    Out::Ok(x) if x == *b => {}
                    r => return fail(format!("encode-differs:{}", name), format!("{}: {} was encoded as {} first and after a failed write ended with {}", name, show(v), hex(b), r.show(|b| hex(b)))),
                }
            }
            _ => {
                let fresh = match dec(t, b) {
                    Out::Ok(f) => f,
                    r => return fail(format!("refused-later:{}", name), format!("{}: {} was decoded at first; after the operations in between: {}", name, hex(b), r.show(|_| "".into()))),
                };
                let r = call(STEPS, MEMORY, || o.read(&mut BitReader::new(b))).0;
                cx.count("decoded-again");
                cx.nontrivial = true;
                cx.note(|| format!("read {} -> {}", hex(b), show(&o.value())));
                match r {
                    Out::Ok(()) => {}
                    r => return fail(format!("reuse-refused:{}", name), format!("{}: {} is decoded into a fresh object; into a used one: {}", name, hex(b), r.show(|_| "".into()))),
                }
                if norm(&o.value()) != norm(&fresh.value()) || o.value() != fresh.value() {
                    return fail(format!("leftovers:{}", name), format!("{}: {} decoded into a fresh object: {}; into a used one: {}", name, hex(b), show(&fresh.value()), show(&o.value())));
                }
                match enc(&*o) {
                    Out::Ok(x) if x == *b => {}
                    r => return fail(format!("encode-differs:{}", name), format!("{}: an object decoded from {} is encoded as {}", name, hex(b), r.show(|b| hex(b)))),
                }
            }
        }
    }
    Ok(())
}

/// The contents of all fields that are there in some objects only.
fn collect(v: &Value, m: &mut HashMap<(usize, usize), Vec<Value>>) {
    match v {
        Value::Comp(c) => {
            let k = &world().m.comps[c.ty];
            for (i, f) in c.fields.iter().enumerate() {
                if *f != Value::Absent && (k.kind != Kind::Struct || k.fields[i].cond.is_some()) {
                    let l = m.entry((c.ty, i)).or_default();
                    if l.len() < 4 {
                        l.push(f.clone());
                    }
                }
                collect(f, m);
            }
        }
        Value::Arr(l) => l.iter().take(50).for_each(|e| collect(e, m)),
        _ => {}
    }
}
/// Fills fields that are not there (alternatives that are not selected, conditions that do not hold).
fn leave(v: &mut Value, m: &HashMap<(usize, usize), Vec<Value>>) -> bool {
    let mut any = false;
    match v {
        Value::Comp(c) => {
            let (ty, k) = (c.ty, &world().m.comps[c.ty]);
            for (i, f) in c.fields.iter_mut().enumerate() {
                if *f == Value::Absent {
                    if k.kind == Kind::Struct && (k.fields[i].cond.is_none() || k.fields[i].optional) {
                        continue;
                    }
                    if let Some(l) = m.get(&(ty, i)) {
                        if chance(1, 2) {
                            *f = l[below(l.len() as u64) as usize].clone();
                            any = true;
                        }
                    }
                } else {
                    any |= leave(f, m);
                }
            }
        }
        Value::Arr(l) => l.iter_mut().take(50).for_each(|e| any |= leave(e, m)),
        _ => {}
    }
    any
}

/// A log of records behind each other in one bit stream.
pub fn c10(cx: &mut Cx) -> R {
    let lead = match below(80) {
        // what a long log already contains: positions beyond 16 bits, in bits and in bytes
        0 => 65_500 + below(100),
        1 => 524_250 + below(100),
        2..=40 => below(8),
        _ => below(70),
    };
    let mut w = BitWriter::new();
    for k in 0..lead.div_ceil(64) {
        w.write_u64(0, (lead - 64 * k).min(64) as u8).expect("bits");
    }
    let n = 1 + below(5);
    let one = chance(1, 3).then(draw_type);
    // (type, value, first bit, bit behind)
    let mut recs: Vec<(&'static dyn TypeOps, Value, u64, u64)> = vec![];
    for _ in 0..n {
        let t = one.unwrap_or_else(draw_type);
        let Some(mut v) = draw_value(t, 4 + below(20), false) else { continue };
        let at = w.bit_count();
        for _ in 0..3 {
            if simmodel::codec::fix_offsets_at(&world().m, &mut v, at).is_err() {
                break;
            }
        }
        if simmodel::codec::encode_at(&world().m, &v, at).is_err() {
            continue;
        }
        let o = t.make(&v);
        match call(STEPS, MEMORY, || o.write(&mut w)).0 {
            Out::Ok(()) => {}
            r => return fail(format!("write-refused:{}", t.name()), format!("{}: writing {} at bit {} ended with {}", t.name(), show(&v), at, r.show(|_| "".into()))),
        }
        cx.note(|| format!("write {} {} at bit {}..{}", t.name(), show(&v), at, w.bit_count()));
        recs.push((t, v, at, w.bit_count()));
        if chance(1, 5) {
            let k = 1 + below(3);
            for _ in 0..k {
                w.write_bool(true).expect("bit");
            }
        }
    }
    if w.close().is_err() {
        return fail("close", "closing the bit writer failed");
    }
    let mut data = w.data().clone();
    let full = data.len() as u64;
    let mut cut = full;
    match below(3) {
        0 => {
            let k = below(9);
            for _ in 0..k {
                data.push(below(256) as u8);
            }
            cx.fault("garbage-behind", k);
            cut = data.len() as u64;
        }
        1 => {
            cut = below(full + 1);
            data.truncate(cut as usize);
            cx.fault("torn", cut);
        }
        _ => cx.count("intact"),
    }
    cx.sign(src::hash_bytes(lead, &data));
    // one reader over everything, reused objects
    let mut r = BitReader::new(&data);
    let reuse = chance(1, 2);
    let mut pool: Vec<(usize, Box<dyn Obj>)> = vec![];
    for (t, v, at, end) in &recs {
        if *end > cut * 8 {
            // the torn record
            if r.position() < *at && (*at - r.position() > r.remaining() || r.skip(*at - r.position()).is_err()) {
                cx.count("torn-before-record");
                return Ok(());
            }
            let mut o = t.fresh();
            let got = call(STEPS, MEMORY, || o.read(&mut r)).0;
            cx.count("torn-record-read");
            match got {
                Out::Err(..) => {}
                Out::Ok(()) => return fail(format!("torn-record:{}", t.name()), format!("{}: the record in bits {}..{} of a log cut at {} bits was read as {}", t.name(), at, end, cut * 8, show(&o.value()))),
                Out::Panic(p) => return fail(format!("panic:{}", p.at), format!("{}: reading the torn record at bit {} panicked at {}: {}", t.name(), at, p.at, p.msg)),
            }
            return Ok(());
        }
        if r.position() < *at {
            let gap = *at - r.position();
            r.skip(gap).expect("skip");
        }
        let i = match pool.iter().position(|p| p.0 == t.idx()) {
            Some(i) if reuse => i,
            _ => {
                pool.push((t.idx(), t.fresh()));
                pool.len() - 1
            }
        };
        let o = &mut pool[i].1;
        let got = call(STEPS, MEMORY, || o.read(&mut r)).0;
        cx.count("records-read");
        match got {
            Out::Ok(()) => {}
            g => return fail(format!("record-refused:{}", t.name()), format!("{}: the record {} in bits {}..{} ({} bits present) was read as {}", t.name(), show(v), at, end, cut * 8, g.show(|_| "".into()))),
        }
        if norm(&o.value()).as_ref() != Some(v) {
            return fail(format!("record-differs:{}", t.name()), format!("{}: written at bit {}: {}; read: {}", t.name(), at, show(v), show(&o.value())));
        }
        if r.position() != *end {
            return fail(format!("record-length:{}", t.name()), format!("{}: written to bits {}..{}, read up to bit {}", t.name(), at, end, r.position()));
        }
    }
    Ok(())
}

//! C01: sinks; C02: sources.
use crate::world::*;
use simkit::simio::{Plan, Stream};
use simkit::{below, chance, cx::fail, src, Cx, R};
use simmodel::value::Value;

/// C01: writing objects to sinks that write short, are interrupted and fail, with retries.
pub fn c01(cx: &mut Cx) -> R {
    let nobj = 1 + below(3);
    let mut cases = vec![];
    for _ in 0..nobj {
        if let Some(c) = small_or_any() {
            cases.push(c);
        }
    }
    if cases.is_empty() {
        cx.count("skipped");
        return Ok(());
    }
    let ops = 1 + below(5);
    for op in 0..ops {
        let c = &cases[below(cases.len() as u64) as usize];
        let spoiled = chance(1, 6);
        let mut v: Value = c.v.clone();
        let mut o = c.t.make(&v);
        let mut want = enc(&*o);
        if spoiled {
            for _ in 0..5 {
                v = spoil(&c.v);
                o = c.t.make(&v);
                want = enc(&*o);
                if !matches!(want, Out::Ok(_)) {
                    break;
                }
            }
        }
        let len = if let Out::Ok(b) = &want { b.len() as u64 } else { 16 };
        let plan = Plan::draw(len, true);
        let mut s = Stream::sink(plan.clone(), op);
        let got = call(STEPS, MEMORY, || o.to_writer(&mut s)).0;
        s.report(cx, "sink");
        src::observe(src::hash_bytes(s.data.len() as u64, &s.data));
        cx.note(|| format!("write {} {} to a sink with {:?}: {} after {} bytes {:?}", c.t.name(), show(&v), plan, got.show(|_| "".into()), s.data.len(), s.log.iter().take(8).collect::<Vec<_>>()));
        let t = c.t.name();
        match &want {
            Out::Ok(b) => {
                cx.count("objects-written");
                match (&got, &s.failed) {
                    (Out::Panic(p), _) => return fail("panic", format!("{}: to_writer panicked at {}: {}", t, p.at, p.msg)),
                    (Out::Ok(()), None) => {
                        cx.count("acknowledged");
                        if s.data != *b {
                            return fail("acknowledged-wrong-bytes", format!("{}: success reported, but the sink accepted {} and not {}", t, hex(&s.data), hex(b)));
                        }
                    }
                    (Out::Ok(()), Some(f)) => {
                        // the sink may have failed only after everything was delivered and acknowledged
                        return fail("failure-hidden", format!("{}: success reported although the sink failed with {:?} after {} of {} bytes", t, f.0, s.data.len(), b.len()));
                    }
                    (Out::Err(e, _), None) => return fail("spurious-error", format!("{}: {} reported by to_writer although the sink did not fail ({} of {} bytes accepted)", t, e, s.data.len(), b.len())),
                    (Out::Err(e, k), Some((kind, _))) => {
                        cx.count("failures-reported");
                        if *k != Some(*kind) {
                            return fail("wrong-error", format!("{}: the sink failed with {:?}, reported was {} ({:?})", t, kind, e, k));
                        }
                        if !b.starts_with(&s.data) {
                            return fail("not-a-prefix", format!("{}: the failed sink accepted {}, no prefix of {}", t, hex(&s.data), hex(b)));
                        }
                    }
                }
            }
            w => {
                cx.count("unserialisable");
                cx.nontrivial = true;
                if let Out::Ok(()) = got {
                    return fail("unserialisable-acknowledged", format!("{}: to_bytes ends with {}, to_writer reports success", t, w.show(|b| hex(b))));
                }
                if !s.data.is_empty() {
                    return fail("sink-touched", format!("{}: cannot be serialised ({}), but the sink received {}", t, w.show(|b| hex(b)), hex(&s.data)));
                }
            }
        }
        // retry on a healthy sink
        let o = c.t.make(&c.v);
        let want = enc(&*o);
        if let Out::Ok(b) = want {
            let mut s = Stream::sink(Plan::draw(b.len() as u64, false), op);
            let got = call(STEPS, MEMORY, || o.to_writer(&mut s)).0;
            s.report(cx, "retry");
            cx.count("retries");
            match got {
                Out::Ok(()) if s.data == b => {}
                Out::Ok(()) => return fail("retry-wrong-bytes", format!("{}: the retry delivered {} and not {}", t, hex(&s.data), hex(&b))),
                g => return fail("retry-failed", format!("{}: the retry on a healthy sink ended with {}", t, g.show(|_| "".into()))),
            }
        }
    }
    Ok(())
}
fn small_or_any() -> Option<Case> {
    if chance(1, 3) {
        draw_case()
    } else {
        small_case()
    }
}

/// C02: reading objects from sources that read short, are interrupted and fail.
pub fn c02(cx: &mut Cx) -> R {
    let Some(c) = small_or_any() else {
        cx.count("skipped");
        return Ok(());
    };
    let Some((_, mut data)) = stored(cx, &c) else { return Ok(()) };
    let t = c.t;
    match below(4) {
        0 | 1 => cx.count("intact"),
        2 => {
            let k = below(data.len() as u64 + 1);
            data.truncate(k as usize);
            cx.count("truncated");
        }
        _ => {
            let o = data.clone();
            corrupt(cx, &mut data, &o);
            if too_big(t.idx(), &data) {
                cx.count("skipped:too-big");
                return Ok(());
            }
        }
    }
    let whole = dec(t, &data);
    let whole = (whole.show(|_| "object".into()), whole.ok().map(|o| o.value()));
    let n = 1 + below(3);
    for k in 0..n {
        let plan = Plan::draw(data.len() as u64, true);
        let (got, failed, what) = if chance(1, 3) {
            crate::files::read_file(cx, t, &data, &plan)
        } else {
            let mut s = Stream::source(data.clone(), plan.clone(), k);
            let got = call(STEPS, MEMORY, || t.from_reader(&mut s)).0;
            s.report(cx, "source");
            (got, s.failed.as_ref().map(|f| format!("{:?} after {} of {} bytes", f.0, s.pos, data.len())), "from_reader")
        };
        src::observe(failed.is_some() as u64);
        cx.note(|| format!("{} {} of {} bytes {}: {} with {:?}", what, t.name(), data.len(), hex(&data), got.show(|_| "object".into()), plan));
        cx.count("reads");
        if let Some(f) = failed {
            cx.count("failed-sources");
            match got {
                Out::Err(..) => {}
                Out::Ok(o) => return fail("error-swallowed", format!("{}: the source failed with {}, but {} returned an object {}", t.name(), f, what, show(&o.value()))),
                Out::Panic(p) => return fail("panic", format!("{}: {} panicked at {}: {} (the source failed with {})", t.name(), what, p.at, p.msg, f)),
            }
            continue;
        }
        let shown = got.show(|_| "object".into());
        let v = got.ok().map(|o| o.value());
        if shown != whole.0 {
            return fail("different-outcome", format!("{}: from_bytes: {}; {}: {} ({} bytes {})", t.name(), whole.0, what, shown, data.len(), hex(&data)));
        }
        if v != whole.1 {
            return fail("different-value", format!("{}: from_bytes: {}; {}: {}", t.name(), show(&whole.1.unwrap()), what, show(&v.unwrap())));
        }
    }
    Ok(())
}
/// Does the reference decoder need more items than proportionate to the data (elements of zero bits)?
/// Also true where it cannot tell because an expression has no value.
pub fn too_big(idx: usize, b: &[u8]) -> bool {
    let lim = 20_000 + 16 * b.len() as u64;
    matches!(simmodel::codec::decode_at(&world().m, idx, b, 0, lim).value, Err(simmodel::codec::DecErr::TooBig | simmodel::codec::DecErr::Eval(_)))
}

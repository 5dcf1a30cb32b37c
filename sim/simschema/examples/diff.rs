// development aid: generated objects against the reference model, and a dump for the Python reference
use simmodel::{codec::*, gen::*, value::*};
use std::fmt::Write as _;
struct Rng(u64);
impl Draw for Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16) % n
    }
}
fn json(m: &simmodel::model::Model, v: &Value, o: &mut String) {
    match v {
        Value::Absent => o.push_str("null"),
        Value::Bool(b) => write!(o, "{}", b).unwrap(),
        Value::Int(b) => write!(o, "{}", b).unwrap(),
        Value::F32(b) => write!(o, "\"f{:?}\"", f32::from_bits(*b) as f64).unwrap(),
        Value::F64(b) => write!(o, "\"f{:?}\"", f64::from_bits(*b)).unwrap(),
        Value::Str(s) => {
            o.push('"');
            for c in s.chars() {
                if c == '"' || c == '\\' || (c as u32) < 32 { write!(o, "\\u{:04x}", c as u32).unwrap() } else { o.push(c) }
            }
            o.push('"');
        }
        Value::Bytes(b) => write!(o, "\"x{}\"", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()).unwrap(),
        Value::Ext(n, b) => write!(o, "\"e{}:{}\"", n, b.iter().map(|x| format!("{:02x}", x)).collect::<String>()).unwrap(),
        Value::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { o.push(',') } json(m, x, o) }
            o.push(']');
        }
        Value::Comp(c) => {
            o.push('{');
            let mut first = true;
            for (i, f) in m.comps[c.ty].fields.iter().enumerate() {
                if c.fields[i] == Value::Absent && m.comps[c.ty].kind != simmodel::model::Kind::Struct { continue; }
                if !first { o.push(',') }
                first = false;
                write!(o, "\"{}\":", f.name).unwrap();
                json(m, &c.fields[i], o);
            }
            o.push('}');
        }
    }
}
fn main() {
    let n: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let only = std::env::args().nth(2).unwrap_or_default();
    let dump = std::env::args().nth(3);
    let mut out = String::new();
    let pk: Vec<_> = simschema::gen::CORPUS.iter().map(|(f, t)| simmodel::ast::parse(t).unwrap_or_else(|e| panic!("{} {}", f, e))).collect();
    let m = simmodel::model::build(&pk).unwrap();
    std::panic::set_hook(Box::new(|i| eprintln!("{}", i)));
    for t in simschema::gen::types() {
        if !t.name().contains(&only) { continue; }
        let (mut enc, mut ok, mut dec, mut pan, mut re, mut bs, mut none) = (0, 0, 0, 0, 0, 0, 0);
        let mut ex = String::new();
        for i in 0..n {
            let mut r = Rng(0x9E3779B97F4A7C15u64.wrapping_mul(i * 1000 + t.idx() as u64 + 1));
            r.below(2); r.below(2);
            let Some(v) = Gen::new(&m, &mut r, if dump.is_some() { 120 } else { 300 }, i % 40 == 0).top(t.idx()) else { none += 1; continue };
            let Ok(b) = encode(&m, &v) else { none += 1; continue };
            let (dv, bits) = decode(&m, t.idx(), &b, 1 << 20);
            if dv == Err(simmodel::codec::DecErr::TooBig) { none += 1; continue }
            assert_eq!(dv.as_ref().unwrap(), &v, "{}", t.name());
            assert!(bits.div_ceil(8) == b.len() as u64);
            if dump.is_some() {
                let mut j = String::new();
                json(&m, &v, &mut j);
                writeln!(out, "{{\"t\":\"{}\",\"b\":\"{}\",\"v\":{}}}", t.name(), b.iter().map(|x| format!("{:02x}", x)).collect::<String>(), j).unwrap();
            }
            let o = t.make(&v);
            if normalize(&m, &o.value()).unwrap() != v { let (x, y) = (format!("{:?}", v), format!("{:?}", normalize(&m, &o.value()).unwrap())); let k = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count(); println!("{} glue mismatch {}\n  {}", t.name(), &x[k.saturating_sub(300)..(k + 300).min(x.len())], &y[k.saturating_sub(30)..(k + 300).min(y.len())]); std::process::exit(1) }
            let mut note = |k: &str, s: String| if !ex.contains(k) { write!(ex, "\n   {}: {} {}", k, v.show().chars().take(700).collect::<String>(), s).unwrap() };
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.to_bytes())) {
                Err(p) => { pan += 1; note("wpanic", format!("{:?}", p.downcast_ref::<String>())) }
                Ok(Err(e)) => { enc += 1; note("werr", format!("{}", e)) }
                Ok(Ok(x)) => {
                    if x != b && { let (dv, n) = decode(&m, t.idx(), &x, 1 << 20); dv.ok().as_ref() != Some(&v) || n.div_ceil(8) != x.len() as u64 } { enc += 1; note("bytes", format!("\n     {:02x?}\n     {:02x?}", &x[..x.len().min(40)], &b[..b.len().min(40)])) }
                }
            }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.bitsize(0))) {
                Ok(Ok(x)) if x == bits => {}
                _ => { bs += 1 }
            }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.from_bytes(&b))) {
                Err(p) => { pan += 1; note("rpanic", format!("{:?}", p.downcast_ref::<String>())) }
                Ok(Err(e)) => { dec += 1; note("rerr", format!("{}", e)) }
                Ok(Ok(x)) => {
                    if normalize(&m, &x.value()).ok().as_ref() != Some(&v) { dec += 1; note("value", x.value().show()) }
                    else if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.to_bytes().ok() == Some(b.clone()))).ok() != Some(true) { re += 1; note("reenc", format!("{} {:02x?} {:02x?}", x.value().show(), std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.to_bytes().map_err(|e| e.to_string()))).ok(), b)) }
                    else { ok += 1 }
                }
            }
        }
        println!("{:40} ok {} bytes {} dec {} reenc {} panic {} bitsize {} none {}{}", t.name(), ok, enc, dec, re, pan, bs, none, if only.is_empty() { "" } else { &ex });
    }
    if let Some(d) = dump { std::fs::write(d, out).unwrap() }
}

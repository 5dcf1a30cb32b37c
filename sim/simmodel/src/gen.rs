//! Seeded generation of schema values. Every decision is one draw, 0 being the simplest,
//! so that a recorded sequence of draws can be shrunk.
use crate::ast::*;
use crate::codec::*;
use crate::eval::Frame;
use crate::model::*;
use crate::value::*;

pub trait Draw {
    /// a number below n (n >= 1)
    fn below(&mut self, n: u64) -> u64;
    fn chance(&mut self, num: u64, den: u64) -> bool {
        // 0 means "no"
        let v = self.below(den);
        v >= den - num
    }
    fn u64(&mut self) -> u64 {
        (self.below(1 << 32) << 32) | self.below(1 << 32)
    }
    fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
}

pub struct Gen<'a> {
    pub m: &'a Model,
    pub d: &'a mut dyn Draw,
    /// remaining number of array elements
    pub budget: u64,
    /// allow one big array or string
    pub big: bool,
    depth: u32,
    /// an expression referred to an absent field, a choice has no case, or a parameter no room: no legal value
    dead: bool,
}

impl<'a> Gen<'a> {
    pub fn new(m: &'a Model, d: &'a mut dyn Draw, budget: u64, big: bool) -> Self {
        Gen { m, d, budget, big, depth: 0, dead: false }
    }
    /// a value of a top-level compound with correct offsets; None if an offset does not fit
    pub fn top(&mut self, idx: usize) -> Option<Value> {
        let mut v = self.comp(idx, vec![], None);
        if self.dead {
            return None;
        }
        for _ in 0..3 {
            fix_offsets(self.m, &mut v).ok()?;
        }
        // an offset that does not fit its field is not a legal value
        encode(self.m, &v).ok()?;
        Some(v)
    }
    fn must<T>(&mut self, r: Result<T, String>, otherwise: T, what: &str) -> T {
        r.unwrap_or_else(|e| {
            if !self.dead && !e.contains("absent") && !e.contains("no matching choice") && !e.contains("no room") {
                panic!("{}: {}", what, e)
            }
            self.dead = true;
            otherwise
        })
    }
    pub fn int_in(&mut self, lo: i128, hi: i128, prev: Option<i128>) -> i128 {
        let clamp = |x: i128| x.max(lo).min(hi);
        let span = (hi - lo) as u128;
        match self.d.below(if prev.is_some() { 8 } else { 5 }) {
            0 => clamp(self.d.below(4) as i128),
            1 => clamp(self.d.below(200) as i128 - 60),
            2 => {
                let b = [lo, hi, lo + 1, hi - 1, -1, 0, 1];
                clamp(b[self.d.below(7) as usize])
            }
            3 => {
                let k = self.d.below(65) as u32;
                let x = (1i128 << k) - 1 + self.d.below(3) as i128;
                clamp(if self.d.below(2) == 1 { -x } else { x })
            }
            4 => {
                if span >= u64::MAX as u128 {
                    lo + self.d.u64() as i128
                } else {
                    lo + (self.d.u64() as u128 % (span + 1)) as i128
                }
            }
            5 => clamp(prev.unwrap()),
            6 => clamp(prev.unwrap() + self.d.below(7) as i128 - 3),
            _ => {
                let k = self.d.below(64) as u32;
                clamp(prev.unwrap() + (self.d.u64() >> k) as i64 as i128)
            }
        }
    }
    fn bounds(&self, f: &Frame, ty: &Ty) -> (i128, i128) {
        match ty {
            Ty::UInt(n) => (0, (1i128 << n) - 1),
            Ty::SInt(n) => (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1),
            Ty::DynU(e) => (0, (1i128 << dyn_bits(f, e).unwrap_or(1)) - 1),
            Ty::DynS(e) => {
                let n = dyn_bits(f, e).unwrap_or(1).max(1);
                (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1)
            }
            Ty::Var(v) => (var_min(*v), var_max(*v)),
            _ => (0, 1),
        }
    }
    fn string(&mut self, max: Option<(i128, i128)>) -> String {
        let n = match max {
            Some((lo, hi)) => self.d.range(lo as u64, hi as u64),
            None => match self.d.below(8) {
                0..=5 => self.d.below(9),
                6 => self.d.below(150),
                _ if self.big => {
                    self.big = false;
                    let n = self.big_len(&[127, 128, 16383, 16384], &[(1 << 21) - 1, 1 << 21]);
                    if n > 400 {
                        return self.long_string(n as usize);
                    }
                    n
                }
                _ => 0,
            },
        };
        let mut s = String::new();
        let pool = [
            'a', 'b', 'z', '0', ' ', '\u{0}', '\u{7f}', 'é', 'ß', '日', '本', '😀', '\u{10ffff}', '\n', '"', '\u{80}', '\u{feff}', '\r', '\t', '\\', '\u{fffd}', '\u{301}', '\u{e000}', '\u{d7ff}',
        ];
        let wide = self.d.below(3) == 2;
        for _ in 0..n {
            let k = self.d.below(if wide { pool.len() as u64 } else { 5 });
            s.push(pool[k as usize]);
        }
        s
    }
    /// A large length, often one at which its encoding becomes longer.
    fn big_len(&mut self, edges: &[u64], far: &[u64]) -> u64 {
        match self.d.below(8) {
            0..=3 => self.d.below(20000),
            4..=6 => edges[self.d.below(edges.len() as u64) as usize],
            _ => match self.d.below(12) {
                11 => far[self.d.below(far.len() as u64) as usize],
                _ => 1 + self.d.below(2500),
            },
        }
    }
    /// A string of so many bytes.
    fn long_string(&mut self, n: usize) -> String {
        let pat = ["a", "zb0 ", "é", "日本", "x😀"][self.d.below(5) as usize];
        let mut s = pat.repeat(n / pat.len());
        while s.len() < n {
            s.push((b'A' + self.d.below(26) as u8) as char);
        }
        s
    }
    fn blob(&mut self, n: usize) -> Vec<u8> {
        let k = self.d.below(3);
        let x = self.d.below(256) as u8;
        (0..n)
            .map(|i| match k {
                0 => x,
                1 => x.wrapping_add(i as u8),
                _ => x.wrapping_mul(31).wrapping_add((i * i * 7) as u8),
            })
            .collect()
    }
    fn blob_len(&mut self, bits: bool) -> u64 {
        match self.d.below(6) {
            0..=3 => self.d.below(6),
            4 => self.d.below(300),
            _ if self.big => {
                self.big = false;
                if bits {
                    self.big_len(&[15, 16, 2047, 2048], &[(1 << 18) - 1, 1 << 18])
                } else {
                    self.big_len(&[127, 128, 16383, 16384], &[(1 << 21) - 1, 1 << 21])
                }
            }
            _ => 1,
        }
    }
    pub fn value(&mut self, f: &Frame, ty: &Ty, ann: Option<&Field>, prev: Option<&Value>) -> Value {
        let ip = prev.and_then(|p| if let Value::Int(i) = p { Some(*i) } else { None });
        match ty {
            Ty::Bool => Value::Bool(self.d.below(2) == 1),
            Ty::Enum(i) => {
                let it = &self.m.enums[*i].items;
                Value::Int(it[self.d.below(it.len() as u64) as usize].1)
            }
            Ty::Mask(i) => {
                let it = &self.m.masks[*i].items;
                let mut v = 0;
                for x in it {
                    if self.d.below(2) == 1 {
                        v |= x.1;
                    }
                }
                Value::Int(v)
            }
            Ty::F16 => {
                let h = match self.d.below(4) {
                    0 => self.d.below(4) as u16 * 0x3c0,
                    1 => [0x8000u16, 0x3c00, 0x7bff, 0xfbff, 0x0001, 0x03ff, 0x0400, 0x7c00, 0xfc00, 0x7e00][self.d.below(10) as usize],
                    _ => {
                        let h = self.d.below(65536) as u16;
                        if h & 0x7c00 == 0x7c00 && h & 0x3ff != 0 {
                            0x7e00
                        } else {
                            h
                        }
                    }
                };
                let mut x = f16_to_f32(h);
                if f32::from_bits(x).is_nan() {
                    x = 0x7fc0_0000;
                }
                Value::F32(x)
            }
            Ty::F32 => Value::F32(match self.d.below(3) {
                0 => (self.d.below(20) as f32).to_bits(),
                1 => [0x8000_0000u32, 0x7f7f_ffff, 0x0000_0001, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x3eaa_aaab, 0x3dcc_cccd][self.d.below(8) as usize],
                _ => self.d.below(1 << 32) as u32 | 0x0040_0000,
            }),
            Ty::F64 => Value::F64(match self.d.below(3) {
                0 => (self.d.below(20) as f64).to_bits(),
                1 => [1u64 << 63, f64::MAX.to_bits(), 1, f64::INFINITY.to_bits(), f64::NAN.to_bits(), 0x3fd5_5555_5555_5555, 0x3fb9_9999_9999_999a, 0x3fb9_9999_a000_0000][self.d.below(8) as usize],
                _ => self.d.u64() | (1 << 51),
            }),
            Ty::Str => {
                let r = ann.and_then(|a| a.ann.get("len")).map(|v| (v[0], v[1]));
                Value::Str(self.string(r))
            }
            Ty::Bytes => {
                let n = self.blob_len(false) as usize;
                Value::Bytes(self.blob(n))
            }
            Ty::Extern => {
                let n = self.blob_len(true) as u32 * 8 + self.d.below(8) as u32;
                let mut b = self.blob(n.div_ceil(8) as usize);
                if n % 8 != 0 {
                    let l = b.len() - 1;
                    b[l] &= 0xffu8 << (8 - n % 8);
                }
                Value::Ext(n, b)
            }
            Ty::Comp(i, args) => {
                let params = args.iter().enumerate().map(|(k, a)| self.must(f.eval_arg(*i, k, a), Value::Absent, &f.comp.name)).collect();
                if self.dead {
                    return Value::Absent;
                }
                self.comp(*i, params, prev)
            }
            t => {
                let (mut lo, mut hi) = self.bounds(f, t);
                if let Some(r) = ann.and_then(|a| a.ann.get("range")) {
                    lo = lo.max(r[0]);
                    hi = hi.min(r[1]);
                    if hi - lo < 1000 {
                        return Value::Int(lo + self.d.below((hi - lo + 1) as u64) as i128);
                    }
                }
                Value::Int(self.int_in(lo, hi, ip))
            }
        }
    }
    fn array_len(&mut self, fd: &Field) -> u64 {
        if let Some(r) = fd.ann.get("len") {
            return self.d.range(r[0] as u64, r[1] as u64);
        }
        let n = match self.d.below(10) {
            0..=6 => self.d.below(5),
            7 => self.d.below(20),
            8 => self.d.below(140),
            _ if self.big => {
                self.big = false;
                let small = match fd.ty {
                    Ty::UInt(n) | Ty::SInt(n) => n <= 8,
                    Ty::Bool => true,
                    _ => false,
                };
                let n = match self.d.below(if small { 4 } else { 2 }) {
                    0 | 1 => 900 + self.d.below(1400),
                    2 => 127 + self.d.below(3),
                    _ if self.d.below(20) > 0 => 16382 + self.d.below(4),
                    _ => 65534 + self.d.below(4),
                };
                self.budget += n;
                n
            }
            _ => 2,
        };
        n.min(self.budget)
    }
    pub fn comp(&mut self, idx: usize, params: Vec<Value>, prev: Option<&Value>) -> Value {
        self.depth += 1;
        let m = self.m;
        let comp = &m.comps[idx];
        let mut c = CompVal { ty: idx, params, fields: vec![Value::Absent; comp.fields.len()], sel: None };
        let pf = |i: usize| match prev {
            Some(Value::Comp(p)) => Some(&p.fields[i]),
            _ => None,
        };
        match comp.kind {
            Kind::Struct => {
                for i in 0..comp.fields.len() {
                    let v = self.field(&c, i, pf(i));
                    c.fields[i] = v;
                }
            }
            Kind::Union => {
                let s = self.d.below(comp.fields.len() as u64) as usize;
                c.sel = Some(s as u32);
                let v = self.field(&c, s, pf(s));
                c.fields[s] = v;
            }
            Kind::Choice => {
                let a = self.must(Frame::of(m, &c).choice_active(), None, &comp.name);
                if let Some(i) = a {
                    let v = self.field(&c, i, pf(i));
                    c.fields[i] = v;
                }
            }
        }
        self.depth -= 1;
        Value::Comp(Box::new(c))
    }
    fn field(&mut self, c: &CompVal, i: usize, prev: Option<&Value>) -> Value {
        let m = self.m;
        let f = Frame::of(m, c);
        let fd = &f.comp.fields[i];
        if let Some(e) = &fd.cond {
            if !self.must(f.eval_bool(e), false, &fd.name) {
                return Value::Absent;
            }
        }
        if fd.optional && (self.depth > 6 || self.d.below(2) == 0) {
            return Value::Absent;
        }
        match &fd.array {
            None => self.value(&f, &fd.ty, Some(fd), prev),
            Some(len) => {
                let n = match len {
                    ArrLen::Auto => self.array_len(fd),
                    ArrLen::Expr(e) => self.must(f.eval_int(e), 0, &fd.name) as u64,
                };
                self.budget = self.budget.saturating_sub(n);
                let n = if self.depth > 8 && *len == ArrLen::Auto { 0 } else { n };
                let mut out: Vec<Value> = vec![];
                let mode = self.d.below(4);
                for k in 0..n as usize {
                    let fi = Frame { index: Some(k), ..Frame::of(m, c) };
                    let p = if mode > 0 { out.last() } else { None };
                    let v = match p {
                        Some(Value::Str(p)) if p.len() > 9000 => self.value(&fi, &fd.ty, Some(fd), None),
                        Some(Value::Bytes(p) | Value::Ext(_, p)) if p.len() > 9000 => self.value(&fi, &fd.ty, Some(fd), None),
                        Some(p) if mode == 1 && !matches!(fd.ty, Ty::Comp(..)) => p.clone(),
                        Some(Value::Int(p)) if mode == 2 && fd.ty != Ty::Bool && !matches!(fd.ty, Ty::Enum(_) | Ty::Mask(_)) => {
                            let (mut lo, mut hi) = self.bounds(&fi, &fd.ty);
                            if let Some(r) = fd.ann.get("range") {
                                lo = lo.max(r[0]);
                                hi = hi.min(r[1]);
                            }
                            let x = p + self.d.below(9) as i128 - 3;
                            Value::Int(x.max(lo).min(hi))
                        }
                        p => {
                            let p = p.cloned();
                            self.value(&fi, &fd.ty, Some(fd), p.as_ref())
                        }
                    };
                    out.push(v);
                }
                Value::Arr(out)
            }
        }
    }
}

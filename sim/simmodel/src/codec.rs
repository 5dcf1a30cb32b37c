//! Bit-exact reference codec.
use crate::ast::*;
use crate::eval::Frame;
use crate::model::*;
use crate::value::*;
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct BitW {
    pub b: Vec<u8>,
    pub n: u64,
}
impl BitW {
    pub fn bit(&mut self, v: bool) {
        if self.n % 8 == 0 {
            self.b.push(0);
        }
        if v {
            *self.b.last_mut().unwrap() |= 0x80 >> (self.n % 8);
        }
        self.n += 1;
    }
    pub fn bits(&mut self, v: u64, n: u32) {
        let mut k = n;
        while k > 0 {
            if self.n % 8 == 0 && k >= 8 {
                k -= 8;
                self.b.push((v >> k) as u8);
                self.n += 8;
                continue;
            }
            k -= 1;
            self.bit((v >> k) & 1 == 1);
        }
    }
    pub fn align(&mut self, a: u32) {
        while a > 0 && self.n % a as u64 != 0 {
            self.bit(false);
        }
    }
    pub fn bytes(&mut self, v: &[u8]) {
        if self.n % 8 == 0 {
            self.b.extend_from_slice(v);
            self.n += 8 * v.len() as u64;
        } else {
            for x in v {
                self.bits(*x as u64, 8);
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum DecErr {
    /// an expression has no value
    Eval(String),
    Eof,
    Bad(String),
    /// more elements or work than the limit given
    TooBig,
}

pub struct BitR<'a> {
    pub b: &'a [u8],
    pub n: u64,
    /// remaining budget of decoded items
    pub work: u64,
}
impl<'a> BitR<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        BitR { b, n: 0, work: 2_000_000 }
    }
    pub fn left(&self) -> u64 {
        (self.b.len() as u64 * 8).saturating_sub(self.n)
    }
    pub fn bits(&mut self, n: u32) -> Result<u64, DecErr> {
        if n > 64 {
            return Err(DecErr::Bad("bit count".into()));
        }
        if self.left() < n as u64 {
            return Err(DecErr::Eof);
        }
        let mut v = 0u64;
        let mut k = n;
        while k > 0 {
            if self.n % 8 == 0 && k >= 8 {
                v = (v << 8) | self.b[(self.n / 8) as usize] as u64;
                self.n += 8;
                k -= 8;
                continue;
            }
            v = (v << 1) | ((self.b[(self.n / 8) as usize] >> (7 - self.n % 8)) & 1) as u64;
            self.n += 1;
            k -= 1;
        }
        Ok(v)
    }
    fn align(&mut self, a: u32) -> Result<(), DecErr> {
        if a > 0 {
            let r = self.n % a as u64;
            if r != 0 {
                let skip = a as u64 - r;
                if self.left() < skip {
                    return Err(DecErr::Eof);
                }
                self.n += skip;
            }
        }
        Ok(())
    }
    fn tick(&mut self) -> Result<(), DecErr> {
        if self.work == 0 {
            return Err(DecErr::TooBig);
        }
        self.work -= 1;
        Ok(())
    }
}

pub fn sext(v: u64, n: u32) -> i64 {
    if n == 0 {
        return 0;
    }
    ((v << (64 - n)) as i64) >> (64 - n)
}

/// (max bytes, payload bits of the first byte, signed)
fn var_shape(v: Var) -> (u32, u32, bool) {
    match v {
        Var::I16 => (2, 6, true),
        Var::I32 => (4, 6, true),
        Var::I64 => (8, 6, true),
        Var::I => (9, 6, true),
        Var::U16 => (2, 7, false),
        Var::U32 => (4, 7, false),
        Var::U64 => (8, 7, false),
        Var::U => (9, 7, false),
        Var::Size => (5, 7, false),
    }
}
pub fn var_max(v: Var) -> i128 {
    match v {
        Var::I => i64::MAX as i128,
        Var::U => u64::MAX as i128,
        Var::Size => (1 << 31) - 1,
        _ => {
            let (m, f, _) = var_shape(v);
            (1i128 << (f + 7 * (m - 2) + 8)) - 1
        }
    }
}
pub fn var_min(v: Var) -> i128 {
    match v {
        Var::I => i64::MIN as i128,
        _ if var_shape(v).2 => -var_max(v),
        _ => 0,
    }
}
fn var_bytes(v: Var, x: i128) -> u32 {
    let (m, f, s) = var_shape(v);
    if s && x == i64::MIN as i128 {
        return 1;
    }
    let a = x.unsigned_abs();
    for n in 1..m {
        if a < (1u128 << (f + 7 * (n - 1))) {
            return n;
        }
    }
    m
}
fn var_write(v: Var, x: i128, w: &mut BitW) -> Result<(), String> {
    if x < var_min(v) || x > var_max(v) {
        return Err(format!("{} out of range for {:?}", x, v));
    }
    let (m, f, s) = var_shape(v);
    if s && x == i64::MIN as i128 {
        w.bits(0x80, 8);
        return Ok(());
    }
    let a = x.unsigned_abs();
    let n = var_bytes(v, x);
    let mut left = if n == m { f + 7 * (m - 2) + 8 } else { f + 7 * (n - 1) };
    for i in 0..n {
        if i == 0 && s {
            w.bit(x < 0);
        }
        let last_full = n == m && i == m - 1;
        let k = if i == 0 {
            f
        } else if last_full {
            8
        } else {
            7
        };
        if !last_full {
            w.bit(i + 1 < n);
        }
        left -= k;
        w.bits((a >> left) as u64 & ((1 << k) - 1), k);
    }
    Ok(())
}
fn var_read(v: Var, r: &mut BitR) -> Result<i128, DecErr> {
    let (m, f, s) = var_shape(v);
    let mut neg = false;
    let mut a: i128 = 0;
    for i in 0..m {
        if i == 0 && s {
            neg = r.bits(1)? == 1;
        }
        if i == m - 1 {
            a = (a << 8) | r.bits(8)? as i128;
            break;
        }
        let more = r.bits(1)? == 1;
        let k = if i == 0 { f } else { 7 };
        a = (a << k) | r.bits(k)? as i128;
        if !more {
            break;
        }
    }
    if v == Var::Size && a > var_max(v) {
        return Err(DecErr::Bad("varsize out of range".into()));
    }
    if v == Var::I && neg && a == 0 {
        return Ok(i64::MIN as i128);
    }
    Ok(if neg { -a } else { a })
}

pub fn f16_to_f32(h: u16) -> u32 {
    let s = ((h >> 15) as u32) << 31;
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 0x3ff) as u32;
    if e == 31 {
        return s | 0x7f80_0000 | (m << 13);
    }
    if e == 0 {
        if m == 0 {
            return s;
        }
        let v = m as f32 * 2f32.powi(-24);
        return s | v.to_bits();
    }
    s | (((e - 15 + 127) as u32) << 23) | (m << 13)
}
/// exact conversion; None when the value is not representable
pub fn f32_to_f16(f: u32) -> Option<u16> {
    let v = f32::from_bits(f);
    let s = ((f >> 31) as u16) << 15;
    if v.is_nan() {
        return Some(s | 0x7e00);
    }
    for e in [f & 0x7fff_ffff] {
        let ex = (e >> 23) as i32 - 127;
        if ex == 128 {
            return Some(s | 0x7c00);
        }
        if e == 0 {
            return Some(s);
        }
        if ex > 15 {
            return None;
        }
        if ex >= -14 {
            if e & 0x1fff != 0 {
                return None;
            }
            return Some(s | (((ex + 15) as u16) << 10) | ((e >> 13) & 0x3ff) as u16);
        }
        let m = f32::from_bits(e) * 2f32.powi(24);
        if m.fract() != 0.0 || m < 1.0 {
            return None;
        }
        return Some(s | m as u16);
    }
    None
}

/// how a simulated peer chooses among the legal packings
pub trait PackChoice {
    /// given the smallest legal delta width (None: cannot be packed) return the width to use or None for unpacked
    fn choose(&mut self, min_bits: Option<u32>, default: Option<u32>) -> Option<u32>;
}
pub struct DefaultPack;
impl PackChoice for DefaultPack {
    fn choose(&mut self, _m: Option<u32>, d: Option<u32>) -> Option<u32> {
        d
    }
}

#[derive(Default, Debug, Clone)]
struct Delta {
    n: u64,
    prev: i128,
    maxb: u32,
    unpacked: u64,
    first: u64,
    started: bool,
    packed: Option<u32>,
}
#[derive(Default, Debug, Clone)]
pub struct Node {
    d: Delta,
    kids: BTreeMap<usize, Node>,
}

pub fn packable(ty: &Ty) -> bool {
    !matches!(ty, Ty::Bool | Ty::F16 | Ty::F32 | Ty::F64 | Ty::Str | Ty::Bytes | Ty::Extern)
}

type R<T> = Result<T, String>;

pub struct Enc<'a> {
    pub m: &'a Model,
    pub w: BitW,
    pub pack: &'a mut dyn PackChoice,
    /// positions recorded for offset fields: (path of enclosing values is resolved by the caller)
    pub fix: Vec<(Vec<usize>, u64)>,
    path: Vec<usize>,
    /// the n-th length (of an array, string or blob) is written as another number
    pub forge: Option<(u64, i128)>,
    pub lens: u64,
    /// what was forged: (true: array, compound, field, real length)
    pub forged: Option<(bool, usize, usize, u64)>,
    at: (usize, usize),
}

/// Path steps into a value: field index inside a compound, element index inside an array.
pub fn at_path<'v>(v: &'v mut Value, p: &[usize]) -> Option<&'v mut Value> {
    let mut c = v;
    for s in p {
        c = match c {
            Value::Comp(x) => x.fields.get_mut(*s)?,
            Value::Arr(x) => x.get_mut(*s)?,
            _ => return None,
        };
    }
    Some(c)
}

/// Resolve an offset expression to a path relative to the compound.
fn offset_path(f: &Frame, e: &Expr, m: &Model) -> R<Vec<usize>> {
    match e {
        Expr::Id(n) => Ok(vec![f.comp.fields.iter().position(|x| &x.name == n).ok_or("offset field")?]),
        Expr::Arr(a, i) => {
            let mut p = offset_path(f, a, m)?;
            p.push(f.eval_int(i)? as usize);
            Ok(p)
        }
        Expr::Dot(a, n) => {
            let mut p = offset_path(f, a, m)?;
            let mut cur: &Value = &f.fields[p[0]];
            for s in &p[1..] {
                cur = match cur {
                    Value::Comp(c) => &c.fields[*s],
                    Value::Arr(a) => &a[*s],
                    _ => return Err("offset path".into()),
                };
            }
            let c = cur.comp();
            p.push(m.comps[c.ty].fields.iter().position(|x| &x.name == n).ok_or("offset field")?);
            Ok(p)
        }
        _ => Err("offset expression".into()),
    }
}

pub fn dyn_bits(f: &Frame, e: &Expr) -> R<u32> {
    let n = f.eval_int(e)?;
    if (0..=64).contains(&n) {
        Ok(n as u32)
    } else {
        Err(format!("bit length {}", n))
    }
}

impl<'a> Enc<'a> {
    pub fn new(m: &'a Model, pack: &'a mut dyn PackChoice) -> Self {
        Enc { m, w: BitW::default(), pack, fix: vec![], path: vec![], forge: None, lens: 0, forged: None, at: (0, 0) }
    }
    fn len(&mut self, x: i128, array: bool) -> R<()> {
        let k = self.lens;
        self.lens += 1;
        match self.forge {
            Some((n, y)) if n == k => {
                self.forged = Some((array, self.at.0, self.at.1, x as u64));
                var_write(Var::Size, y, &mut self.w)
            }
            _ => var_write(Var::Size, x, &mut self.w),
        }
    }
    fn int_bits(&self, f: &Frame, ty: &Ty, x: i128) -> R<u64> {
        Ok(match ty {
            Ty::UInt(n) | Ty::SInt(n) => *n as u64,
            Ty::DynU(e) | Ty::DynS(e) => dyn_bits(f, e)? as u64,
            Ty::Var(v) => 8 * var_bytes(*v, x) as u64,
            Ty::Enum(i) => self.int_bits(f, &self.m.enums[*i].base, x)?,
            Ty::Mask(i) => self.int_bits(f, &self.m.masks[*i].base, x)?,
            _ => return Err("not packable".into()),
        })
    }
    fn int(&mut self, f: &Frame, ty: &Ty, x: i128) -> R<()> {
        let range = |lo: i128, hi: i128| if x < lo || x > hi { Err(format!("{} does not fit {:?}", x, ty)) } else { Ok(()) };
        match ty {
            Ty::UInt(n) => {
                range(0, (1i128 << n) - 1)?;
                self.w.bits(x as u64, *n)
            }
            Ty::SInt(n) => {
                range(-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1)?;
                self.w.bits(x as u64, *n)
            }
            Ty::DynU(e) => {
                let n = dyn_bits(f, e)?;
                range(0, (1i128 << n) - 1)?;
                self.w.bits(x as u64, n)
            }
            Ty::DynS(e) => {
                let n = dyn_bits(f, e)?;
                if n == 0 {
                    range(0, 0)?;
                } else {
                    range(-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1)?;
                }
                self.w.bits(x as u64, n)
            }
            Ty::Var(v) => var_write(*v, x, &mut self.w)?,
            Ty::Enum(i) => {
                let b = self.m.enums[*i].base.clone();
                self.int(f, &b, x)?
            }
            Ty::Mask(i) => {
                let b = self.m.masks[*i].base.clone();
                self.int(f, &b, x)?
            }
            _ => return Err("int".into()),
        }
        Ok(())
    }
    fn delta_init(&self, f: &Frame, ty: &Ty, x: i128, d: &mut Delta) -> R<()> {
        let b = self.int_bits(f, ty, x)?;
        d.n += 1;
        d.unpacked += b;
        if d.n == 1 {
            d.first = b;
        } else {
            let diff = (x - d.prev).unsigned_abs();
            d.maxb = d.maxb.max(128 - diff.leading_zeros());
        }
        d.prev = x;
        Ok(())
    }
    fn delta_write(&mut self, f: &Frame, ty: &Ty, x: i128, d: &mut Delta) -> R<()> {
        if !d.started {
            d.started = true;
            let min = if d.n >= 2 && d.maxb <= 62 { Some(d.maxb) } else { None };
            let default = min.filter(|b| {
                let per = if *b > 0 { *b as u64 + 1 } else { 0 };
                7 + d.first + (d.n - 1) * per < 1 + d.unpacked
            });
            d.packed = self.pack.choose(min, default);
            self.w.bit(d.packed.is_some());
            if let Some(b) = d.packed {
                self.w.bits(b as u64, 6);
            }
            d.prev = x;
            return self.int(f, ty, x);
        }
        match d.packed {
            None => self.int(f, ty, x),
            Some(b) => {
                if b > 0 {
                    let df = x - d.prev;
                    self.w.bits(df as u64, b + 1);
                    d.prev = x;
                }
                Ok(())
            }
        }
    }
    /// gather packing statistics of one value
    fn init(&self, f: &Frame, ty: &Ty, v: &Value, node: &mut Node) -> R<()> {
        match ty {
            Ty::Comp(..) => {
                let c = v.comp();
                let cf = Frame::of(self.m, c);
                if let Some(s) = c.sel {
                    self.delta_init(&cf, &Ty::Var(Var::Size), s as i128, &mut node.kids.entry(0).or_default().d)?;
                }
                for (i, fd) in cf.comp.fields.iter().enumerate() {
                    let x = &c.fields[i];
                    if *x == Value::Absent || fd.array.is_some() || fd.is_off || !packable(&fd.ty) {
                        continue;
                    }
                    self.init(&cf, &fd.ty, x, node.kids.entry(i + 1).or_default())?;
                }
                Ok(())
            }
            t if packable(t) => self.delta_init(f, ty, v.int()?, &mut node.d),
            _ => Ok(()),
        }
    }
    pub fn value(&mut self, f: &Frame, ty: &Ty, v: &Value, node: Option<&mut Node>) -> R<()> {
        if let (Some(n), false, true) = (&node, matches!(ty, Ty::Comp(..)), packable(ty)) {
            let _ = n;
            let d = &mut node.unwrap().d;
            return self.delta_write(f, ty, v.int()?, d);
        }
        match (ty, v) {
            (Ty::Bool, Value::Bool(b)) => self.w.bit(*b),
            (Ty::F16, Value::F32(b)) => {
                let h = f32_to_f16(*b).ok_or("float16 not representable")?;
                self.w.bits(h as u64, 16)
            }
            (Ty::F32, Value::F32(b)) => self.w.bits(*b as u64, 32),
            (Ty::F64, Value::F64(b)) => self.w.bits(*b, 64),
            (Ty::Str, Value::Str(s)) => {
                self.len(s.len() as i128, false)?;
                self.w.bytes(s.as_bytes());
            }
            (Ty::Bytes, Value::Bytes(b)) => {
                self.len(b.len() as i128, false)?;
                self.w.bytes(b);
            }
            (Ty::Extern, Value::Ext(n, b)) => {
                self.len(*n as i128, false)?;
                let full = (*n / 8) as usize;
                self.w.bytes(&b[..full]);
                let r = *n % 8;
                if r > 0 {
                    self.w.bits((b[full] >> (8 - r)) as u64, r);
                }
            }
            (Ty::Comp(..), Value::Comp(c)) => self.comp(c, node)?,
            (_, Value::Int(x)) => self.int(f, ty, *x)?,
            (t, v) => return Err(format!("value {:?} for type {:?}", v, t)),
        }
        Ok(())
    }
    pub fn comp(&mut self, c: &CompVal, mut node: Option<&mut Node>) -> R<()> {
        let f = Frame::of(self.m, c);
        match f.comp.kind {
            Kind::Struct => {
                for i in 0..f.comp.fields.len() {
                    self.field(&f, c, i, node.as_deref_mut())?;
                }
            }
            Kind::Union => {
                let s = c.sel.ok_or("union without selector")? as usize;
                match node.as_deref_mut() {
                    Some(n) => {
                        let mut d = std::mem::take(&mut n.kids.entry(0).or_default().d);
                        self.delta_write(&f, &Ty::Var(Var::Size), s as i128, &mut d)?;
                        n.kids.get_mut(&0).unwrap().d = d;
                    }
                    None => var_write(Var::Size, s as i128, &mut self.w)?,
                }
                self.field(&f, c, s, node)?;
            }
            Kind::Choice => {
                if let Some(i) = f.choice_active()? {
                    self.field(&f, c, i, node)?;
                }
            }
        }
        Ok(())
    }
    fn field(&mut self, f: &Frame, c: &CompVal, i: usize, node: Option<&mut Node>) -> R<()> {
        let fd = &f.comp.fields[i];
        let v = &c.fields[i];
        self.at = (c.ty, i);
        if let Some(e) = &fd.cond {
            if !f.eval_bool(e)? {
                return Ok(());
            }
        }
        if self.m.quirk && fd.optional {
            self.w.align(fd.align);
        }
        if fd.optional {
            self.w.bit(*v != Value::Absent);
            if *v == Value::Absent {
                return Ok(());
            }
        }
        if !(self.m.quirk && fd.optional) {
            self.w.align(fd.align);
        }
        let index_off = fd.offset.as_ref().map(has_index).unwrap_or(false);
        if let Some(e) = &fd.offset {
            if !index_off {
                self.w.align(8);
                let mut p = self.path.clone();
                p.extend(offset_path(f, e, self.m)?);
                self.fix.push((p, self.w.n / 8));
            }
        }
        self.path.push(i);
        let r = match &fd.array {
            Some(len) => {
                let a = match v {
                    Value::Arr(a) => a,
                    _ => return Err(format!("array value expected for {}", fd.name)),
                };
                match len {
                    ArrLen::Auto => self.len(a.len() as i128, true)?,
                    ArrLen::Expr(e) => {
                        let n = f.eval_int(e)?;
                        if n != a.len() as i128 {
                            return Err(format!("array length {} != {}", a.len(), n));
                        }
                    }
                }
                let packed = (fd.packed || node.is_some()) && !fd.is_off && packable(&fd.ty);
                let mut pn = Node::default();
                if packed {
                    for (k, x) in a.iter().enumerate() {
                        let fi = Frame { index: Some(k), ..Frame::of(self.m, c) };
                        self.init(&fi, &fd.ty, x, &mut pn)?;
                    }
                }
                for (k, x) in a.iter().enumerate() {
                    let fi = Frame { index: Some(k), ..Frame::of(self.m, c) };
                    if index_off {
                        self.w.align(8);
                        let mut p = self.path.clone();
                        p.pop();
                        p.extend(offset_path(&fi, fd.offset.as_ref().unwrap(), self.m)?);
                        self.fix.push((p, self.w.n / 8));
                    }
                    self.path.push(k);
                    let r = self.value(&fi, &fd.ty, x, if packed { Some(&mut pn) } else { None });
                    self.path.pop();
                    r?;
                }
                Ok(())
            }
            None => {
                let sub = match node {
                    Some(n) if packable(&fd.ty) && !fd.is_off => Some(n.kids.entry(i + 1).or_default()),
                    _ => None,
                };
                self.value(f, &fd.ty, v, sub)
            }
        };
        self.path.pop();
        r
    }
}

/// Encode a top-level compound; offsets must already be set.
pub fn encode(m: &Model, v: &Value) -> R<Vec<u8>> {
    let mut d = DefaultPack;
    encode_with(m, v, &mut d)
}
pub fn encode_with(m: &Model, v: &Value, p: &mut dyn PackChoice) -> R<Vec<u8>> {
    let mut e = Enc::new(m, p);
    e.comp(v.comp(), None)?;
    Ok(e.w.b)
}
/// Encodes with the `n`-th length replaced by `x`; None if there is no such length.
pub fn encode_forged(m: &Model, v: &Value, n: u64, x: i128) -> R<Option<(Vec<u8>, (bool, usize, usize, u64))>> {
    let mut d = DefaultPack;
    let mut e = Enc::new(m, &mut d);
    e.forge = Some((n, x));
    e.comp(v.comp(), None)?;
    Ok(e.forged.map(|f| (e.w.b, f)))
}
/// The number of lengths in the encoded value.
pub fn lengths(m: &Model, v: &Value) -> R<u64> {
    let mut d = DefaultPack;
    let mut e = Enc::new(m, &mut d);
    e.comp(v.comp(), None)?;
    Ok(e.lens)
}
/// Bits of the value when it starts at bit `pos` of a stream.
pub fn encode_at(m: &Model, v: &Value, pos: u64) -> R<BitW> {
    let mut d = DefaultPack;
    let mut e = Enc::new(m, &mut d);
    e.w = BitW { b: vec![0; pos.div_ceil(8) as usize], n: pos };
    e.comp(v.comp(), None)?;
    Ok(e.w)
}
/// Set all offset fields to the positions the encoder computes; returns the bit length.
pub fn fix_offsets(m: &Model, v: &mut Value) -> R<u64> {
    fix_offsets_at(m, v, 0)
}
pub fn fix_offsets_at(m: &Model, v: &mut Value, pos: u64) -> R<u64> {
    let mut d = DefaultPack;
    let mut e = Enc::new(m, &mut d);
    e.w = BitW { b: vec![0; pos.div_ceil(8) as usize], n: pos };
    e.comp(v.comp(), None)?;
    let n = e.w.n;
    let fix = std::mem::take(&mut e.fix);
    let any = !fix.is_empty();
    for (p, pos) in fix {
        let x = at_path(v, &p).ok_or("offset path")?;
        *x = Value::Int(pos as i128);
    }
    if any {
        if let Value::Comp(c) = v {
            refresh(m, c)?;
        }
    }
    Ok(n)
}
/// Takes over what the objects that are parameters contain now (offsets, for example).
pub fn refresh(m: &Model, c: &mut CompVal) -> R<()> {
    let comp = &m.comps[c.ty];
    for i in 0..c.fields.len() {
        let Ty::Comp(j, args) = &comp.fields[i].ty else { continue };
        let mut x = std::mem::replace(&mut c.fields[i], Value::Absent);
        let one = |k: Option<usize>, x: &mut Value| -> R<()> {
            let Value::Comp(o) = x else { return Ok(()) };
            for (n, a) in args.iter().enumerate() {
                o.params[n] = Frame { index: k, ..Frame::of(m, c) }.eval_arg(*j, n, a)?;
            }
            refresh(m, o)
        };
        match &mut x {
            Value::Arr(l) => {
                for (k, x) in l.iter_mut().enumerate() {
                    one(Some(k), x)?;
                }
            }
            x => one(None, x)?,
        }
        c.fields[i] = x;
    }
    Ok(())
}

pub struct Dec<'a, 'b> {
    pub m: &'a Model,
    pub r: BitR<'b>,
    /// the packing descriptors met
    pub packs: Vec<Option<u32>>,
    /// the arrays begun: compound, field, declared length, elements decoded
    pub arrays: Vec<(usize, usize, u64, u64)>,
}
type D<T> = Result<T, DecErr>;
fn bad(e: String) -> DecErr {
    DecErr::Eval(e)
}

impl<'a, 'b> Dec<'a, 'b> {
    fn int(&mut self, f: &Frame, ty: &Ty) -> D<i128> {
        self.r.tick()?;
        Ok(match ty {
            Ty::UInt(n) => self.r.bits(*n)? as i128,
            Ty::SInt(n) => sext(self.r.bits(*n)?, *n) as i128,
            Ty::DynU(e) => {
                let n = dyn_bits(f, e).map_err(bad)?;
                self.r.bits(n)? as i128
            }
            Ty::DynS(e) => {
                let n = dyn_bits(f, e).map_err(bad)?;
                sext(self.r.bits(n)?, n) as i128
            }
            Ty::Var(v) => var_read(*v, &mut self.r)?,
            Ty::Enum(i) => {
                let b = self.m.enums[*i].base.clone();
                let x = self.int(f, &b)?;
                self.enum_ok(*i, x)?
            }
            Ty::Mask(i) => {
                let b = self.m.masks[*i].base.clone();
                self.int(f, &b)?
            }
            _ => return Err(DecErr::Bad("int".into())),
        })
    }
    fn enum_ok(&self, i: usize, x: i128) -> D<i128> {
        if self.m.enums[i].items.iter().any(|e| e.1 == x) {
            Ok(x)
        } else {
            Err(DecErr::Bad(format!("enum value {}", x)))
        }
    }
    fn delta(&mut self, f: &Frame, ty: &Ty, d: &mut Delta) -> D<i128> {
        self.r.tick()?;
        if !d.started {
            d.started = true;
            d.packed = if self.r.bits(1)? == 1 { Some(self.r.bits(6)? as u32) } else { None };
            self.packs.push(d.packed);
            d.prev = self.int(f, ty)?;
            return Ok(d.prev);
        }
        match d.packed {
            None => self.int(f, ty),
            Some(b) => {
                if b > 0 {
                    let x = sext(self.r.bits(b + 1)?, b + 1) as i128;
                    d.prev += x;
                }
                if let Ty::Enum(i) = ty {
                    return self.enum_ok(*i, d.prev);
                }
                Ok(d.prev)
            }
        }
    }
    fn value(&mut self, f: &Frame, ty: &Ty, node: Option<&mut Node>) -> D<Value> {
        if !matches!(ty, Ty::Comp(..)) && packable(ty) {
            if let Some(n) = node {
                return Ok(Value::Int(self.delta(f, ty, &mut n.d)?));
            }
            return Ok(Value::Int(self.int(f, ty)?));
        }
        self.r.tick()?;
        Ok(match ty {
            Ty::Bool => Value::Bool(self.r.bits(1)? == 1),
            Ty::F16 => Value::F32(f16_to_f32(self.r.bits(16)? as u16)),
            Ty::F32 => Value::F32(self.r.bits(32)? as u32),
            Ty::F64 => Value::F64(self.r.bits(64)?),
            Ty::Str => {
                let n = var_read(Var::Size, &mut self.r)? as u64;
                let b = self.bytes(n)?;
                Value::Str(String::from_utf8(b).map_err(|e| DecErr::Bad(e.to_string()))?)
            }
            Ty::Bytes => {
                let n = var_read(Var::Size, &mut self.r)? as u64;
                Value::Bytes(self.bytes(n)?)
            }
            Ty::Extern => {
                let n = var_read(Var::Size, &mut self.r)? as u64;
                let mut b = self.bytes(n / 8)?;
                let rest = (n % 8) as u32;
                if rest > 0 {
                    b.push((self.r.bits(rest)? << (8 - rest)) as u8);
                }
                Value::Ext(n as u32, b)
            }
            Ty::Comp(i, args) => {
                let mut params = vec![];
                for (k, a) in args.iter().enumerate() {
                    params.push(f.eval_arg(*i, k, a).map_err(bad)?);
                }
                self.comp(*i, params, node)?
            }
            _ => unreachable!(),
        })
    }
    fn bytes(&mut self, n: u64) -> D<Vec<u8>> {
        if self.r.left() < n.saturating_mul(8) {
            return Err(DecErr::Eof);
        }
        (0..n).map(|_| self.r.bits(8).map(|x| x as u8)).collect()
    }
    pub fn comp(&mut self, idx: usize, params: Vec<Value>, mut node: Option<&mut Node>) -> D<Value> {
        let m = self.m;
        let comp = &m.comps[idx];
        let mut c = CompVal { ty: idx, params, fields: vec![Value::Absent; comp.fields.len()], sel: None };
        match comp.kind {
            Kind::Struct => {
                for i in 0..comp.fields.len() {
                    let v = self.field(&c, i, node.as_deref_mut())?;
                    c.fields[i] = v;
                }
            }
            Kind::Union => {
                let s = match node.as_deref_mut() {
                    Some(n) => {
                        let mut d = std::mem::take(&mut n.kids.entry(0).or_default().d);
                        let f = Frame::of(m, &c);
                        let s = self.delta(&f, &Ty::Var(Var::Size), &mut d)?;
                        n.kids.get_mut(&0).unwrap().d = d;
                        s
                    }
                    None => var_read(Var::Size, &mut self.r)?,
                };
                if s < 0 || s >= comp.fields.len() as i128 {
                    return Err(DecErr::Bad(format!("union selector {}", s)));
                }
                c.sel = Some(s as u32);
                let v = self.field(&c, s as usize, node)?;
                c.fields[s as usize] = v;
            }
            Kind::Choice => {
                let act = Frame::of(m, &c).choice_active().map_err(bad)?;
                if let Some(i) = act {
                    let v = self.field(&c, i, node)?;
                    c.fields[i] = v;
                }
            }
        }
        Ok(Value::Comp(Box::new(c)))
    }
    fn field(&mut self, c: &CompVal, i: usize, node: Option<&mut Node>) -> D<Value> {
        let m = self.m;
        let f = Frame::of(m, c);
        let fd = &f.comp.fields[i];
        if let Some(e) = &fd.cond {
            if !f.eval_bool(e).map_err(bad)? {
                return Ok(Value::Absent);
            }
        }
        if m.quirk && fd.optional {
            self.r.align(fd.align)?;
        }
        if fd.optional && self.r.bits(1)? == 0 {
            return Ok(Value::Absent);
        }
        if !(m.quirk && fd.optional) {
            self.r.align(fd.align)?;
        }
        let index_off = match &fd.offset {
            Some(e) => {
                let ix = has_index(e);
                if !ix {
                    self.r.align(8)?;
                }
                ix
            }
            None => false,
        };
        match &fd.array {
            Some(len) => {
                let n = match len {
                    ArrLen::Auto => var_read(Var::Size, &mut self.r)?,
                    ArrLen::Expr(e) => f.eval_int(e).map_err(bad)?,
                };
                // no data can have that many elements: the end of the data is what a decoder finds
                let n = if n < 0 { u64::MAX as i128 } else { n };
                let packed = (fd.packed || node.is_some()) && !fd.is_off && packable(&fd.ty);
                let mut pn = Node::default();
                let mut out = vec![];
                let at = self.arrays.len();
                self.arrays.push((c.ty, i, n as u64, 0));
                for k in 0..n as u64 {
                    self.r.tick()?;
                    if index_off {
                        self.r.align(8)?;
                    }
                    let fi = Frame { index: Some(k as usize), ..Frame::of(m, c) };
                    let v = self.value(&fi, &fd.ty, if packed { Some(&mut pn) } else { None })?;
                    out.push(v);
                    self.arrays[at].3 += 1;
                }
                Ok(Value::Arr(out))
            }
            None => {
                let sub = match node {
                    Some(n) if packable(&fd.ty) && !fd.is_off => Some(n.kids.entry(i + 1).or_default()),
                    _ => None,
                };
                self.value(&f, &fd.ty, sub)
            }
        }
    }
}
pub fn has_index(e: &Expr) -> bool {
    match e {
        Expr::Index => true,
        Expr::Arr(a, b) => has_index(a) || has_index(b),
        Expr::Dot(a, _) => has_index(a),
        _ => false,
    }
}

#[derive(Debug, Clone)]
pub struct Decoded {
    pub value: D<Value>,
    pub bits: u64,
    /// items decoded
    pub work: u64,
    pub packs: Vec<Option<u32>>,
    /// the arrays begun: compound, field, declared length, elements decoded
    pub arrays: Vec<(usize, usize, u64, u64)>,
}
/// Decode a top-level compound at bit `pos`.
pub fn decode_at(m: &Model, ty: usize, b: &[u8], pos: u64, work: u64) -> Decoded {
    let mut d = Dec { m, r: BitR { b, n: pos, work }, packs: vec![], arrays: vec![] };
    let value = d.comp(ty, vec![], None);
    Decoded { value, bits: d.r.n - pos, work: work - d.r.work, packs: d.packs, arrays: d.arrays }
}
/// Decode a top-level compound; returns the value and the bits consumed.
pub fn decode(m: &Model, ty: usize, b: &[u8], work: u64) -> (D<Value>, u64) {
    let d = decode_at(m, ty, b, 0, work);
    (d.value, d.bits)
}
/// Repeats recorded packing decisions.
pub struct SamePack(pub Vec<Option<u32>>, pub usize);
impl PackChoice for SamePack {
    fn choose(&mut self, _m: Option<u32>, d: Option<u32>) -> Option<u32> {
        self.1 += 1;
        self.0.get(self.1 - 1).copied().unwrap_or(d)
    }
}

/// Canonical form of a value read out of a generated object: drops inactive fields and
/// rounds floats to the declared type, so that it can be compared with a model value.
pub fn normalize(m: &Model, v: &Value) -> R<Value> {
    let c = v.comp();
    let comp = &m.comps[c.ty];
    let mut out = CompVal { ty: c.ty, params: c.params.clone(), fields: vec![Value::Absent; comp.fields.len()], sel: None };
    let norm = |fd: &Field, x: &Value| -> R<Value> {
        match x {
            Value::Arr(a) => Ok(Value::Arr(a.iter().map(|y| norm_one(m, &fd.ty, y)).collect::<R<Vec<_>>>()?)),
            x => norm_one(m, &fd.ty, x),
        }
    };
    match comp.kind {
        Kind::Struct => {
            for (i, fd) in comp.fields.iter().enumerate() {
                if let Some(e) = &fd.cond {
                    if !Frame::of(m, &out).eval_bool(e)? {
                        continue;
                    }
                }
                out.fields[i] = norm(fd, &c.fields[i])?;
            }
        }
        Kind::Union => {
            out.sel = c.sel;
            let s = c.sel.ok_or("no selector")? as usize;
            out.fields[s] = norm(&comp.fields[s], &c.fields[s])?;
        }
        Kind::Choice => {
            if let Some(i) = Frame::of(m, &out).choice_active()? {
                out.fields[i] = norm(&comp.fields[i], &c.fields[i])?;
            }
        }
    }
    out.params = c.params.iter().zip(&comp.params).map(|(p, (_, t))| norm_one(m, t, p)).collect::<R<Vec<_>>>()?;
    Ok(Value::Comp(Box::new(out)))
}
fn norm_one(m: &Model, ty: &Ty, x: &Value) -> R<Value> {
    Ok(match (ty, x) {
        (_, Value::Absent) => Value::Absent,
        (Ty::Comp(..), x) => normalize(m, x)?,
        (Ty::F16, Value::F32(b)) if f32::from_bits(*b).is_nan() => Value::F32(0x7fc0_0000),
        (_, x) => x.clone(),
    })
}

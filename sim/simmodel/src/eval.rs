//! Schema expression evaluator.
use crate::ast::Expr;
use crate::model::*;
use crate::value::*;

pub struct Frame<'a> {
    pub m: &'a Model,
    pub comp: &'a Comp,
    pub params: &'a [Value],
    pub fields: &'a [Value],
    pub index: Option<usize>,
}

type R<T> = Result<T, String>;

impl<'a> Frame<'a> {
    pub fn of(m: &'a Model, c: &'a CompVal) -> Frame<'a> {
        Frame { m, comp: &m.comps[c.ty], params: &c.params, fields: &c.fields, index: None }
    }
    fn global(&self, pkg: &str, n: &str) -> R<Value> {
        match self.m.names.get(&(pkg.to_string(), n.to_string())) {
            Some(Named::Const(p, c)) => {
                let (_, e) = self.m.consts[&(p.clone(), c.clone())].clone();
                Frame { m: self.m, comp: self.comp, params: &[], fields: &[], index: None }.eval_in(p, &e)
            }
            _ => Err(format!("unresolved {} in {}", n, pkg)),
        }
    }
    fn item(&self, pkg: &str, ty: &str, item: &str) -> Option<i128> {
        let e = match self.m.names.get(&(pkg.to_string(), ty.to_string()))? {
            Named::Enum(i) => &self.m.enums[*i],
            Named::Mask(i) => &self.m.masks[*i],
            _ => return None,
        };
        e.items.iter().find(|x| x.0 == item).map(|x| x.1)
    }
    pub fn eval(&self, e: &Expr) -> R<Value> {
        self.eval_in(self.comp.expr_pkg(), e)
    }
    /// The value that parameter `k` of type `comp` gets from an argument.
    pub fn eval_arg(&self, comp: usize, k: usize, e: &Expr) -> R<Value> {
        let v = self.eval(e)?;
        Ok(match (&self.m.comps[comp].params[k].1, v) {
            (Ty::F16 | Ty::F32, Value::F64(x)) => Value::F32((f64::from_bits(x) as f32).to_bits()),
            (Ty::F16 | Ty::F32, Value::Int(x)) => Value::F32((x as f32).to_bits()),
            (Ty::F64, Value::F32(x)) => Value::F64(f64::from(f32::from_bits(x)).to_bits()),
            (Ty::F64, Value::Int(x)) => Value::F64((x as f64).to_bits()),
            // a number that the type of the parameter has no room for
            (Ty::UInt(b), Value::Int(x)) if x < 0 || x >> b.next_power_of_two().max(8) != 0 => return Err("no room in the parameter".into()),
            (Ty::SInt(b), Value::Int(x)) if !matches!(x >> (b.next_power_of_two().max(8) - 1), 0 | -1) => return Err("no room in the parameter".into()),
            (_, v) => v,
        })
    }
    pub fn eval_int(&self, e: &Expr) -> R<i128> {
        self.eval(e)?.int()
    }
    pub fn eval_bool(&self, e: &Expr) -> R<bool> {
        match self.eval(e)? {
            Value::Bool(b) => Ok(b),
            Value::Int(i) => Ok(i != 0),
            v => Err(format!("not a bool: {:?}", v)),
        }
    }
    fn lookup(&self, n: &str) -> Option<&'a Value> {
        if let Some(i) = self.comp.fields.iter().position(|f| f.name == n) {
            return self.fields.get(i);
        }
        if let Some(i) = self.comp.params.iter().position(|p| p.0 == n) {
            return self.params.get(i);
        }
        None
    }
    /// The value of an expression that names one, without a copy of it.
    fn place<'b>(&'b self, e: &Expr) -> Option<&'b Value> {
        fn dot<'b>(m: &'b Model, v: &'b Value, n: &str) -> Option<&'b Value> {
            match v {
                Value::Comp(c) => Frame::of(m, c).lookup(n),
                _ => None,
            }
        }
        let v = match e {
            Expr::Id(n) => self.lookup(n)?,
            Expr::Dot(a, n) => dot(self.m, self.place(a)?, n)?,
            _ => return None,
        };
        (*v != Value::Absent).then_some(v)
    }
    fn eval_in(&self, pkg: &str, e: &Expr) -> R<Value> {
        Ok(match e {
            Expr::Int(i) => Value::Int(*i),
            Expr::Bool(b) => Value::Bool(*b),
            Expr::Float(f) => Value::F64(f.to_bits()),
            Expr::Str(s) => Value::Str(s.clone()),
            Expr::Index => Value::Int(self.index.ok_or("no @index here")? as i128),
            Expr::Id(n) => match self.lookup(n) {
                Some(Value::Absent) => return Err(format!("{} is absent", n)),
                Some(v) => v.clone(),
                None => return self.global(pkg, n),
            },
            Expr::Dot(a, n) => {
                if let Expr::Id(t) = &**a {
                    if self.lookup(t).is_none() {
                        if let Some(v) = self.item(pkg, t, n) {
                            return Ok(Value::Int(v));
                        }
                    }
                }
                match self.eval_in(pkg, a)? {
                    Value::Comp(c) => {
                        let f = Frame::of(self.m, &c);
                        match f.lookup(n) {
                            Some(Value::Absent) => return Err(format!(".{} is absent", n)),
                            None => return Err(format!("no value for .{}", n)),
                            Some(v) => v.clone(),
                        }
                    }
                    _ => return Err(format!(".{} on a non-compound", n)),
                }
            }
            Expr::Arr(a, i) => {
                let i = self.eval_in(pkg, i)?.int()?;
                if let Some(Value::Arr(v)) = self.place(a) {
                    return Ok(v.get(i as usize).ok_or("array index out of range")?.clone());
                }
                match self.eval_in(pkg, a)? {
                    Value::Arr(v) => v.get(i as usize).ok_or("array index out of range")?.clone(),
                    _ => return Err("index on a non-array".into()),
                }
            }
            Expr::Call(f) => match &**f {
                Expr::Id(n) => {
                    let body = self.comp.funcs.get(n).ok_or(format!("no function {}", n))?;
                    return self.eval(body);
                }
                Expr::Dot(a, n) => match self.eval_in(pkg, a)? {
                    Value::Comp(c) => {
                        let fr = Frame::of(self.m, &c);
                        let body = fr.comp.funcs.get(n).ok_or(format!("no function {}", n))?;
                        return fr.eval(body);
                    }
                    _ => return Err("call on a non-compound".into()),
                },
                _ => return Err("bad call".into()),
            },
            Expr::Isset(a, b) => {
                let (a, b) = (self.eval_in(pkg, a)?.int()?, self.eval_in(pkg, b)?.int()?);
                Value::Bool(a & b != 0)
            }
            Expr::Lengthof(a) if matches!(self.place(a), Some(Value::Arr(_))) => match self.place(a) {
                Some(Value::Arr(v)) => Value::Int(v.len() as i128),
                _ => unreachable!(),
            },
            Expr::Lengthof(a) => match self.eval_in(pkg, a)? {
                Value::Arr(v) => Value::Int(v.len() as i128),
                Value::Str(s) => Value::Int(s.len() as i128),
                _ => return Err("lengthof".into()),
            },
            Expr::Valueof(a) => self.eval_in(pkg, a)?,
            Expr::Numbits(a) => {
                let v = self.eval_in(pkg, a)?.int()?;
                Value::Int(match v {
                    0 => 0,
                    1 => 1,
                    v => (128 - (v - 1).leading_zeros()) as i128,
                })
            }
            Expr::Un(op, a) => {
                let a = self.eval_in(pkg, a)?;
                match (*op, a) {
                    ("!", Value::Bool(b)) => Value::Bool(!b),
                    ("-", Value::Int(i)) => Value::Int(-i),
                    ("-", Value::F64(x)) => Value::F64((-f64::from_bits(x)).to_bits()),
                    ("-", Value::F32(x)) => Value::F64((-f64::from(f32::from_bits(x))).to_bits()),
                    ("+", v) => v,
                    ("~", Value::Int(i)) => Value::Int(!i),
                    (o, v) => return Err(format!("{} on {:?}", o, v)),
                }
            }
            Expr::Bin(op, a, b) => {
                if *op == "&&" || *op == "||" {
                    let l = match self.eval_in(pkg, a)? {
                        Value::Bool(b) => b,
                        _ => return Err("logical operand".into()),
                    };
                    if (*op == "&&") != l {
                        return Ok(Value::Bool(l));
                    }
                    return match self.eval_in(pkg, b)? {
                        Value::Bool(b) => Ok(Value::Bool(b)),
                        _ => Err("logical operand".into()),
                    };
                }
                let (l, r) = (self.eval_in(pkg, a)?, self.eval_in(pkg, b)?);
                if let (Value::Str(x), Value::Str(y)) = (&l, &r) {
                    return Ok(match *op {
                        "+" => Value::Str(format!("{}{}", x, y)),
                        "==" => Value::Bool(x == y),
                        "!=" => Value::Bool(x != y),
                        _ => return Err("string operator".into()),
                    });
                }
                if let (Value::Bool(x), Value::Bool(y)) = (&l, &r) {
                    return Ok(match *op {
                        "==" => Value::Bool(x == y),
                        "!=" => Value::Bool(x != y),
                        _ => return Err("bool operator".into()),
                    });
                }
                if matches!(l, Value::F32(_) | Value::F64(_)) || matches!(r, Value::F32(_) | Value::F64(_)) {
                    let f = |v: &Value| match v {
                        Value::F32(b) => Ok(f32::from_bits(*b) as f64),
                        Value::F64(b) => Ok(f64::from_bits(*b)),
                        v => v.int().map(|i| i as f64),
                    };
                    let (x, y) = (f(&l)?, f(&r)?);
                    return Ok(match *op {
                        "==" => Value::Bool(x == y),
                        "!=" => Value::Bool(x != y),
                        "<" => Value::Bool(x < y),
                        "<=" => Value::Bool(x <= y),
                        ">" => Value::Bool(x > y),
                        ">=" => Value::Bool(x >= y),
                        "+" => Value::F64((x + y).to_bits()),
                        "-" => Value::F64((x - y).to_bits()),
                        "*" => Value::F64((x * y).to_bits()),
                        "/" => Value::F64((x / y).to_bits()),
                        o => return Err(format!("operator {} on floats", o)),
                    });
                }
                let (x, y) = (l.int()?, r.int()?);
                match *op {
                    "==" => Value::Bool(x == y),
                    "!=" => Value::Bool(x != y),
                    "<" => Value::Bool(x < y),
                    "<=" => Value::Bool(x <= y),
                    ">" => Value::Bool(x > y),
                    ">=" => Value::Bool(x >= y),
                    "+" => Value::Int(x + y),
                    "-" => Value::Int(x - y),
                    "*" => Value::Int(x * y),
                    "/" if y != 0 => Value::Int(x / y),
                    "%" if y != 0 => Value::Int(x % y),
                    "&" => Value::Int(x & y),
                    "|" => Value::Int(x | y),
                    "^" => Value::Int(x ^ y),
                    "<<" if (0..64).contains(&y) => Value::Int(x << y),
                    ">>" if (0..64).contains(&y) => Value::Int(x >> y),
                    o => return Err(format!("operator {} on {} {}", o, x, y)),
                }
            }
            Expr::Tern(c, a, b) => match self.eval_in(pkg, c)? {
                Value::Bool(true) => self.eval_in(pkg, a)?,
                Value::Bool(false) => self.eval_in(pkg, b)?,
                _ => return Err("ternary condition".into()),
            },
        })
    }
    /// index of the active alternative of a choice; None: a case without a field
    pub fn choice_active(&self) -> R<Option<usize>> {
        let sel_e = self.comp.selector.as_ref().unwrap();
        let sel = self.eval(sel_e)?.int()?;
        let hint = self.sel_enum(sel_e);
        for (es, f) in &self.comp.cases {
            for e in es {
                let v = match (e, hint) {
                    (Expr::Id(n), Some(items)) => match items.iter().find(|x| &x.0 == n) {
                        Some(x) => x.1,
                        None => self.eval_int(e)?,
                    },
                    _ => self.eval_int(e)?,
                };
                if v == sel {
                    return Ok(*f);
                }
            }
        }
        match self.comp.default {
            Some(f) => Ok(f),
            None => Err("no matching choice case".into()),
        }
    }
    fn ty_of(&self, comp: &'a Comp, e: &Expr) -> Option<&'a Ty> {
        match e {
            Expr::Id(n) => comp.fields.iter().find(|f| &f.name == n).map(|f| &f.ty).or(comp.params.iter().find(|p| &p.0 == n).map(|p| &p.1)),
            Expr::Dot(a, n) => match self.ty_of(comp, a)? {
                Ty::Comp(i, _) => self.ty_of(&self.m.comps[*i], &Expr::Id(n.clone())),
                _ => None,
            },
            _ => None,
        }
    }
    fn sel_enum(&self, e: &Expr) -> Option<&'a Vec<(String, i128)>> {
        match self.ty_of(self.comp, e)? {
            Ty::Enum(i) => Some(&self.m.enums[*i].items),
            Ty::Mask(i) => Some(&self.m.masks[*i].items),
            _ => None,
        }
    }
}

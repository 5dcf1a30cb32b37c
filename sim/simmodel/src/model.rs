//! Resolved schema model: types with templates instantiated, subtypes followed, names bound.
use crate::ast::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Var {
    I16,
    I32,
    I64,
    I,
    U16,
    U32,
    U64,
    U,
    Size,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Bool,
    UInt(u32),
    SInt(u32),
    DynU(Expr),
    DynS(Expr),
    Var(Var),
    F16,
    F32,
    F64,
    Str,
    Bytes,
    Extern,
    Enum(usize),
    Mask(usize),
    Comp(usize, Vec<Expr>),
}

#[derive(Debug, Clone)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub packed: bool,
    pub array: Option<ArrLen>,
    pub optional: bool,
    pub align: u32,
    pub offset: Option<Expr>,
    /// other fields are positioned by this one: it is never packed
    pub is_off: bool,
    pub cond: Option<Expr>,
    pub constraint: Option<Expr>,
    pub ann: BTreeMap<String, Vec<i128>>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    Struct,
    Choice,
    Union,
}

#[derive(Debug, Clone)]
pub struct Comp {
    pub kind: Kind,
    pub pkg: String,
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub fields: Vec<Field>,
    pub selector: Option<Expr>,
    pub cases: Vec<(Vec<Expr>, Option<usize>)>,
    pub default: Option<Option<usize>>,
    pub funcs: HashMap<String, Expr>,
}

#[derive(Debug, Clone)]
pub struct EnumT {
    pub pkg: String,
    pub name: String,
    pub base: Ty,
    pub items: Vec<(String, i128)>,
}

#[derive(Debug, Clone, Default)]
pub struct Model {
    pub comps: Vec<Comp>,
    pub enums: Vec<EnumT>,
    pub masks: Vec<EnumT>,
    pub consts: HashMap<(String, String), (String, Expr)>,
    /// (pkg, visible name) -> binding
    pub names: HashMap<(String, String), Named>,
    /// pkg -> imported packages
    pub imports: HashMap<String, Vec<(String, Option<String>)>>,
    /// known deviation of the code under test: optional fields are aligned before their presence bit
    pub quirk: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Named {
    Enum(usize),
    Mask(usize),
    Const(String, String),
    Other,
}

struct Builder<'a> {
    pkgs: &'a [Package],
    m: Model,
    done: HashMap<String, usize>,
    enums: HashMap<(String, String), usize>,
    masks: HashMap<(String, String), usize>,
    /// explicit names of template instantiations: key -> (pkg, name)
    inst: HashMap<String, (String, String)>,
    depth: usize,
}

type R<T> = Result<T, String>;

pub fn build(pkgs: &[Package]) -> R<Model> {
    let mut b = Builder {
        pkgs,
        m: Model::default(),
        done: HashMap::new(),
        enums: HashMap::new(),
        masks: HashMap::new(),
        inst: HashMap::new(),
        depth: 0,
    };
    b.run()?;
    mark_offsets(&mut b.m);
    Ok(b.m)
}

/// The field an offset expression names.
fn offset_field(m: &Model, comp: usize, e: &Expr) -> Option<(usize, usize)> {
    match e {
        Expr::Id(n) => Some((comp, m.comps[comp].fields.iter().position(|x| &x.name == n)?)),
        Expr::Arr(a, _) => offset_field(m, comp, a),
        Expr::Dot(a, n) => {
            let ty = match &**a {
                Expr::Id(p) if m.comps[comp].params.iter().any(|x| &x.0 == p) => &m.comps[comp].params.iter().find(|x| &x.0 == p)?.1,
                _ => {
                    let (c, i) = offset_field(m, comp, a)?;
                    &m.comps[c].fields[i].ty
                }
            };
            match ty {
                Ty::Comp(i, _) => Some((*i, m.comps[*i].fields.iter().position(|x| &x.name == n)?)),
                _ => None,
            }
        }
        _ => None,
    }
}
fn mark_offsets(m: &mut Model) {
    let mut out = vec![];
    for (i, c) in m.comps.iter().enumerate() {
        for f in &c.fields {
            out.extend(f.offset.as_ref().and_then(|e| offset_field(m, i, e)));
        }
    }
    for (c, i) in out {
        m.comps[c].fields[i].is_off = true;
    }
}

fn const_eval(e: &Expr) -> R<i128> {
    Ok(match e {
        Expr::Int(i) => *i,
        Expr::Un("-", a) => -const_eval(a)?,
        Expr::Un("+", a) => const_eval(a)?,
        Expr::Un("~", a) => !const_eval(a)?,
        Expr::Bin(op, a, b) => {
            let (a, b) = (const_eval(a)?, const_eval(b)?);
            match *op {
                "+" => a + b,
                "-" => a - b,
                "*" => a * b,
                "<<" => a << b,
                ">>" => a >> b,
                "|" => a | b,
                "&" => a & b,
                "^" => a ^ b,
                "/" if b != 0 => a / b,
                "%" if b != 0 => a % b,
                _ => return Err(format!("constant operator {}", op)),
            }
        }
        _ => return Err("not a constant integer".into()),
    })
}

impl<'a> Builder<'a> {
    fn pkg(&self, name: &str) -> R<&'a Package> {
        self.pkgs.iter().find(|p| p.name == name).ok_or(format!("unknown package {}", name))
    }
    fn find_decl(&self, pkg: &str, name: &str) -> R<(&'a Package, &'a Decl)> {
        let p = self.pkg(pkg)?;
        if let Some(d) = p.decls.iter().find(|d| d.name() == name) {
            return Ok((p, d));
        }
        for (ip, what) in &p.imports {
            if let Some(w) = what {
                if w != name {
                    continue;
                }
            }
            let q = self.pkg(ip)?;
            if let Some(d) = q.decls.iter().find(|d| d.name() == name) {
                return Ok((q, d));
            }
        }
        Err(format!("unresolved name {} in {}", name, pkg))
    }
    fn run(&mut self) -> R<()> {
        for p in self.pkgs {
            self.m.imports.insert(p.name.clone(), p.imports.clone());
            for (ip, what) in &p.imports {
                let q = self.pkg(ip)?;
                if let Some(w) = what {
                    q.decls.iter().find(|d| d.name() == w).ok_or(format!("import of unknown {}.{}", ip, w))?;
                }
            }
            let mut seen = std::collections::HashSet::new();
            for d in &p.decls {
                if !seen.insert(d.name().to_string()) {
                    return Err(format!("duplicate {}", d.name()));
                }
                if let Decl::Instantiate(t, n) = d {
                    let k = self.tkey(&p.name, t)?;
                    self.inst.insert(k, (p.name.clone(), n.clone()));
                }
                if let Decl::Const(t, n, e) = d {
                    self.m.consts.insert((p.name.clone(), n.clone()), (t.path.join("."), e.clone()));
                }
            }
        }
        for p in self.pkgs {
            for d in &p.decls {
                match d {
                    Decl::Enum(_, n, _) | Decl::Bitmask(_, n, _) => {
                        self.resolve_named(&p.name, n, &[], &HashMap::new())?;
                    }
                    Decl::Struct(c) | Decl::Choice(c) | Decl::Union(c) if c.tparams.is_empty() => {
                        self.resolve_named(&p.name, &c.name, &[], &HashMap::new())?;
                    }
                    Decl::Subtype(t, _) | Decl::Instantiate(t, _) => {
                        self.resolve(&p.name, t, &HashMap::new())?;
                    }
                    _ => {}
                }
            }
        }
        for p in self.pkgs {
            let mut all: Vec<(String, String)> = p.decls.iter().map(|d| (p.name.clone(), d.name().to_string())).collect();
            for (ip, what) in &p.imports {
                for d in &self.pkg(ip)?.decls {
                    if what.as_ref().map(|w| w == d.name()).unwrap_or(true) {
                        all.push((ip.clone(), d.name().to_string()));
                    }
                }
            }
            for (dp, n) in all {
                let v = self.bind_named(&dp, &n, 0)?;
                self.m.names.entry((p.name.clone(), n)).or_insert(v);
            }
        }
        Ok(())
    }
    fn bind_named(&self, pkg: &str, n: &str, depth: u32) -> R<Named> {
        if depth > 20 {
            return Err("cyclic subtype".into());
        }
        let (p, d) = self.find_decl(pkg, n)?;
        Ok(match d {
            Decl::Enum(_, n, _) => Named::Enum(self.enums[&(p.name.clone(), n.clone())]),
            Decl::Bitmask(_, n, _) => Named::Mask(self.masks[&(p.name.clone(), n.clone())]),
            Decl::Const(_, n, _) => Named::Const(p.name.clone(), n.clone()),
            Decl::Subtype(t, _) if !t.builtin && t.targs.is_empty() && t.path.len() == 1 => self.bind_named(&p.name, &t.path[0], depth + 1)?,
            _ => Named::Other,
        })
    }
    fn tkey(&self, pkg: &str, t: &TypeRef) -> R<String> {
        if t.builtin {
            return Ok(match t.bits {
                Some(b) => format!("{}:{}", t.path[0], b),
                None => t.path[0].clone(),
            });
        }
        let (p, d) = if t.path.len() == 1 {
            self.find_decl(pkg, &t.path[0])?
        } else {
            let n = t.path.len() - 1;
            self.find_decl(&t.path[..n].join("."), &t.path[n])?
        };
        let mut k = format!("{}.{}", p.name, d.name());
        if !t.targs.is_empty() {
            let a: R<Vec<String>> = t.targs.iter().map(|a| self.tkey(pkg, a)).collect();
            k = format!("{}<{}>", k, a?.join(","));
        }
        Ok(k)
    }
    fn resolve(&mut self, pkg: &str, t: &TypeRef, tmap: &HashMap<String, (String, TypeRef)>) -> R<Ty> {
        if t.builtin {
            let n = t.path[0].as_str();
            return Ok(match n {
                "bool" => Ty::Bool,
                "bit" | "int" => match (&t.bits, &t.dynlen) {
                    (Some(b), _) if n == "bit" => Ty::UInt(*b),
                    (Some(b), _) => Ty::SInt(*b),
                    (None, Some(e)) if n == "bit" => Ty::DynU(e.clone()),
                    (None, Some(e)) => Ty::DynS(e.clone()),
                    _ => return Err("bit field without length".into()),
                },
                "int8" => Ty::SInt(8),
                "int16" => Ty::SInt(16),
                "int32" => Ty::SInt(32),
                "int64" => Ty::SInt(64),
                "uint8" => Ty::UInt(8),
                "uint16" => Ty::UInt(16),
                "uint32" => Ty::UInt(32),
                "uint64" => Ty::UInt(64),
                "varint16" => Ty::Var(Var::I16),
                "varint32" => Ty::Var(Var::I32),
                "varint64" => Ty::Var(Var::I64),
                "varint" => Ty::Var(Var::I),
                "varuint16" => Ty::Var(Var::U16),
                "varuint32" => Ty::Var(Var::U32),
                "varuint64" => Ty::Var(Var::U64),
                "varuint" => Ty::Var(Var::U),
                "varsize" => Ty::Var(Var::Size),
                "float16" => Ty::F16,
                "float32" => Ty::F32,
                "float64" => Ty::F64,
                "string" => Ty::Str,
                "bytes" => Ty::Bytes,
                "extern" => Ty::Extern,
                _ => return Err(format!("builtin {}", n)),
            });
        }
        if t.path.len() == 1 {
            if let Some((p, a)) = tmap.get(&t.path[0]) {
                let mut a = a.clone();
                a.args = t.args.clone();
                let p = p.clone();
                return self.resolve(&p, &a, &HashMap::new());
            }
        }
        // substitute template parameters inside the arguments
        let targs: Vec<(String, TypeRef)> = t
            .targs
            .iter()
            .map(|a| {
                if a.path.len() == 1 {
                    if let Some(x) = tmap.get(&a.path[0]) {
                        return x.clone();
                    }
                }
                (pkg.to_string(), a.clone())
            })
            .collect();
        let (p, n) = if t.path.len() == 1 {
            (pkg.to_string(), t.path[0].clone())
        } else {
            let k = t.path.len() - 1;
            (t.path[..k].join("."), t.path[k].clone())
        };
        let mut ty = self.resolve_named(&p, &n, &targs, tmap)?;
        if let Ty::Comp(i, a) = &mut ty {
            *a = t.args.clone();
            if self.m.comps[*i].params.len() != t.args.len() && !t.args.is_empty() {
                return Err(format!("wrong number of arguments for {}", n));
            }
        } else if !t.args.is_empty() {
            return Err(format!("{} takes no arguments", n));
        }
        Ok(ty)
    }
    fn resolve_named(&mut self, pkg: &str, name: &str, targs: &[(String, TypeRef)], _t: &HashMap<String, (String, TypeRef)>) -> R<Ty> {
        self.depth += 1;
        if self.depth > 60 {
            return Err("cyclic type".into());
        }
        let r = self.resolve_named2(pkg, name, targs);
        self.depth -= 1;
        r
    }
    fn resolve_named2(&mut self, pkg: &str, name: &str, targs: &[(String, TypeRef)]) -> R<Ty> {
        let (p, d) = self.find_decl(pkg, name)?;
        let mut tmap = HashMap::new();
        match d {
            Decl::Subtype(t, _) | Decl::Instantiate(t, _) => self.resolve(&p.name, t, &tmap),
            Decl::Enum(t, n, items) | Decl::Bitmask(t, n, items) => {
                let is_enum = matches!(d, Decl::Enum(..));
                let k = (p.name.clone(), n.clone());
                if is_enum {
                    if let Some(i) = self.enums.get(&k) {
                        return Ok(Ty::Enum(*i));
                    }
                } else if let Some(i) = self.masks.get(&k) {
                    return Ok(Ty::Mask(*i));
                }
                let base = self.resolve(&p.name, t, &tmap)?;
                let mut out = vec![];
                let mut last: Option<i128> = None;
                for (n, e) in items {
                    let v = match e {
                        Some(e) => const_eval(e)?,
                        None if is_enum => last.map(|l| l + 1).unwrap_or(0),
                        None => match last {
                            None => 1,
                            Some(0) => 1,
                            Some(l) => 1i128 << (128 - l.leading_zeros()),
                        },
                    };
                    if out.iter().any(|(m, _)| m == n) {
                        return Err(format!("duplicate item {}", n));
                    }
                    last = Some(v);
                    out.push((n.clone(), v));
                }
                let e = EnumT { pkg: p.name.clone(), name: n.clone(), base, items: out };
                if is_enum {
                    self.m.enums.push(e);
                    self.enums.insert(k, self.m.enums.len() - 1);
                    Ok(Ty::Enum(self.m.enums.len() - 1))
                } else {
                    self.m.masks.push(e);
                    self.masks.insert(k, self.m.masks.len() - 1);
                    Ok(Ty::Mask(self.m.masks.len() - 1))
                }
            }
            Decl::Struct(c) | Decl::Choice(c) | Decl::Union(c) => {
                if c.tparams.len() != targs.len() {
                    return Err(format!("template argument count of {}", name));
                }
                let mut key = format!("{}.{}", p.name, c.name);
                let mut rname = c.name.clone();
                if !targs.is_empty() {
                    let mut ks = vec![];
                    for (tp, t) in targs {
                        ks.push(self.tkey(tp, t)?);
                        rname.push('_');
                        rname.push_str(t.path.last().unwrap());
                    }
                    key = format!("{}<{}>", key, ks.join(","));
                }
                if let Some(i) = self.done.get(&key) {
                    return Ok(Ty::Comp(*i, vec![]));
                }
                let mut rpkg = p.name.clone();
                if let Some((ip, n)) = self.inst.get(&key) {
                    rname = n.clone();
                    rpkg = ip.clone();
                }
                for (tp, (ap, a)) in c.tparams.iter().zip(targs) {
                    tmap.insert(tp.clone(), (ap.clone(), a.clone()));
                }
                let idx = self.m.comps.len();
                self.done.insert(key, idx);
                self.m.comps.push(Comp {
                    kind: match d {
                        Decl::Struct(_) => Kind::Struct,
                        Decl::Choice(_) => Kind::Choice,
                        _ => Kind::Union,
                    },
                    pkg: rpkg,
                    name: rname,
                    params: c.params.iter().map(|p| (p.1.clone(), Ty::Bool)).collect(),
                    fields: vec![],
                    selector: c.selector.clone(),
                    cases: c.cases.clone(),
                    default: c.default,
                    funcs: c.funcs.iter().map(|f| (f.name.clone(), f.body.clone())).collect(),
                });
                let mut params = vec![];
                for (t, n) in &c.params {
                    params.push((n.clone(), self.resolve(&p.name, t, &tmap)?));
                }
                for f in &c.funcs {
                    self.resolve(&p.name, &f.ret, &tmap)?;
                }
                let mut fields: Vec<Field> = vec![];
                for f in &c.fields {
                    if f.implicit || f.extend {
                        return Err("implicit/extend not modelled".into());
                    }
                    if fields.iter().any(|g| g.name == f.name) {
                        return Err(format!("duplicate field {}", f.name));
                    }
                    let ty = self.resolve(&p.name, &f.ty, &tmap)?;
                    let mut ann = BTreeMap::new();
                    for a in &f.ann {
                        let mut it = a.split_whitespace();
                        if let Some(k) = it.next() {
                            let vals: Vec<i128> = it.filter_map(|x| x.parse().ok()).collect();
                            ann.insert(k.to_string(), vals);
                        }
                    }
                    let align = match &f.align {
                        Some(e) => const_eval(e)? as u32,
                        None => 0,
                    };
                    fields.push(Field {
                        name: f.name.clone(),
                        ty,
                        packed: f.packed,
                        array: f.array.clone(),
                        optional: f.optional,
                        align,
                        offset: f.offset.clone(),
                        is_off: false,
                        cond: f.cond.clone(),
                        constraint: f.constraint.clone(),
                        ann,
                    });
                }
                // names used by expressions must exist (fields, parameters, functions, declarations)
                let c2 = &mut self.m.comps[idx];
                c2.params = params;
                c2.fields = fields;
                for e in c.selector.iter().chain(c.funcs.iter().map(|f| &f.body)) {
                    self.check_names(&p.name, idx, e)?;
                }
                for f in &c.fields {
                    for e in [&f.align, &f.offset, &f.cond, &f.init, &f.constraint].into_iter().flatten() {
                        self.check_names(&p.name, idx, e)?;
                    }
                    if let Some(ArrLen::Expr(e)) = &f.array {
                        self.check_names(&p.name, idx, e)?;
                    }
                    for e in f.ty.args.iter().chain(f.ty.dynlen.iter()) {
                        self.check_names(&p.name, idx, e)?;
                    }
                }
                // expressions are evaluated in the package that declares the template
                self.m.comps[idx].pkg = format!("{}|{}", self.m.comps[idx].pkg, p.name);
                Ok(Ty::Comp(idx, vec![]))
            }
            _ => Err(format!("{} is not a type", name)),
        }
    }
    fn check_names(&self, pkg: &str, idx: usize, e: &Expr) -> R<()> {
        match e {
            Expr::Id(n) => {
                let c = &self.m.comps[idx];
                if c.params.iter().any(|p| &p.0 == n) || c.fields.iter().any(|f| &f.name == n) || c.funcs.contains_key(n) {
                    return Ok(());
                }
                // choice cases name enum items directly
                if c.kind == Kind::Choice {
                    return Ok(());
                }
                self.find_decl(pkg, n).map(|_| ())
            }
            Expr::Dot(a, _) | Expr::Call(a) | Expr::Lengthof(a) | Expr::Valueof(a) | Expr::Numbits(a) | Expr::Un(_, a) => self.check_names(pkg, idx, a),
            Expr::Arr(a, b) | Expr::Isset(a, b) | Expr::Bin(_, a, b) => {
                self.check_names(pkg, idx, a)?;
                self.check_names(pkg, idx, b)
            }
            Expr::Tern(a, b, c) => {
                self.check_names(pkg, idx, a)?;
                self.check_names(pkg, idx, b)?;
                self.check_names(pkg, idx, c)
            }
            _ => Ok(()),
        }
    }
}

impl Comp {
    /// package the generated binding lives in
    pub fn out_pkg(&self) -> &str {
        self.pkg.split('|').next().unwrap()
    }
    /// package whose names the expressions see
    pub fn expr_pkg(&self) -> &str {
        self.pkg.split('|').next_back().unwrap()
    }
}

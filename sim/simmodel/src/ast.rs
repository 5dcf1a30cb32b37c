//! Syntax tree and recursive-descent parser of the zserio schema language.
use crate::lex::{lex, Tok};

#[derive(Debug, Clone, PartialEq)]
pub enum Expr {
    Int(i128),
    Bool(bool),
    Float(f64),
    Str(String),
    Id(String),
    Index,
    Dot(Box<Expr>, String),
    Arr(Box<Expr>, Box<Expr>),
    Call(Box<Expr>),
    Isset(Box<Expr>, Box<Expr>),
    Lengthof(Box<Expr>),
    Valueof(Box<Expr>),
    Numbits(Box<Expr>),
    Un(&'static str, Box<Expr>),
    Bin(&'static str, Box<Expr>, Box<Expr>),
    Tern(Box<Expr>, Box<Expr>, Box<Expr>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct TypeRef {
    pub path: Vec<String>,
    pub builtin: bool,
    pub bits: Option<u32>,
    pub targs: Vec<TypeRef>,
    pub args: Vec<Expr>,
    pub dynlen: Option<Expr>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum ArrLen {
    Auto,
    Expr(Expr),
}

#[derive(Debug, Clone)]
pub struct FieldDef {
    pub name: String,
    pub ty: TypeRef,
    pub packed: bool,
    pub implicit: bool,
    pub array: Option<ArrLen>,
    pub optional: bool,
    pub extend: bool,
    pub align: Option<Expr>,
    pub offset: Option<Expr>,
    pub init: Option<Expr>,
    pub cond: Option<Expr>,
    pub constraint: Option<Expr>,
    pub ann: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct FuncDef {
    pub name: String,
    pub ret: TypeRef,
    pub body: Expr,
}

#[derive(Debug, Clone)]
pub struct CompDef {
    pub name: String,
    pub tparams: Vec<String>,
    pub params: Vec<(TypeRef, String)>,
    pub fields: Vec<FieldDef>,
    pub funcs: Vec<FuncDef>,
    /// choice only
    pub selector: Option<Expr>,
    /// choice only: (case expressions, index into fields)
    pub cases: Vec<(Vec<Expr>, Option<usize>)>,
    pub default: Option<Option<usize>>,
}

#[derive(Debug, Clone)]
pub enum Decl {
    Const(TypeRef, String, Expr),
    Subtype(TypeRef, String),
    Struct(CompDef),
    Choice(CompDef),
    Union(CompDef),
    Enum(TypeRef, String, Vec<(String, Option<Expr>)>),
    Bitmask(TypeRef, String, Vec<(String, Option<Expr>)>),
    Instantiate(TypeRef, String),
    Service(String),
    Pubsub(String),
    RuleGroup(String),
}

impl Decl {
    pub fn name(&self) -> &str {
        match self {
            Decl::Const(_, n, _) | Decl::Subtype(_, n) | Decl::Enum(_, n, _) | Decl::Bitmask(_, n, _) | Decl::Instantiate(_, n) => n,
            Decl::Struct(c) | Decl::Choice(c) | Decl::Union(c) => &c.name,
            Decl::Service(n) | Decl::Pubsub(n) | Decl::RuleGroup(n) => n,
        }
    }
}

#[derive(Debug, Clone, Default)]
pub struct Package {
    pub name: String,
    pub imports: Vec<(String, Option<String>)>,
    pub decls: Vec<Decl>,
}

struct P {
    t: Vec<Tok>,
    i: usize,
    ann: Vec<String>,
}
type R<T> = Result<T, String>;

pub fn parse(text: &str) -> R<Package> {
    let mut p = P { t: lex(text)?, i: 0, ann: vec![] };
    p.package()
}

impl P {
    fn skip_ann(&mut self) {
        while let Tok::Ann(a) = &self.t[self.i] {
            self.ann.push(a.clone());
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Tok {
        self.skip_ann();
        self.t[self.i].clone()
    }
    fn peek_at(&self, n: usize) -> Tok {
        let mut j = self.i;
        let mut k = n;
        loop {
            if j >= self.t.len() {
                return Tok::Eof;
            }
            if let Tok::Ann(_) = self.t[j] {
                j += 1;
                continue;
            }
            if k == 0 {
                return self.t[j].clone();
            }
            k -= 1;
            j += 1;
        }
    }
    fn next(&mut self) -> Tok {
        self.skip_ann();
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is_p(&mut self, s: &str) -> bool {
        matches!(self.peek(), Tok::P(x) if x == s)
    }
    fn is_kw(&mut self, s: &str) -> bool {
        matches!(self.peek(), Tok::Kw(x) if x == s)
    }
    fn eat_p(&mut self, s: &str) -> bool {
        if self.is_p(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_kw(&mut self, s: &str) -> bool {
        if self.is_kw(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, s: &str) -> R<()> {
        if self.eat_p(s) {
            Ok(())
        } else {
            Err(format!("expected '{}', found {:?}", s, self.peek()))
        }
    }
    fn exp_kw(&mut self, s: &str) -> R<()> {
        if self.eat_kw(s) {
            Ok(())
        } else {
            Err(format!("expected '{}', found {:?}", s, self.peek()))
        }
    }
    fn id(&mut self) -> R<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            t => Err(format!("expected identifier, found {:?}", t)),
        }
    }
    fn package(&mut self) -> R<Package> {
        let mut pk = Package::default();
        if self.eat_kw("zserio_compatibility_version") {
            self.exp_p("(")?;
            match self.next() {
                Tok::Str(_) => {}
                t => return Err(format!("expected string, found {:?}", t)),
            }
            self.exp_p(")")?;
            self.exp_p(";")?;
        }
        if self.eat_kw("package") {
            let mut n = self.id()?;
            while self.eat_p(".") {
                n = format!("{}.{}", n, self.id()?);
            }
            self.exp_p(";")?;
            pk.name = n;
        }
        while self.eat_kw("import") {
            let mut parts = vec![self.id()?];
            let mut star = false;
            while self.eat_p(".") {
                if self.eat_p("*") {
                    star = true;
                    break;
                }
                parts.push(self.id()?);
            }
            self.exp_p(";")?;
            if star {
                pk.imports.push((parts.join("."), None));
            } else {
                if parts.len() < 2 {
                    return Err("bad import".into());
                }
                let last = parts.pop().unwrap();
                pk.imports.push((parts.join("."), Some(last)));
            }
        }
        loop {
            self.skip_ann();
            self.ann.clear();
            match self.peek() {
                Tok::Eof => return Ok(pk),
                Tok::Kw(k) => {
                    let d = self.decl(k)?;
                    pk.decls.push(d);
                }
                t => return Err(format!("unexpected {:?} at top level", t)),
            }
        }
    }
    fn decl(&mut self, k: &'static str) -> R<Decl> {
        self.next();
        match k {
            "const" => {
                let t = self.type_inst()?;
                let n = self.id()?;
                self.exp_p("=")?;
                let e = self.expr()?;
                self.exp_p(";")?;
                Ok(Decl::Const(t, n, e))
            }
            "subtype" => {
                let t = self.type_ref()?;
                let n = self.id()?;
                self.exp_p(";")?;
                Ok(Decl::Subtype(t, n))
            }
            "instantiate" => {
                let t = self.type_ref()?;
                let n = self.id()?;
                self.exp_p(";")?;
                Ok(Decl::Instantiate(t, n))
            }
            "enum" | "bitmask" => {
                let t = self.type_inst()?;
                let n = self.id()?;
                self.exp_p("{")?;
                let mut items = vec![];
                loop {
                    let _ = k == "enum" && (self.eat_kw("deprecated") || self.eat_kw("removed"));
                    let i = self.id()?;
                    let e = if self.eat_p("=") { Some(self.expr()?) } else { None };
                    items.push((i, e));
                    if self.eat_p(",") {
                        if self.is_p("}") {
                            break;
                        }
                        continue;
                    }
                    break;
                }
                self.exp_p("}")?;
                self.exp_p(";")?;
                Ok(if k == "enum" { Decl::Enum(t, n, items) } else { Decl::Bitmask(t, n, items) })
            }
            "struct" => {
                let mut c = self.comp_head()?;
                self.exp_p("{")?;
                while !self.is_p("}") && !self.is_kw("function") {
                    let f = self.struct_field()?;
                    c.fields.push(f);
                }
                self.funcs(&mut c)?;
                Ok(Decl::Struct(c))
            }
            "union" => {
                let mut c = self.comp_head()?;
                self.exp_p("{")?;
                while !self.is_p("}") && !self.is_kw("function") {
                    let f = self.choice_field()?;
                    self.exp_p(";")?;
                    c.fields.push(f);
                }
                self.funcs(&mut c)?;
                Ok(Decl::Union(c))
            }
            "choice" => {
                let mut c = self.comp_head()?;
                if c.params.is_empty() {
                    return Err("choice without parameters".into());
                }
                self.exp_kw("on")?;
                c.selector = Some(self.expr()?);
                self.exp_p("{")?;
                while self.is_kw("case") {
                    let mut es = vec![];
                    while self.eat_kw("case") {
                        es.push(self.expr()?);
                        self.exp_p(":")?;
                    }
                    let idx = if self.is_p(";") {
                        None
                    } else {
                        let f = self.choice_field()?;
                        c.fields.push(f);
                        Some(c.fields.len() - 1)
                    };
                    self.exp_p(";")?;
                    c.cases.push((es, idx));
                }
                if self.eat_kw("default") {
                    self.exp_p(":")?;
                    let idx = if self.is_p(";") {
                        None
                    } else {
                        let f = self.choice_field()?;
                        c.fields.push(f);
                        Some(c.fields.len() - 1)
                    };
                    self.exp_p(";")?;
                    c.default = Some(idx);
                }
                self.funcs(&mut c)?;
                Ok(Decl::Choice(c))
            }
            "service" => {
                let n = self.id()?;
                self.exp_p("{")?;
                while !self.is_p("}") {
                    self.type_ref()?;
                    self.id()?;
                    self.exp_p("(")?;
                    self.type_ref()?;
                    self.exp_p(")")?;
                    self.exp_p(";")?;
                }
                self.exp_p("}")?;
                self.exp_p(";")?;
                Ok(Decl::Service(n))
            }
            "pubsub" => {
                let n = self.id()?;
                self.exp_p("{")?;
                while !self.is_p("}") {
                    let _ = self.eat_kw("publish") || self.eat_kw("subscribe");
                    self.exp_kw("topic")?;
                    self.exp_p("(")?;
                    self.expr()?;
                    self.exp_p(")")?;
                    self.type_ref()?;
                    self.id()?;
                    self.exp_p(";")?;
                }
                self.exp_p("}")?;
                self.exp_p(";")?;
                Ok(Decl::Pubsub(n))
            }
            "rule_group" => {
                let n = self.id()?;
                self.exp_p("{")?;
                while self.eat_kw("rule") {
                    self.expr()?;
                    self.exp_p(";")?;
                }
                self.exp_p("}")?;
                self.exp_p(";")?;
                Ok(Decl::RuleGroup(n))
            }
            _ => Err(format!("unexpected keyword '{}' at top level", k)),
        }
    }
    fn comp_head(&mut self) -> R<CompDef> {
        let name = self.id()?;
        let mut tparams = vec![];
        if self.eat_p("<") {
            loop {
                tparams.push(self.id()?);
                if !self.eat_p(",") {
                    break;
                }
            }
            self.exp_p(">")?;
        }
        let mut params = vec![];
        if self.eat_p("(") {
            loop {
                let t = self.type_ref()?;
                let n = self.id()?;
                params.push((t, n));
                if !self.eat_p(",") {
                    break;
                }
            }
            self.exp_p(")")?;
        }
        self.ann.clear();
        Ok(CompDef { name, tparams, params, fields: vec![], funcs: vec![], selector: None, cases: vec![], default: None })
    }
    fn funcs(&mut self, c: &mut CompDef) -> R<()> {
        while self.eat_kw("function") {
            let ret = self.type_ref()?;
            let name = self.id()?;
            self.exp_p("(")?;
            self.exp_p(")")?;
            self.exp_p("{")?;
            self.exp_kw("return")?;
            let body = self.expr()?;
            self.exp_p(";")?;
            self.exp_p("}")?;
            c.funcs.push(FuncDef { name, ret, body });
        }
        self.exp_p("}")?;
        self.exp_p(";")
    }
    fn choice_field(&mut self) -> R<FieldDef> {
        self.skip_ann();
        let ann = std::mem::take(&mut self.ann);
        let mut f = self.field_type_id()?;
        f.ann = ann;
        if self.eat_p(":") {
            f.constraint = Some(self.expr()?);
        }
        Ok(f)
    }
    fn struct_field(&mut self) -> R<FieldDef> {
        self.skip_ann();
        let ann = std::mem::take(&mut self.ann);
        let align = if self.is_kw("align") {
            self.next();
            self.exp_p("(")?;
            let e = self.expr()?;
            self.exp_p(")")?;
            self.exp_p(":")?;
            Some(e)
        } else {
            None
        };
        // field offset: try an expression followed by ':'
        let save = self.i;
        let mut offset = None;
        if let Tok::Id(_) = self.peek() {
            match self.expr() {
                Ok(e) if self.is_p(":") => {
                    self.next();
                    offset = Some(e);
                }
                _ => self.i = save,
            }
        }
        let extend = self.eat_kw("extend");
        let optional = self.eat_kw("optional");
        let mut f = self.field_type_id()?;
        f.align = align;
        f.offset = offset;
        f.extend = extend;
        f.optional = optional;
        if self.eat_p("=") {
            f.init = Some(self.expr()?);
        }
        if self.eat_kw("if") {
            f.cond = Some(self.expr()?);
        }
        if self.eat_p(":") {
            f.constraint = Some(self.expr()?);
        }
        self.exp_p(";")?;
        f.ann = ann;
        f.ann.extend(std::mem::take(&mut self.ann));
        Ok(f)
    }
    fn field_type_id(&mut self) -> R<FieldDef> {
        let packed = self.eat_kw("packed");
        let implicit = self.eat_kw("implicit");
        let ty = self.type_inst()?;
        let name = self.id()?;
        let array = if self.eat_p("[") {
            if self.eat_p("]") {
                Some(ArrLen::Auto)
            } else {
                let e = self.expr()?;
                self.exp_p("]")?;
                Some(ArrLen::Expr(e))
            }
        } else {
            None
        };
        Ok(FieldDef {
            name,
            ty,
            packed,
            implicit,
            array,
            optional: false,
            extend: false,
            align: None,
            offset: None,
            init: None,
            cond: None,
            constraint: None,
            ann: vec![],
        })
    }
    fn type_inst(&mut self) -> R<TypeRef> {
        let mut t = self.type_ref()?;
        if t.builtin && t.bits.is_none() && (t.path[0] == "bit" || t.path[0] == "int") {
            self.exp_p("<")?;
            t.dynlen = Some(self.shift_expr()?);
            self.exp_p(">")?;
        } else if self.eat_p("(") {
            loop {
                let _ = self.eat_kw("explicit");
                let e = self.expr()?;
                t.args.push(e);
                if !self.eat_p(",") {
                    break;
                }
            }
            self.exp_p(")")?;
        }
        Ok(t)
    }
    fn type_ref(&mut self) -> R<TypeRef> {
        let mut t = TypeRef { path: vec![], builtin: false, bits: None, targs: vec![], args: vec![], dynlen: None };
        match self.next() {
            Tok::Kw(k) => {
                match k {
                    "bit" | "int" => {
                        if self.eat_p(":") {
                            match self.next() {
                                Tok::Int(n) if (1..=64).contains(&n) => t.bits = Some(n as u32),
                                x => return Err(format!("bad bit count {:?}", x)),
                            }
                        }
                    }
                    "int8" | "int16" | "int32" | "int64" | "uint8" | "uint16" | "uint32" | "uint64" | "varint" | "varint16"
                    | "varint32" | "varint64" | "varsize" | "varuint" | "varuint16" | "varuint32" | "varuint64" | "bool"
                    | "string" | "float16" | "float32" | "float64" | "extern" | "bytes" => {}
                    _ => return Err(format!("expected type, found '{}'", k)),
                }
                t.builtin = true;
                t.path.push(k.to_string());
            }
            Tok::Id(s) => {
                t.path.push(s);
                while self.is_p(".") {
                    self.next();
                    t.path.push(self.id()?);
                }
                if self.is_p("<") {
                    self.next();
                    loop {
                        let a = self.type_ref()?;
                        t.targs.push(a);
                        if !self.eat_p(",") {
                            break;
                        }
                    }
                    self.exp_p(">")?;
                }
            }
            x => return Err(format!("expected type, found {:?}", x)),
        }
        Ok(t)
    }

    // expressions, lowest precedence first
    pub fn expr(&mut self) -> R<Expr> {
        let c = self.bin(0)?;
        if self.eat_p("?") {
            let a = self.expr()?;
            self.exp_p(":")?;
            let b = self.expr()?;
            return Ok(Expr::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    /// expression that may not contain a bare '>' (dynamic bit field length)
    fn shift_expr(&mut self) -> R<Expr> {
        self.bin(8)
    }
    fn bin_op(&mut self, lvl: usize) -> Option<(&'static str, usize)> {
        let t = match self.peek() {
            Tok::P(p) => p,
            _ => return None,
        };
        let ops: &[&'static str] = match lvl {
            0 => &["||"],
            1 => &["&&"],
            2 => &["|"],
            3 => &["^"],
            4 => &["&"],
            5 => &["==", "!="],
            6 => &["<", "<=", ">", ">="],
            7 => &["<<", ">>"],
            8 => &["+", "-"],
            _ => &["*", "/", "%"],
        };
        let gtgt = t == ">" && matches!(self.peek_at(1), Tok::P(">"));
        if gtgt {
            return if lvl == 7 { Some((">>", 2)) } else { None };
        }
        ops.iter().find(|o| **o == t).map(|o| (*o, 1))
    }
    fn bin(&mut self, lvl: usize) -> R<Expr> {
        if lvl > 9 {
            return self.unary();
        }
        let mut l = self.bin(lvl + 1)?;
        while let Some((op, n)) = self.bin_op(lvl) {
            for _ in 0..n {
                self.next();
            }
            let r = self.bin(lvl + 1)?;
            l = Expr::Bin(op, Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn unary(&mut self) -> R<Expr> {
        for op in ["+", "-", "!", "~"] {
            if self.eat_p(op) {
                return Ok(Expr::Un(op, Box::new(self.unary()?)));
            }
        }
        for (k, n) in [("lengthof", 1), ("valueof", 1), ("numbits", 1), ("isset", 2)] {
            if self.eat_kw(k) {
                self.exp_p("(")?;
                let a = self.expr()?;
                let b = if n == 2 {
                    self.exp_p(",")?;
                    Some(self.expr()?)
                } else {
                    None
                };
                self.exp_p(")")?;
                let a = Box::new(a);
                return Ok(match k {
                    "lengthof" => Expr::Lengthof(a),
                    "valueof" => Expr::Valueof(a),
                    "numbits" => Expr::Numbits(a),
                    _ => Expr::Isset(a, Box::new(b.unwrap())),
                });
            }
        }
        self.postfix()
    }
    fn postfix(&mut self) -> R<Expr> {
        let mut e = match self.next() {
            Tok::P("(") => {
                let e = self.expr()?;
                self.exp_p(")")?;
                e
            }
            Tok::Int(i) => Expr::Int(i),
            Tok::Float(f) => Expr::Float(f),
            Tok::Str(s) => Expr::Str(s),
            Tok::Kw("true") => Expr::Bool(true),
            Tok::Kw("false") => Expr::Bool(false),
            Tok::P("@index") => Expr::Index,
            Tok::Id(s) => Expr::Id(s),
            t => return Err(format!("unexpected {:?} in expression", t)),
        };
        loop {
            if self.eat_p(".") {
                e = Expr::Dot(Box::new(e), self.id()?);
            } else if self.eat_p("[") {
                let i = self.expr()?;
                self.exp_p("]")?;
                e = Expr::Arr(Box::new(e), Box::new(i));
            } else if self.is_p("(") && matches!(self.peek_at(1), Tok::P(")")) {
                self.next();
                self.next();
                e = Expr::Call(Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
}

//! Schema trees: parts of the corpus, the modules of the repository's own schema collection, and
//! random schemas.
use crate::comp::Tree;
use simkit::{below, chance, range};

include!(concat!(env!("OUT_DIR"), "/trees.rs"));

fn imports(t: &str) -> Vec<String> {
    t.lines()
        .filter_map(|l| l.trim().strip_prefix("import "))
        .map(|l| l.split(';').next().unwrap().rsplit_once('.').map(|x| x.0.to_string()).unwrap_or_default())
        .collect()
}
fn package(t: &str) -> String {
    t.lines().find_map(|l| l.trim().strip_prefix("package ")).map(|l| l.split(';').next().unwrap().trim().to_string()).unwrap_or_default()
}
/// A few files of a collection with everything they import.
fn part(all: &[(&str, &str)], n: u64) -> Tree {
    let mut idx = vec![];
    for _ in 0..n {
        idx.push(below(all.len() as u64) as usize);
    }
    let mut i = 0;
    while i < idx.len() {
        for p in imports(all[idx[i]].1) {
            for (k, f) in all.iter().enumerate() {
                if package(f.1) == p && !idx.contains(&k) {
                    idx.push(k);
                }
            }
        }
        i += 1;
    }
    idx.sort();
    idx.dedup();
    idx.iter().map(|i| (all[*i].0.to_string(), all[*i].1.as_bytes().to_vec())).collect()
}
pub fn fixed() -> Vec<Tree> {
    let mut v = vec![];
    for all in [CORPUS, REF] {
        v.push(all.iter().map(|f| (f.0.to_string(), f.1.as_bytes().to_vec())).collect());
    }
    v
}
pub fn root() -> &'static str {
    ["", "bindings", "crate_name::inner"][below(3) as usize]
}
/// A schema tree, most of the time one the compiler accepts.
pub fn tree() -> Tree {
    match below(8) {
        0 => part(CORPUS, 1),
        1 => part(CORPUS, range(1, 3)),
        2 => part(REF, range(1, 2)),
        _ => random(),
    }
}

struct Ty {
    name: String,
    /// number of uint8 parameters
    params: usize,
    /// template parameters
    targs: usize,
}
#[derive(Default)]
struct Pk {
    name: String,
    ty: Vec<Ty>,
    enums: Vec<(String, Vec<String>)>,
    masks: Vec<String>,
    consts: Vec<String>,
    subs: Vec<String>,
    /// packages visible from here
    sees: Vec<usize>,
}
struct G {
    pk: Vec<Pk>,
    cur: usize,
    o: String,
    n: u64,
}
const WORDS: [&str; 24] = ["road", "lane", "tile", "layer", "speed", "node", "link", "level", "count", "width", "area", "name", "mark", "sign", "curve", "side", "gap", "slot", "rate", "kind", "zone", "path", "edge", "size"];
fn pick<'a>(v: &[&'a str]) -> &'a str {
    v[below(v.len() as u64) as usize]
}
fn cap(s: &str) -> String {
    format!("{}{}", s[..1].to_uppercase(), &s[1..])
}
impl G {
    /// a name that does not occur yet
    fn id(&mut self) -> String {
        self.n += 1;
        let n = self.n;
        match below(4) {
            0 => format!("{}{}", pick(&WORDS), n),
            1 => format!("{}{}{}", pick(&WORDS), cap(pick(&WORDS)), n),
            2 => format!("{}_{}_{}", pick(&WORDS), pick(&WORDS), n),
            _ => format!("{}{}X", pick(&WORDS), n),
        }
    }
    fn tname(&mut self) -> String {
        self.n += 1;
        let n = self.n;
        match below(4) {
            0 => format!("{}{}", cap(pick(&WORDS)), n),
            1 => format!("{}{}{}", cap(pick(&WORDS)), cap(pick(&WORDS)), n),
            2 => format!("{}{}Type", cap(pick(&WORDS)), n),
            _ => format!("{}_{}{}", cap(pick(&WORDS)), cap(pick(&WORDS)), n),
        }
    }
    fn noise(&mut self) {
        let s = match below(12) {
            0 => "\n// a line comment; with { braces\n",
            1 => "\n/* block\n comment } */\n",
            2 => "\n/** documentation of what follows */\n",
            4 if chance(1, 2) => "\n// größe, 高さ, 🚗\n",
            3 => "\n\n\t",
            _ => "\n",
        };
        self.o.push_str(s);
    }
    fn see(&self) -> Vec<usize> {
        let mut v = vec![self.cur];
        v.extend(self.pk[self.cur].sees.iter().copied());
        v
    }
    fn int(&mut self) -> String {
        match below(5) {
            0 => format!("bit:{}", range(1, 64)),
            1 => format!("int:{}", range(1, 64)),
            2 => pick(&["varint", "varint16", "varint32", "varint64", "varuint", "varuint16", "varuint32", "varuint64", "varsize"]).to_string(),
            _ => pick(&["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]).to_string(),
        }
    }
    fn lit(&mut self) -> String {
        match below(6) {
            0 => format!("0x{:X}", below(120)),
            1 if chance(1, 40) => format!("{}b", ["0", "1", "101", "11011"][below(4) as usize]),
            2 => format!("0{:o}", below(64)),
            _ => format!("{}", below(100)),
        }
    }
    fn konst(&mut self) -> String {
        let mut all = vec![];
        for p in self.see() {
            all.extend(self.pk[p].consts.iter().cloned());
        }
        if all.is_empty() || chance(1, 2) {
            return self.lit();
        }
        all[below(all.len() as u64) as usize].clone()
    }
    /// an integer expression over constants and the given fields
    fn expr(&mut self, ids: &[String], d: u32) -> String {
        if d == 0 || chance(1, 3) {
            if !ids.is_empty() && chance(2, 3) {
                return ids[below(ids.len() as u64) as usize].clone();
            }
            return self.konst();
        }
        let a = self.expr(ids, d - 1);
        let b = self.expr(ids, d - 1);
        match below(8) {
            0 => format!("({} + {})", a, b),
            1 => format!("{} * {}", a, b),
            2 => format!("({} & {})", a, b),
            3 => format!("({} | {})", a, b),
            4 => format!("({} >> 1)", a),
            5 => format!("({} << 2)", a),
            6 => format!("(({} > {}) ? {} : 1)", a, b, b),
            _ => format!("({} + 1)", a),
        }
    }
    fn cond(&mut self, ids: &[String]) -> String {
        let a = self.expr(ids, 1);
        let b = self.expr(ids, 1);
        let op = pick(&["==", "!=", "<", "<=", ">", ">="]);
        let c = format!("{} {} {}", a, op, b);
        match below(4) {
            0 => format!("!({})", c),
            1 => format!("({}) && ({} > 3)", c, a),
            2 => format!("({}) || ({} < 9)", c, b),
            _ => c,
        }
    }
    /// a type without template arguments or parameters
    fn plain(&mut self) -> String {
        let see = self.see();
        let p = see[below(see.len() as u64) as usize];
        for _ in 0..2 {
            match below(9) {
                0 if !self.pk[p].enums.is_empty() => return self.pk[p].enums[below(self.pk[p].enums.len() as u64) as usize].0.clone(),
                1 if !self.pk[p].masks.is_empty() => return self.pk[p].masks[below(self.pk[p].masks.len() as u64) as usize].clone(),
                2 if !self.pk[p].subs.is_empty() => return self.pk[p].subs[below(self.pk[p].subs.len() as u64) as usize].clone(),
                3 | 4 => {
                    let c: Vec<String> = self.pk[p].ty.iter().filter(|t| t.params == 0 && t.targs == 0).map(|t| t.name.clone()).collect();
                    if !c.is_empty() {
                        return c[below(c.len() as u64) as usize].clone();
                    }
                }
                5 => return pick(&["string", "bool", "float16", "float32", "float64", "extern", "bytes"]).to_string(),
                _ => return self.int(),
            }
        }
        self.int()
    }
    /// a type with its arguments
    fn ty(&mut self, ids: &[String]) -> String {
        let see = self.see();
        let p = see[below(see.len() as u64) as usize];
        let c: Vec<(String, usize, usize)> = self.pk[p].ty.iter().filter(|t| t.params + t.targs > 0).map(|t| (t.name.clone(), t.params, t.targs)).collect();
        if c.is_empty() || chance(2, 3) {
            return self.plain();
        }
        let (mut n, params, targs) = c[below(c.len() as u64) as usize].clone();
        if targs > 0 {
            let mut v = vec![];
            for _ in 0..targs {
                let mut a = self.plain();
                if chance(1, 6) {
                    if let Some((m, _, k)) = c.iter().find(|x| x.1 == 0 && x.2 > 0).cloned() {
                        let mut w = vec![];
                        for _ in 0..k {
                            w.push(self.plain());
                        }
                        a = format!("{}<{}>", m, w.join(", "));
                    }
                }
                v.push(a);
            }
            n = format!("{}<{}>", n, v.join(", "));
        }
        if params > 0 {
            let mut v = vec![];
            for _ in 0..params {
                v.push(if !ids.is_empty() && chance(2, 3) { ids[below(ids.len() as u64) as usize].clone() } else { format!("{}", below(9)) });
            }
            n = format!("{}({})", n, v.join(", "));
        }
        n
    }
    fn compound(&mut self, union: bool) {
        let name = self.tname();
        let targs: Vec<String> = (0..if chance(1, 4) { range(1, 2) } else { 0 }).map(|i| format!("{}T{}", pick(&["ITEM_", "", "X"]), i)).collect();
        let params: Vec<String> = (0..if chance(1, 4) { range(1, 2) } else { 0 }).map(|_| self.id()).collect();
        let mut h = format!("{} {}", if union { "union" } else { "struct" }, name);
        if !targs.is_empty() {
            h += &format!("<{}>", targs.join(", "));
        }
        if !params.is_empty() {
            h += &format!("({})", params.iter().map(|p| format!("uint8 {}", p)).collect::<Vec<_>>().join(", "));
        }
        self.o += &h;
        self.o += if chance(1, 2) { "\n{" } else { " {" };
        // uint8 fields usable in expressions
        let mut ids = params.clone();
        let n = range(1, 6);
        for i in 0..n {
            self.noise();
            let f = self.id();
            if union {
                let t = if !targs.is_empty() && chance(1, 2) { targs[below(targs.len() as u64) as usize].clone() } else { self.ty(&params) };
                let a = if chance(1, 4) { "[]" } else { "" };
                let s = format!("    {} {}{};", t, f, a);
                self.o += &s;
                continue;
            }
            let mut s = String::from("    ");
            match below(10) {
                0 | 1 => {
                    s += &format!("uint8 {}", f);
                    if chance(1, 3) {
                        s += &format!(" = {}", below(100));
                    }
                    ids.push(f.clone());
                }
                2 => s += &format!("bit<{}> {}", self.expr(&ids, 1), f),
                3 if !targs.is_empty() => {
                    let t = &targs[below(targs.len() as u64) as usize];
                    s += &format!("{} {}", t, f);
                    if chance(1, 3) {
                        s += "[]";
                    }
                }
                k => {
                    if k == 9 {
                        s += &format!("align({}): ", [8, 16, 32, 4][below(4) as usize]);
                    }
                    let opt = chance(1, 6);
                    if opt {
                        s += "optional ";
                    }
                    let packed = chance(1, 5);
                    if packed {
                        s += "packed ";
                    }
                    let t = if k == 8 { self.ty(&ids) } else { self.plain() };
                    s += &format!("{} {}", t, f);
                    if packed || chance(1, 4) {
                        match below(4) {
                            0 => s += &format!("[{}]", self.expr(&ids, 1)),
                            _ => s += "[]",
                        }
                    }
                    if !opt && chance(1, 5) {
                        s += &format!(" if {}", self.cond(&ids));
                    }
                }
            }
            s.push(';');
            self.o += &s;
            let _ = i;
        }
        if !ids.is_empty() && chance(1, 4) {
            let f = self.id();
            let e = self.expr(&ids, 2);
            self.o += &format!("\n    function uint32 {}()\n    {{\n        return {};\n    }}", f, e);
        }
        self.o += "\n};";
        self.pk[self.cur].ty.push(Ty { name, params: params.len(), targs: targs.len() });
    }
    fn choice(&mut self) {
        let name = self.tname();
        let p = self.id();
        let see = self.see();
        let mut en = vec![];
        for q in see {
            en.extend(self.pk[q].enums.iter().cloned());
        }
        if !en.is_empty() && chance(1, 2) {
            let e = en[below(en.len() as u64) as usize].clone();
            self.o += &format!("choice {}({} {}) on {}\n{{", name, e.0, p, p);
            for c in &e.1 {
                self.noise();
                let t = self.plain();
                let f = self.id();
                let c = if chance(1, 2) { format!("{}.{}", e.0, c) } else { c.clone() };
                self.o += &format!("    case {}:\n        {} {};", c, t, f);
            }
            self.o += "\n};";
            return;
        }
        self.o += &format!("choice {}(uint8 {}) on {}\n{{", name, p, p);
        for i in 0..range(1, 4) {
            self.noise();
            let more = if chance(1, 4) { format!("    case {}:\n", 100 + i) } else { String::new() };
            let f = self.id();
            if chance(1, 5) {
                self.o += &format!("{}    case {}:\n        ;", more, i);
            } else {
                let t = self.plain();
                self.o += &format!("{}    case {}:\n        {} {}{};", more, i, t, f, if chance(1, 4) { "[]" } else { "" });
            }
        }
        if chance(1, 2) {
            let t = self.plain();
            let f = self.id();
            self.o += &format!("\n    default:\n        {} {};", t, f);
        }
        self.o += "\n};";
        self.pk[self.cur].ty.push(Ty { name, params: 1, targs: 0 });
    }
    fn decl(&mut self) {
        match below(12) {
            0 => {
                let n = self.id().to_uppercase();
                match below(4) {
                    0 => {
                        let t = pick(&["straße", "日本語の道", "a", "", "🚗", "\u{301}é", "plain text"]);
                        self.o += &format!("const string {} = \"{}\";", n, t);
                        return;
                    }
                    1 => {
                        let (t, x) = [("float32", "0.5"), ("float64", "-2.25"), ("bool", "true"), ("int64", "-77"), ("varuint", "300"), ("float16", "1.0")][below(6) as usize];
                        self.o += &format!("const {} {} = {};", t, n, x);
                        return;
                    }
                    _ => {}
                }
                let e = self.expr(&[], 2);
                self.o += &format!("const uint32 {} = {};", n, e);
                self.pk[self.cur].consts.push(n);
            }
            1 => {
                let n = self.tname();
                let mut it = vec![];
                self.o += &format!("enum {} {}\n{{\n", pick(&["uint8", "uint16", "bit:7", "int8", "varuint32", "int32"]), n);
                for i in 0..range(1, 6) {
                    let k = match below(2) {
                        0 => format!("{}_{}", pick(&WORDS).to_uppercase(), self.n + i),
                        _ => format!("{}{}Item", pick(&WORDS), i),
                    };
                    let k = if it.contains(&k) { format!("{}{}", k, self.n + i) } else { k };
                    if i > 0 {
                        self.o += ",\n";
                    }
                    self.o += &format!("    {}", k);
                    if chance(1, 3) {
                        self.o += &format!(" = {}", 10 * i + below(10));
                    }
                    it.push(k);
                }
                // mixed explicit and implicit values never collide: they only grow
                self.o += if chance(1, 3) { ",\n};" } else { "\n};" };
                self.n += 10;
                self.pk[self.cur].enums.push((n, it));
            }
            2 => {
                let n = self.tname();
                self.o += &format!("bitmask {} {}\n{{\n", pick(&["uint8", "uint16", "uint32"]), n);
                let m = range(1, 5);
                for i in 0..m {
                    self.o += &format!("    {}_{}{}", pick(&WORDS).to_uppercase(), i, if i + 1 < m { ",\n" } else { "" });
                }
                self.o += "\n};";
                self.pk[self.cur].masks.push(n);
            }
            3 => {
                let t = self.plain();
                let n = self.tname();
                self.o += &format!("subtype {} {};", t, n);
                self.pk[self.cur].subs.push(n);
            }
            4 | 5 => self.choice(),
            6 => self.compound(true),
            7 => {
                let c: Vec<(String, usize)> = self.see().iter().flat_map(|p| self.pk[*p].ty.iter()).filter(|t| t.targs > 0 && t.params == 0).map(|t| (t.name.clone(), t.targs)).collect();
                if c.is_empty() {
                    return self.compound(false);
                }
                let (m, k) = c[below(c.len() as u64) as usize].clone();
                let n = self.tname();
                let a: Vec<String> = (0..k).map(|_| self.plain()).collect();
                self.o += &format!("instantiate {}<{}> {};", m, a.join(", "), n);
                self.pk[self.cur].ty.push(Ty { name: n, params: 0, targs: 0 });
            }
            _ => self.compound(false),
        }
    }
}
/// Random packages that use each other.
pub fn random() -> Tree {
    let mut g = G { pk: vec![], cur: 0, o: String::new(), n: 0 };
    let mut t: Tree = vec![];
    let n = range(1, 4) as usize;
    let mut names: Vec<String> = vec![];
    for i in 0..n {
        let mut p = match below(3) {
            0 if i > 0 => format!("{}.{}", names[below(i as u64) as usize], pick(&WORDS)),
            1 => format!("{}.{}{}", pick(&WORDS), cap(pick(&WORDS)), i),
            _ => format!("{}{}", pick(&WORDS), i),
        };
        while names.contains(&p) {
            p.push('x');
        }
        names.push(p.clone());
        let mut pk = Pk { name: p.clone(), ..Default::default() };
        g.o = String::new();
        if chance(1, 8) {
            g.o += "zserio_compatibility_version(\"2.4.2\");\n";
        }
        if chance(1, 4) {
            g.o += "/* head */\n";
        }
        g.o += &format!("package {};\n\n", p);
        for k in 0..i {
            if !chance(1, 2) {
                continue;
            }
            let ty: Vec<String> = g.pk[k].ty.iter().map(|t| t.name.clone()).collect();
            if chance(2, 3) || ty.is_empty() {
                g.o += &format!("import {}.*;\n", names[k]);
            } else {
                for t in ty {
                    g.o += &format!("import {}.{};\n", names[k], t);
                }
            }
            pk.sees.push(k);
        }
        // a cycle of imports is legal
        let cyc = i + 1 < n && chance(1, 6);
        if cyc {
            g.o += "IMPORT_CYCLE\n";
        }
        g.pk.push(pk);
        g.cur = i;
        for _ in 0..range(1, 6) {
            g.noise();
            g.decl();
        }
        g.o.push('\n');
        let file = match below(4) {
            0 => format!("{}.zs", p.replace('.', "/")),
            1 => format!("{}.zserio", p.replace('.', "_")),
            2 => format!("dir{}/{}.ZS", i, p),
            _ => format!("{}.zs", p),
        };
        t.push((file, g.o.clone().into_bytes()));
    }
    for f in t.iter_mut() {
        let s = String::from_utf8(f.1.clone()).unwrap();
        f.1 = s.replace("IMPORT_CYCLE", &format!("import {}.*;", names[n - 1])).into_bytes();
    }
    let _ = g.pk.iter().map(|p| p.name.len()).sum::<usize>();
    t
}

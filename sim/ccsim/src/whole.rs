//! What bindings must at least contain: every definition of the schema and every field of it.
use crate::comp::{Files, Tree};
use simmodel::ast::{self, Decl, Package, TypeRef};
use std::collections::HashSet;

/// Letters and digits only: how words are joined is up to the compiler.
fn norm(n: &str) -> String {
    n.chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect()
}
fn same(ident: &str, name: &str) -> bool {
    let (a, b) = (norm(ident), norm(name));
    a == b || a == format!("z{}", b)
}
fn path_is(path: &str, pkg: &str, last: &str) -> bool {
    let v: Vec<&str> = path.split('/').collect();
    let w: Vec<&str> = pkg.split('.').chain([last]).collect();
    v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| same(a, b))
}
/// Pairs of neighbouring words.
fn words(text: &str) -> Vec<(&str, &str)> {
    let mut v = vec![];
    let mut last = "";
    for w in text.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()) {
        v.push((last, w));
        last = w;
    }
    v
}
pub fn parse(t: &Tree) -> Option<Vec<Package>> {
    let mut v = vec![];
    for (_, b) in t {
        v.push(ast::parse(std::str::from_utf8(b).ok()?).ok()?);
    }
    Some(v)
}
/// A reason why the tree is no schema although every file follows the grammar.
pub fn broken(pk: &[Package]) -> Option<String> {
    let mut seen = HashSet::new();
    for p in pk {
        if !seen.insert(&p.name) {
            return Some(format!("package {} is declared twice", p.name));
        }
    }
    for p in pk {
        for (i, _) in &p.imports {
            if !seen.contains(i) {
                return Some(format!("{} imports the unknown package {}", p.name, i));
            }
        }
    }
    let mut names: HashSet<&str> = HashSet::new();
    for p in pk {
        let mut own = HashSet::new();
        for d in &p.decls {
            if !own.insert(d.name()) {
                return Some(format!("{}.{} is defined twice", p.name, d.name()));
            }
            names.insert(d.name());
        }
    }
    for p in pk {
        for d in &p.decls {
            let (tp, fields) = match d {
                Decl::Struct(c) | Decl::Choice(c) | Decl::Union(c) => (&c.tparams, &c.fields),
                _ => continue,
            };
            if !tp.is_empty() {
                continue;
            }
            for f in fields {
                let mut q: Vec<&TypeRef> = vec![&f.ty];
                while let Some(t) = q.pop() {
                    if !t.builtin && !t.path.last().map(|n| names.contains(n.as_str())).unwrap_or(true) {
                        return Some(format!("{}.{}.{}: unknown type {:?}", p.name, d.name(), f.name, t.path));
                    }
                    q.extend(t.targs.iter());
                }
            }
        }
    }
    None
}
/// The first definition or field the bindings lack.
pub fn lacking(pk: &[Package], out: &Files) -> Option<String> {
    for p in pk {
        for d in &p.decls {
            // (word before, name)
            let mut want: Vec<(&str, &str)> = vec![];
            match d {
                Decl::Struct(c) | Decl::Choice(c) | Decl::Union(c) => {
                    if !c.tparams.is_empty() {
                        continue;
                    }
                    want.push(("struct", &c.name));
                    want.extend(c.fields.iter().map(|f| ("pub", f.name.as_str())));
                    want.extend(c.funcs.iter().map(|f| ("fn", f.name.as_str())));
                }
                Decl::Enum(_, n, items) => {
                    want.push(("", n));
                    want.extend(items.iter().map(|i| ("", i.0.as_str())));
                }
                Decl::Bitmask(_, n, items) => {
                    want.push(("", n));
                    want.extend(items.iter().map(|i| ("", i.0.as_str())));
                }
                Decl::Const(..) => {}
                Decl::Subtype(t, n) => {
                    if t.targs.is_empty() {
                        want.push(("", n));
                    }
                }
                Decl::Instantiate(_, n) => want.push(("", n)),
                _ => continue,
            }
            let Some((f, text)) = out.iter().find(|(f, _)| path_is(f.trim_end_matches(".rs"), &p.name, d.name())) else {
                return Some(format!("{}.{}: there is no file for it", p.name, d.name()));
            };
            let text = String::from_utf8_lossy(text);
            let w = words(&text);
            for (b, n) in want {
                if !w.iter().any(|x| (b.is_empty() || x.0 == b) && same(x.1, n)) {
                    return Some(format!("{}.{}: {} has no {} {:?}", p.name, d.name(), f, b, n));
                }
            }
            let m = out.iter().find(|(f, _)| path_is(f.trim_end_matches(".rs"), &p.name, "mod"));
            if !m.map(|t| words(&String::from_utf8_lossy(t.1)).iter().any(|x| x.0 == "mod" && same(x.1, d.name()))).unwrap_or(false) {
                return Some(format!("{}.{}: no mod.rs declares it", p.name, d.name()));
            }
        }
    }
    None
}

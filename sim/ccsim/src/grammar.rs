//! Recogniser of the zserio schema language (version of the grammar the compiler documents),
//! independent of the compiler's generated lexer and parser: longest-match lexer and Earley parser.
use std::collections::{HashMap, HashSet};

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Verdict {
    Valid,
    /// no schema: why, and where
    Invalid(&'static str, usize),
    /// lexical corner on which implementations differ
    Unsure,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Sym {
    T(u16),
    N(u16),
}
pub struct Grammar {
    /// fixed tokens by text
    fixed: HashMap<String, u16>,
    tok: HashMap<String, u16>,
    rules: Vec<Vec<Vec<Sym>>>,
    nullable: Vec<bool>,
}
const EXTRA: [&str; 10] = ["BOOL_LITERAL", "STRING_LITERAL", "BINARY_LITERAL", "OCTAL_LITERAL", "HEXADECIMAL_LITERAL", "DOUBLE_LITERAL", "FLOAT_LITERAL", "DECIMAL_LITERAL", "ID", "EOF"];

struct B {
    tok: HashMap<String, u16>,
    names: HashMap<String, u16>,
    rules: Vec<Vec<Vec<Sym>>>,
}
impl B {
    fn fresh(&mut self) -> u16 {
        self.rules.push(vec![]);
        self.rules.len() as u16 - 1
    }
    fn rule(&mut self, n: &str) -> u16 {
        if let Some(i) = self.names.get(n) {
            return *i;
        }
        let i = self.fresh();
        self.names.insert(n.to_string(), i);
        i
    }
    /// alternatives up to the end or a closing parenthesis
    fn alts(&mut self, t: &[String], i: &mut usize) -> Vec<Vec<Sym>> {
        let mut all = vec![vec![]];
        while *i < t.len() && t[*i] != ")" {
            if t[*i] == "|" {
                *i += 1;
                all.push(vec![]);
                continue;
            }
            let mut s = if t[*i] == "(" {
                *i += 1;
                let a = self.alts(t, i);
                assert_eq!(t[*i], ")");
                let r = self.fresh();
                self.rules[r as usize] = a;
                Sym::N(r)
            } else if t[*i].chars().next().unwrap().is_ascii_uppercase() {
                Sym::T(self.tok[&t[*i]])
            } else {
                Sym::N(self.rule(&t[*i].clone()))
            };
            *i += 1;
            if *i < t.len() && ["?", "*", "+"].contains(&t[*i].as_str()) {
                let r = self.fresh();
                self.rules[r as usize] = match t[*i].as_str() {
                    "?" => vec![vec![], vec![s]],
                    "*" => vec![vec![], vec![Sym::N(r), s]],
                    _ => vec![vec![s], vec![Sym::N(r), s]],
                };
                s = Sym::N(r);
                *i += 1;
            }
            all.last_mut().unwrap().push(s);
        }
        all
    }
}
impl Grammar {
    pub fn new() -> Grammar {
        let mut fixed = HashMap::new();
        let mut tok = HashMap::new();
        for l in include_str!("tokens.txt").lines() {
            let (n, t) = l.split_once(' ').unwrap();
            let i = tok.len() as u16;
            tok.insert(n.to_string(), i);
            fixed.insert(t.to_string(), i);
        }
        for n in EXTRA {
            let i = tok.len() as u16;
            tok.insert(n.to_string(), i);
        }
        let mut b = B { tok: tok.clone(), names: HashMap::new(), rules: vec![] };
        for l in include_str!("schema.g").lines() {
            let mut s = String::new();
            for c in l.chars() {
                if "()?*+|".contains(c) {
                    s.push(' ');
                    s.push(c);
                    s.push(' ');
                } else {
                    s.push(c);
                }
            }
            let t: Vec<String> = s.split_whitespace().map(|x| x.to_string()).collect();
            let r = b.rule(&t[0]);
            let body = &t[2..t.len() - 1];
            let mut i = 0;
            let a = b.alts(body, &mut i);
            b.rules[r as usize] = a;
        }
        let n = b.rules.len();
        let mut nullable = vec![false; n];
        loop {
            let mut more = false;
            for r in 0..n {
                if !nullable[r] && b.rules[r].iter().any(|a| a.iter().all(|s| matches!(s, Sym::N(x) if nullable[*x as usize]))) {
                    nullable[r] = true;
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        assert!(b.rules.iter().all(|r| !r.is_empty()));
        assert_eq!(b.names["packageDeclaration"], 0);
        Grammar { fixed, tok, rules: b.rules, nullable }
    }
    fn lex(&self, t: &[u8]) -> Result<Vec<(u16, usize)>, Verdict> {
        let mut out = vec![];
        let mut i = 0;
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        while i < t.len() {
            let c = t[i];
            let r = &t[i..];
            if b"\r\n\x0c\t ".contains(&c) {
                i += 1;
                continue;
            }
            if r.starts_with(b"//") {
                i += r.iter().position(|c| b"\r\n\x0c".contains(c)).unwrap_or(r.len());
                continue;
            }
            if r.starts_with(b"/**/") {
                return Err(Verdict::Unsure);
            }
            if r.starts_with(b"/*") {
                if let Some(e) = r[2..].windows(2).position(|w| w == b"*/") {
                    i += e + 4;
                    continue;
                }
            }
            if c == b'"' {
                let n = string_end(r).ok_or(Verdict::Invalid("string", i))?;
                out.push((self.tok["STRING_LITERAL"], i));
                i += n;
                continue;
            }
            if c.is_ascii_digit() || (c == b'.' && r.get(1).map(|c| c.is_ascii_digit()).unwrap_or(false)) {
                let (n, k) = number(r);
                let w = r.iter().position(|c| !word(*c)).unwrap_or(r.len());
                if w > n {
                    return Err(Verdict::Invalid("number", i));
                }
                out.push((self.tok[k], i));
                i += n;
                continue;
            }
            if word(c) || c == b'@' {
                let n = 1 + r[1..].iter().position(|c| !word(*c)).unwrap_or(r.len() - 1);
                let s = std::str::from_utf8(&r[..n]).unwrap();
                if let Some(k) = self.fixed.get(s) {
                    out.push((*k, i));
                    i += n;
                } else if s == "true" || s == "false" {
                    out.push((self.tok["BOOL_LITERAL"], i));
                    i += n;
                } else if c == b'@' {
                    // a shorter keyword may match: @indexes is @index es
                    let k = ["@deprecated", "@removed", "@index"].iter().find(|k| s.starts_with(**k)).ok_or(Verdict::Invalid("character", i))?;
                    out.push((self.fixed[*k], i));
                    i += k.len();
                } else {
                    out.push((self.tok["ID"], i));
                    i += n;
                }
                continue;
            }
            let two = r.get(..2).and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| self.fixed.get(x));
            if let Some(k) = two {
                out.push((*k, i));
                i += 2;
                continue;
            }
            let one = std::str::from_utf8(&r[..1]).ok().and_then(|x| self.fixed.get(x));
            match one {
                Some(k) => out.push((*k, i)),
                None => return Err(Verdict::Invalid("character", i)),
            }
            i += 1;
        }
        out.push((self.tok["EOF"], t.len()));
        Ok(out)
    }
    pub fn check(&self, text: &[u8]) -> Verdict {
        let toks = match self.lex(text) {
            Ok(t) => t,
            Err(v) => return v,
        };
        if toks.len() == 1 {
            // the grammar has no objection, but a file that lost all of its content is no schema
            return Verdict::Invalid("end of a file without content", 0);
        }
        // Earley items: (rule, alternative, dot, origin)
        type It = (u16, u16, u16, u32);
        let mut sets: Vec<Vec<It>> = Vec::with_capacity(toks.len() + 1);
        // per set: items waiting for a nonterminal
        let mut wait: Vec<HashMap<u16, Vec<It>>> = Vec::with_capacity(toks.len() + 1);
        let start: Vec<It> = (0..self.rules[0].len()).map(|a| (0, a as u16, 0, 0)).collect();
        sets.push(start);
        for k in 0..=toks.len() {
            let mut set = std::mem::take(&mut sets[k]);
            let mut seen: HashSet<It> = set.iter().copied().collect();
            let mut w: HashMap<u16, Vec<It>> = HashMap::new();
            let mut next: Vec<It> = vec![];
            let mut nseen = HashSet::new();
            let mut i = 0;
            while i < set.len() {
                let it = set[i];
                i += 1;
                let body = &self.rules[it.0 as usize][it.1 as usize];
                match body.get(it.2 as usize) {
                    None => {
                        let parents: Vec<It> = if it.3 as usize == k { w.get(&it.0).cloned().unwrap_or_default() } else { wait[it.3 as usize].get(&it.0).cloned().unwrap_or_default() };
                        for p in parents {
                            let q = (p.0, p.1, p.2 + 1, p.3);
                            if seen.insert(q) {
                                set.push(q);
                            }
                        }
                    }
                    Some(Sym::N(r)) => {
                        let e = w.entry(*r).or_default();
                        let first = e.is_empty();
                        e.push(it);
                        if first {
                            for a in 0..self.rules[*r as usize].len() {
                                let q = (*r, a as u16, 0, k as u32);
                                if seen.insert(q) {
                                    set.push(q);
                                }
                            }
                        }
                        if self.nullable[*r as usize] {
                            let q = (it.0, it.1, it.2 + 1, it.3);
                            if seen.insert(q) {
                                set.push(q);
                            }
                        }
                    }
                    Some(Sym::T(t)) => {
                        if k < toks.len() && toks[k].0 == *t {
                            let q = (it.0, it.1, it.2 + 1, it.3);
                            if nseen.insert(q) {
                                next.push(q);
                            }
                        }
                    }
                }
            }
            if k == toks.len() {
                let ok = set.iter().any(|it| it.0 == 0 && it.3 == 0 && it.2 as usize == self.rules[0][it.1 as usize].len());
                return if ok { Verdict::Valid } else { Verdict::Invalid("end", text.len()) };
            }
            if next.is_empty() {
                return Verdict::Invalid("token", toks[k].1);
            }
            sets[k] = set;
            wait.push(w);
            sets.push(next);
        }
        unreachable!()
    }
}
/// Length of a string literal.
fn string_end(r: &[u8]) -> Option<usize> {
    let hex = |i: usize, n: usize| (0..n).all(|k| r.get(i + k).map(|c| c.is_ascii_hexdigit()).unwrap_or(false));
    let mut i = 1;
    loop {
        match r.get(i)? {
            b'"' => return Some(i + 1),
            b'\r' | b'\n' | 0x0c => return None,
            b'\\' => match r.get(i + 1)? {
                b'"' | b'\\' | b'r' | b'n' | b'f' | b't' => i += 2,
                b'u' if hex(i + 2, 4) => i += 6,
                b'x' if hex(i + 2, 2) => i += 4,
                b'0' if r.get(i + 2).map(|c| (b'0'..=b'7').contains(c)).unwrap_or(false) => i += 3,
                _ => return None,
            },
            _ => i += 1,
        }
    }
}
/// Longest numeric literal.
fn number(r: &[u8]) -> (usize, &'static str) {
    let run = |i: usize, f: &dyn Fn(u8) -> bool| r[i.min(r.len())..].iter().position(|c| !f(*c)).unwrap_or(r.len() - i.min(r.len()));
    let dig = |c: u8| c.is_ascii_digit();
    let mut best = (0, "");
    let mut take = |n: usize, k: &'static str| {
        if n > best.0 {
            best = (n, k);
        }
    };
    let bits = run(0, &|c| c == b'0' || c == b'1');
    if bits > 0 && matches!(r.get(bits), Some(b'b' | b'B')) {
        take(bits + 1, "BINARY_LITERAL");
    }
    if r[0] == b'0' {
        let n = run(1, &|c| (b'0'..=b'7').contains(&c));
        if n > 0 {
            take(1 + n, "OCTAL_LITERAL");
        }
        if matches!(r.get(1), Some(b'x' | b'X')) {
            let n = run(2, &|c| c.is_ascii_hexdigit());
            if n > 0 {
                take(2 + n, "HEXADECIMAL_LITERAL");
            }
        }
    }
    let int = run(0, &dig);
    let exp = |i: usize| {
        if matches!(r.get(i), Some(b'e' | b'E')) {
            let s = if matches!(r.get(i + 1), Some(b'+' | b'-')) { 2 } else { 1 };
            let n = run(i + s, &dig);
            if n > 0 {
                return s + n;
            }
        }
        0
    };
    let mut dbl = 0;
    if int > 0 && exp(int) > 0 {
        dbl = int + exp(int);
    }
    if r.get(int) == Some(&b'.') {
        let f = run(int + 1, &dig);
        if int > 0 || f > 0 {
            let n = int + 1 + f;
            dbl = n + exp(n);
        }
    }
    if dbl > 0 {
        take(dbl, "DOUBLE_LITERAL");
        if matches!(r.get(dbl), Some(b'f' | b'F')) {
            take(dbl + 1, "FLOAT_LITERAL");
        }
    }
    if int > 0 {
        take(if r[0] == b'0' { 1 } else { int }, "DECIMAL_LITERAL");
    }
    best
}

//! Minimal JSON.
use std::collections::BTreeMap;
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    U(u64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}
impl J {
    pub fn obj() -> J {
        J::O(BTreeMap::new())
    }
    pub fn with(mut self, k: &str, v: impl Into<J>) -> J {
        self.set(k, v);
        self
    }
    pub fn set(&mut self, k: &str, v: impl Into<J>) {
        if let J::O(m) = self {
            m.insert(k.to_string(), v.into());
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => "",
        }
    }
    pub fn u64(&self) -> u64 {
        match self {
            J::U(u) => *u,
            J::Num(f) => *f as u64,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => &[],
        }
    }
    pub fn show(&self, ind: usize) -> String {
        let mut s = String::new();
        self.put(&mut s, ind, 0);
        s
    }
    fn put(&self, s: &mut String, ind: usize, d: usize) {
        let nl = |s: &mut String, d: usize| {
            if ind > 0 {
                s.push('\n');
                for _ in 0..ind * d {
                    s.push(' ')
                }
            }
        };
        match self {
            J::Null => s.push_str("null"),
            J::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
            J::Num(f) => s.push_str(&format!("{}", f)),
            J::U(u) => s.push_str(&u.to_string()),
            J::S(x) => quote(x, s),
            J::A(a) => {
                let flat = a.iter().all(|x| matches!(x, J::U(_) | J::Num(_)));
                s.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    if !flat {
                        nl(s, d + 1);
                    }
                    x.put(s, ind, d + 1);
                }
                if !flat && !a.is_empty() {
                    nl(s, d);
                }
                s.push(']');
            }
            J::O(m) => {
                s.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    nl(s, d + 1);
                    quote(k, s);
                    s.push_str(": ");
                    x.put(s, ind, d + 1);
                }
                if !m.is_empty() {
                    nl(s, d);
                }
                s.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Option<J> {
        let b = t.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        Some(v)
    }
}
fn quote(x: &str, s: &mut String) {
    s.push('"');
    for c in x.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            c if (c as u32) < 32 => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1
    }
}
fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match *b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b'}' => {
                        *p += 1;
                        return Some(J::O(m));
                    }
                    b',' => *p += 1,
                    _ => {
                        let J::S(k) = val(b, p)? else { return None };
                        ws(b, p);
                        if *b.get(*p)? != b':' {
                            return None;
                        }
                        *p += 1;
                        m.insert(k, val(b, p)?);
                    }
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut m = vec![];
            loop {
                ws(b, p);
                match *b.get(*p)? {
                    b']' => {
                        *p += 1;
                        return Some(J::A(m));
                    }
                    b',' => *p += 1,
                    _ => m.push(val(b, p)?),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut o = vec![];
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => return Some(J::S(String::from_utf8_lossy(&o).into_owned())),
                    b'\\' => {
                        let e = *b.get(*p)?;
                        *p += 1;
                        match e {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'r' => o.push(b'\r'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                *p += 4;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?).unwrap_or('?');
                                let mut t = [0; 4];
                                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            }
                            e => o.push(e),
                        }
                    }
                    c => o.push(c),
                }
            }
        }
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1
            }
            let t = std::str::from_utf8(&b[s..*p]).ok()?;
            t.parse::<u64>().map(J::U).ok().or_else(|| t.parse::<f64>().map(J::Num).ok())
        }
    }
}
impl From<&str> for J {
    fn from(s: &str) -> J {
        J::S(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::S(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::U(s)
    }
}
impl From<f64> for J {
    fn from(s: f64) -> J {
        J::Num(s)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::Bool(s)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(s: Vec<T>) -> J {
        J::A(s.into_iter().map(|x| x.into()).collect())
    }
}
impl From<BTreeMap<String, u64>> for J {
    fn from(s: BTreeMap<String, u64>) -> J {
        J::O(s.into_iter().map(|(k, v)| (k, J::U(v))).collect())
    }
}

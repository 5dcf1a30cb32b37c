//! Generic values of schema types.
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    Absent,
    Bool(bool),
    Int(i128),
    /// float16 and float32, as f32 bits
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    Ext(u32, Vec<u8>),
    Comp(Box<CompVal>),
    Arr(Vec<Value>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct CompVal {
    pub ty: usize,
    pub params: Vec<Value>,
    /// struct: every field; choice and union: every alternative, inactive ones Absent
    pub fields: Vec<Value>,
    /// union: index of the active alternative
    pub sel: Option<u32>,
}

impl Value {
    pub fn int(&self) -> Result<i128, String> {
        match self {
            Value::Int(i) => Ok(*i),
            Value::Bool(b) => Ok(*b as i128),
            v => Err(format!("not an integer: {:?}", v)),
        }
    }
    pub fn comp(&self) -> &CompVal {
        match self {
            Value::Comp(c) => c,
            _ => panic!("not a compound"),
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s, 400);
        s
    }
    fn show_to(&self, s: &mut String, max: usize) {
        if s.len() > max {
            if !s.ends_with("...") {
                s.push_str("...");
            }
            return;
        }
        match self {
            Value::Absent => s.push('-'),
            Value::Bool(b) => {
                let _ = write!(s, "{}", b);
            }
            Value::Int(i) => {
                let _ = write!(s, "{}", i);
            }
            Value::F32(b) => {
                let _ = write!(s, "{:?}f", f32::from_bits(*b));
            }
            Value::F64(b) => {
                let _ = write!(s, "{:?}d", f64::from_bits(*b));
            }
            Value::Str(x) => {
                let t: String = x.chars().take(24).collect();
                let _ = write!(s, "{:?}", t);
                if t.len() < x.len() {
                    let _ = write!(s, "..{}B", x.len());
                }
            }
            Value::Bytes(b) => {
                let _ = write!(s, "bytes[{}]", b.len());
            }
            Value::Ext(n, _) => {
                let _ = write!(s, "extern[{} bits]", n);
            }
            Value::Arr(a) => {
                let _ = write!(s, "{}[", a.len());
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    if s.len() > max {
                        s.push_str("...");
                        break;
                    }
                    x.show_to(s, max);
                }
                s.push(']');
            }
            Value::Comp(c) => {
                s.push('{');
                if let Some(k) = c.sel {
                    let _ = write!(s, "#{}:", k);
                }
                let mut first = true;
                for x in &c.fields {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    x.show_to(s, max);
                }
                s.push('}');
            }
        }
    }
}

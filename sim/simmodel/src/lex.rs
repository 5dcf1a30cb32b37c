//! Lexer of the zserio schema language (the subset the corpus uses, with every keyword reserved).
#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Id(String),
    Kw(&'static str),
    Int(i128),
    Float(f64),
    Str(String),
    P(&'static str),
    /// `//@ ...` generator annotation, attached to the next field
    Ann(String),
    Eof,
}

pub const KEYWORDS: &[&str] = &[
    "align", "bit", "bitmask", "bool", "bytes", "case", "choice", "const", "default", "deprecated", "enum", "explicit",
    "extend", "extern", "false", "float16", "float32", "float64", "function", "if", "implicit", "import",
    "instantiate", "int", "int16", "int32", "int64", "int8", "isset", "lengthof", "numbits", "on", "optional",
    "package", "packed", "pubsub", "publish", "removed", "return", "rule", "rule_group", "service", "sql",
    "sql_database", "sql_table", "sql_virtual", "sql_without_rowid", "string", "struct", "subscribe", "subtype",
    "topic", "true", "uint16", "uint32", "uint64", "uint8", "union", "using", "valueof", "varint", "varint16",
    "varint32", "varint64", "varsize", "varuint", "varuint16", "varuint32", "varuint64", "zserio_compatibility_version",
];

const PUNCT: &[&str] = &[
    "<<", "<=", ">=", "==", "!=", "&&", "||", "@index", "{", "}", "(", ")", "[", "]", "<", ">", ";", ":", ",", ".", "=", "+", "-",
    "*", "/", "%", "!", "~", "&", "^", "|", "?",
];

pub fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    'outer: while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 0x0c {
            i += 1;
            continue;
        }
        if b[i..].starts_with(b"//") {
            let st = i;
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            if b[st..].starts_with(b"//@") {
                out.push(Tok::Ann(s[st + 3..i].trim().to_string()));
            }
            continue;
        }
        if b[i..].starts_with(b"/*") {
            i += 2;
            loop {
                if i + 1 >= b.len() {
                    return Err("unterminated comment".into());
                }
                if b[i] == b'*' && b[i + 1] == b'/' {
                    i += 2;
                    break;
                }
                i += 1;
            }
            continue;
        }
        if c == b'"' {
            let mut v = vec![];
            i += 1;
            loop {
                if i >= b.len() || b[i] == b'\n' {
                    return Err("unterminated string".into());
                }
                if b[i] == b'\\' {
                    i += 1;
                    if i >= b.len() {
                        return Err("unterminated string".into());
                    }
                    v.push(b[i]);
                    i += 1;
                    continue;
                }
                if b[i] == b'"' {
                    i += 1;
                    break;
                }
                v.push(b[i]);
                i += 1;
            }
            out.push(Tok::Str(String::from_utf8(v).map_err(|e| e.to_string())?));
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            if b[i..].starts_with(b"0x") || b[i..].starts_with(b"0X") {
                i += 2;
                let h = i;
                while i < b.len() && b[i].is_ascii_hexdigit() {
                    i += 1;
                }
                out.push(Tok::Int(i128::from_str_radix(&s[h..i], 16).map_err(|e| e.to_string())?));
                continue;
            }
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            if i < b.len() && (b[i] == b'b' || b[i] == b'B') && b[st..i].iter().all(|c| *c == b'0' || *c == b'1') {
                out.push(Tok::Int(i128::from_str_radix(&s[st..i], 2).map_err(|e| e.to_string())?));
                i += 1;
                continue;
            }
            if i + 1 < b.len() && b[i] == b'.' && b[i + 1].is_ascii_digit() {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                let f = s[st..i].parse::<f64>().map_err(|e| e.to_string())?;
                if i < b.len() && b[i] == b'f' {
                    i += 1;
                }
                out.push(Tok::Float(f));
                continue;
            }
            let txt = &s[st..i];
            if txt.len() > 1 && txt.starts_with('0') {
                out.push(Tok::Int(i128::from_str_radix(txt, 8).map_err(|e| e.to_string())?));
            } else {
                out.push(Tok::Int(txt.parse::<i128>().map_err(|e| e.to_string())?));
            }
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            let w = &s[st..i];
            if let Some(k) = KEYWORDS.iter().find(|k| **k == w) {
                out.push(Tok::Kw(k));
            } else {
                out.push(Tok::Id(w.to_string()));
            }
            continue;
        }
        for p in PUNCT {
            if b[i..].starts_with(p.as_bytes()) {
                out.push(Tok::P(p));
                i += p.len();
                continue 'outer;
            }
        }
        return Err(format!("unexpected byte {:#x} at {}", c, i));
    }
    out.push(Tok::Eof);
    Ok(out)
}

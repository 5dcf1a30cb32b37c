//! Names of generated items, as documented for the generated bindings.
fn reserved(n: &str) -> &str {
    match n.to_ascii_lowercase().as_str() {
        "type" => "z_type",
        "struct" => "z_struct",
        "self" => "z_self",
        _ => n,
    }
}
/// snake_case where digits form their own word: `boValue1` -> `bo_value_1`
pub fn snake(n: &str) -> String {
    let n = reserved(n);
    let cs: Vec<char> = n.chars().collect();
    let mut out = String::new();
    for i in 0..cs.len() {
        let c = cs[i];
        if c == '_' {
            if !out.is_empty() && !out.ends_with('_') {
                out.push('_');
            }
            continue;
        }
        if i > 0 {
            let p = cs[i - 1];
            let nxt = cs.get(i + 1).copied().unwrap_or(' ');
            let brk = (c.is_ascii_uppercase() && (p.is_ascii_lowercase() || (p.is_ascii_uppercase() && nxt.is_ascii_lowercase())))
                || (c.is_ascii_digit() && !p.is_ascii_digit() && p != '_')
                || (!c.is_ascii_digit() && p.is_ascii_digit());
            if brk && !out.ends_with('_') {
                out.push('_');
            }
        }
        out.push(c.to_ascii_lowercase());
    }
    out
}
/// PascalCase of an identifier
pub fn pascal(n: &str) -> String {
    let n = reserved(n);
    let cs: Vec<char> = n.chars().collect();
    let mut out = String::new();
    let mut up = true;
    for i in 0..cs.len() {
        let c = cs[i];
        if c == '_' {
            up = true;
            continue;
        }
        if c.is_ascii_digit() {
            out.push(c);
            up = false;
            continue;
        }
        if i > 0 {
            let p = cs[i - 1];
            let nxt = cs.get(i + 1).copied().unwrap_or(' ');
            if c.is_ascii_uppercase() && (p.is_ascii_lowercase() || (p.is_ascii_uppercase() && nxt.is_ascii_lowercase())) {
                up = true;
            }
        }
        if up {
            out.push(c.to_ascii_uppercase());
        } else {
            out.push(c.to_ascii_lowercase());
        }
        up = false;
    }
    out
}

//! Embeds the schema trees.
use std::fmt::Write;
use std::path::{Path, PathBuf};

fn zs(d: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            zs(&e, out);
        } else if e.extension().map(|x| x == "zs").unwrap_or(false) {
            out.push(e);
        }
    }
}
fn main() {
    let mut s = String::new();
    for (name, dir) in [("CORPUS", "../corpus"), ("REF", "../ref")] {
        println!("cargo:rerun-if-changed={dir}");
        let mut v = vec![];
        zs(Path::new(dir), &mut v);
        writeln!(s, "pub static {name}: &[(&str, &str)] = &[").unwrap();
        for f in v {
            let t = std::fs::read_to_string(&f).unwrap();
            writeln!(s, "({:?}, {:?}),", f.strip_prefix(dir).unwrap().to_str().unwrap(), t).unwrap();
        }
        s.push_str("];\n");
    }
    println!("cargo:rerun-if-changed=build.rs");
    std::fs::write(PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("trees.rs"), s).unwrap();
}

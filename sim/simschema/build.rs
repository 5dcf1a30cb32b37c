//! Runs the real schema compiler over the corpus and writes the glue between generated types and model values.
use simmodel::model::*;
use simmodel::names::*;
use std::fmt::Write;
use std::path::Path;

// the schema compiler linked into this script may be instrumented
macro_rules! stubs { ($($n:ident)*) => { $( #[no_mangle] pub extern "C" fn $n(_a: *const u8, _b: *const u8) {} )* } }
stubs!(__sanitizer_cov_trace_pc_guard_init __sanitizer_cov_trace_pc_guard
  __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
  __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

fn zs_files(d: &Path, out: &mut Vec<std::path::PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for e in es {
        if e.is_dir() {
            zs_files(&e, out);
        } else if e.extension().map(|x| x == "zs").unwrap_or(false) {
            out.push(e);
        }
    }
}

fn main() {
    let root = Path::new("../corpus");
    println!("cargo:rerun-if-changed=../corpus");
    println!("cargo:rerun-if-changed=build.rs");
    let _ = std::fs::remove_dir_all("src/bindings");
    std::fs::create_dir_all("src/bindings").unwrap();
    let mut files = vec![];
    zs_files(root, &mut files);
    let mut pkgs = vec![];
    let mut texts = String::from("pub static CORPUS: &[(&str, &str)] = &[\n");
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap();
        pkgs.push(simmodel::ast::parse(&t).unwrap_or_else(|e| panic!("{}: {}", f.display(), e)));
        writeln!(texts, "({:?}, {:?}),", f.strip_prefix(root).unwrap().to_str().unwrap(), t).unwrap();
    }
    texts.push_str("];\n");
    let m = simmodel::model::build(&pkgs).unwrap();

    let done = std::panic::catch_unwind(|| {
        let mut model = zserio_rs_build::Model::from_filesystem(root);
        model.evaluate();
        zserio_rs_build::generate_model(&mut model, Path::new("src/bindings"), "bindings");
    });
    if done.is_err() {
        panic!("SCHEMA-COMPILER-FAILED: the compiler under test does not accept the corpus");
    }

    let mut g = String::from("// generated glue\nuse crate::glue::*;\nuse simmodel::value::*;\n");
    g.push_str(&texts);
    let path = |pkg: &str, name: &str| {
        let p: Vec<String> = pkg.split('.').map(snake).collect();
        // instantiations without a name of their own: `T_X` for the reference, `TX` here
        let name = &name.replace('_', "");
        format!("crate::bindings::{}::{}::{}", p.join("::"), snake(name), pascal(name))
    };
    for e in &m.enums {
        let p = path(&e.pkg, &e.name);
        let dflt = pascal(&e.items[0].0);
        writeln!(g, "impl Glue for {p} {{\n fn from_val(v: &Value) -> Self {{ match vint(v) {{").unwrap();
        for (n, x) in &e.items {
            writeln!(g, "  {x} => {p}::{},", pascal(n)).unwrap();
        }
        writeln!(g, "  _ => {p}::{dflt} }} }}\n fn to_val(&self) -> Value {{ match self {{").unwrap();
        for (n, x) in &e.items {
            writeln!(g, "  {p}::{} => Value::Int({x}),", pascal(n)).unwrap();
        }
        g.push_str(" } }\n}\n");
    }
    for e in &m.masks {
        let p = path(&e.pkg, &e.name);
        writeln!(g, "impl Glue for {p} {{\n fn from_val(v: &Value) -> Self {{ mask(v, |m: &Self| m.bits()) }}\n fn to_val(&self) -> Value {{ Value::Int(self.bits() as i128) }}\n}}").unwrap();
    }
    for (idx, c) in m.comps.iter().enumerate() {
        let p = path(c.out_pkg(), &c.name);
        writeln!(g, "impl Glue for {p} {{\n fn from_val(v: &Value) -> Self {{ let Value::Comp(c) = v else {{ return Default::default() }}; let mut o = Self::default();").unwrap();
        for (i, (n, _)) in c.params.iter().enumerate() {
            writeln!(g, "  o.{} = Glue::from_val(&c.params[{i}]);", snake(n)).unwrap();
        }
        for (i, f) in c.fields.iter().enumerate() {
            writeln!(g, "  o.{} = Glue::from_val(&c.fields[{i}]);", snake(&f.name)).unwrap();
        }
        if c.kind == Kind::Union {
            writeln!(g, "  o.union_selector = {p}Selector::from_u32(c.sel.unwrap_or(0));").unwrap();
        }
        writeln!(g, "  let _ = c; o }}\n fn to_val(&self) -> Value {{ Value::Comp(Box::new(CompVal {{ ty: {idx},").unwrap();
        let ps: Vec<String> = c.params.iter().map(|(n, _)| format!("Glue::to_val(&self.{})", snake(n))).collect();
        let fs: Vec<String> = c.fields.iter().map(|f| format!("Glue::to_val(&self.{})", snake(&f.name))).collect();
        let sel = if c.kind == Kind::Union { "Some(self.union_selector as u32)" } else { "None" };
        writeln!(g, "  params: vec![{}], fields: vec![{}], sel: {sel} }})) }}\n}}", ps.join(", "), fs.join(", ")).unwrap();
    }
    g.push_str("pub fn types() -> Vec<Box<dyn TypeOps>> { vec![\n");
    for (idx, c) in m.comps.iter().enumerate() {
        if c.params.is_empty() {
            let p = path(c.out_pkg(), &c.name);
            writeln!(g, " typed::<{p}>({:?}, {idx}),", format!("{}.{}", c.out_pkg(), c.name)).unwrap();
        }
    }
    g.push_str("] }\n");
    g.push_str("/// (compound, field, size of an element)\npub fn elem_sizes() -> Vec<(usize, usize, usize)> { let mut v = vec![];\n");
    for (idx, c) in m.comps.iter().enumerate() {
        let p = path(c.out_pkg(), &c.name);
        let mut any = false;
        for (i, f) in c.fields.iter().enumerate() {
            if f.array.is_some() {
                if !any {
                    writeln!(g, " {{ let o = {p}::default();").unwrap();
                    any = true;
                }
                writeln!(g, "  v.push(({idx}, {i}, esize(&o.{})));", snake(&f.name)).unwrap();
            }
        }
        if any {
            g.push_str(" }\n");
        }
    }
    g.push_str(" v }\npub fn obj_sizes() -> Vec<usize> { vec![\n");
    for c in &m.comps {
        writeln!(g, " std::mem::size_of::<{}>(),", path(c.out_pkg(), &c.name)).unwrap();
    }
    g.push_str("] }\n");
    std::fs::write("src/bindings/glue.rs", g).unwrap();
}

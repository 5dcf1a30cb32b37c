//! Real generated bindings for the corpus, behind a uniform object interface.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, clippy::all)]
pub mod bindings;
pub mod glue;
#[path = "bindings/glue.rs"]
pub mod gen;

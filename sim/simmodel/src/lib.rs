//! Independent reference model of zserio: schema parser, value generator and bit-exact codec.
//! Written from the zserio language definition; shares no code with the repository.
pub mod ast;
pub mod codec;
pub mod eval;
pub mod gen;
pub mod lex;
pub mod model;
pub mod names;
pub mod value;

//! The reference model: values, operators, library and evaluator, written from docs/language.md and docs/library.md.
pub mod ast;
pub mod check;
pub mod interp;
pub mod natives;
pub mod num;
pub mod ops;
pub mod parse;
pub mod regex;
pub mod value;

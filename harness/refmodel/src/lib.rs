//! Reference model of the expression language, written from the documentation
//! (order of operations, grammar, built-ins), independently of the crate under
//! test. Everything the monitors judge against comes from here.
pub mod ast;
pub mod big;
pub mod eval;
pub mod gen;
pub mod parse;
pub mod rng;
pub use ast::*;
pub use eval::*;
pub use parse::*;
pub use rng::Rng;

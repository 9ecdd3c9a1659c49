#![allow(unused_imports, unused_variables, dead_code)]
use std::collections::HashMap;
use xprs::{xprs_fn, Context, Function, Parser, Symbol, Xprs};
fn ev(t: &str, v: &[(&str, f64)]) -> f64 {
    let h: HashMap<&str, f64> = v.iter().copied().collect();
    Parser::default().parse(t).unwrap().eval(&h).unwrap()
}
fn same(a: f64, b: f64) { assert!(a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), "{a:?} instead of {b:?}") }
fn main() {
assert_eq!(Parser::default().parse("\u{1f600}").unwrap_err().to_string(), "Illegal character: `\u{1f600}`");
}

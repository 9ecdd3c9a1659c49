#![allow(unused_imports, unused_variables, dead_code)]
use std::collections::HashMap;
use xprs::{xprs_fn, Context, Function, Parser, Symbol, Xprs};
fn ev(t: &str, v: &[(&str, f64)]) -> f64 {
    let h: HashMap<&str, f64> = v.iter().copied().collect();
    Parser::default().parse(t).unwrap().eval(&h).unwrap()
}
fn same(a: f64, b: f64) { assert!(a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), "{a:?} instead of {b:?}") }
fn main() {
use miette::Diagnostic; let t = "max(1,"; let e = Parser::default().parse(t).unwrap_err();
 for l in e.labels().unwrap() { assert!(l.offset() + l.len() <= t.len(), "{l:?}"); }
}

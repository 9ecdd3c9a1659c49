#![allow(unused_imports, unused_variables, dead_code)]
use std::collections::HashMap;
use xprs::{xprs_fn, Context, Function, Parser, Symbol, Xprs};
fn ev(t: &str, v: &[(&str, f64)]) -> f64 {
    let h: HashMap<&str, f64> = v.iter().copied().collect();
    Parser::default().parse(t).unwrap().eval(&h).unwrap()
}
fn same(a: f64, b: f64) { assert!(a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), "{a:?} instead of {b:?}") }
fn main() {
let x = Parser::default().parse("x + (y + abs(z))").unwrap(); let t = x.to_string(); let y = Parser::default().parse(&t).unwrap(); let v = [("x", 1e16), ("y", 1.0), ("z", 1.0)].into(); same(x.eval(&v).unwrap(), y.eval(&v).unwrap());
}

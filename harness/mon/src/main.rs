//! Monitors: `mon <property> --seed S --config C --scale F --out FILE ...`
mod common;
mod bind;
mod ctx;
mod endure;
mod lang;
mod mem;
mod partial;
mod repl;
mod total;
mod work;
use common::*;

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).is_some_and(|a| a == "deep") {
        // mon deep <family> <depth>
        let n = |i: usize| args[i].parse().expect("number");
        std::process::exit(total::deep_probe(n(2), n(3)));
    }
    let calibrate = || {
        if let Ok(Ok(x)) = guard(|| xprs::Parser::default().parse("x!")) {
            refmodel::calibrate_factorials(|n| guard(|| x.eval(&[("x", n)].into()).unwrap_or(f64::NAN)).unwrap_or(f64::NAN));
        }
    };
    std::process::exit(run_main(
        &[
            ("C01", total::c01),
            ("C02", lang::c02),
            ("C03", lang::c03),
            ("C04", lang::c04),
            ("C05", lang::c05),
            ("C06", lang::c06),
            ("C07", lang::c07),
            ("C08", partial::c08),
            ("C09", partial::c09),
            ("C10", bind::c10),
            ("C11", ctx::c11),
            ("C12", ctx::c12),
            ("C13", ctx::c13),
            ("C14", total::c14),
            ("C15", partial::c15),
            ("C16", mem::c16),
            ("C18", repl::c18),
            ("C19", partial::c19),
            ("C20", ctx::c20),
            ("C21", work::c21),
            ("C22", bind::c22),
        ],
        Some(&calibrate),
    ));
}

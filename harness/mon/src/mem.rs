//! Monitor of memory: C16. Runs in ordinary builds with a counting allocator
//! and functions that notice being used after or dropped out of turn, and in
//! builds with AddressSanitizer and under Miri.
use crate::common::*;
use crate::ensure;
use refmodel::gen::*;
use refmodel::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::panic_any;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use xprs::{Context, Function, ParseError, Parser, Symbol, Xprs};

/* Functions that own something and may panic */

const MAXF: usize = 512;
static DROPS: [AtomicU32; MAXF] = [const { AtomicU32::new(0) }; MAXF];
thread_local! {
    /// Applications of tracked functions left until one panics; 0: none does.
    static FUSE: Cell<u64> = const { Cell::new(0) };
    static APPLIED: Cell<u64> = const { Cell::new(0) };
    static BLOWN: Cell<u64> = const { Cell::new(0) };
    static WRONG: Cell<u64> = const { Cell::new(0) };
    static MADE: Cell<usize> = const { Cell::new(0) };
}
const ALIVE: u64 = 0x00A1_1FE0_0A11_FE00;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

struct Cargo {
    id: usize,
    cell: Box<[u64; 3]>,
}
impl Cargo {
    fn new() -> Self {
        let id = MADE.with(|m| m.replace(m.get() + 1)) % MAXF;
        Cargo { id, cell: Box::new([ALIVE, id as u64, !(id as u64)]) }
    }
    fn check(&self) {
        let c = &*self.cell;
        if c[0] != ALIVE || c[1] != self.id as u64 || c[2] != !c[1] {
            WRONG.with(|w| w.set(w.get() + 1));
        }
    }
}
impl Drop for Cargo {
    fn drop(&mut self) {
        DROPS[self.id].fetch_add(1, Relaxed);
        // not optimised away
        unsafe { std::ptr::write_volatile(&mut self.cell[0], DEAD) };
    }
}
fn burn() {
    APPLIED.with(|a| a.set(a.get() + 1));
    let left = FUSE.with(Cell::get);
    if left > 0 {
        FUSE.with(|f| f.set(left - 1));
        if left == 1 {
            BLOWN.with(|b| b.set(b.get() + 1));
            panic_any(Injected);
        }
    }
}
fn tracked(i: usize, arity: Option<u8>) -> Function {
    let c = Cargo::new();
    let salt = i as f64 * 0.75 + 1.25;
    Function::new_dyn(
        intern(FUNCS[i]),
        move |a: &[f64]| {
            c.check();
            burn();
            let s = a.iter().fold(salt, |s, x| s * 0.5 + x);
            c.check();
            s
        },
        arity,
    )
}
/// A function that parses and evaluates when it is applied.
fn nested(i: usize, p: Parser<'static>) -> Function {
    let c = Cargo::new();
    Function::new_dyn(
        intern(FUNCS[i]),
        move |a: &[f64]| {
            c.check();
            burn();
            let t = format!("{} + abs(x)!", a.len());
            let v = p.parse(&t).ok().and_then(|x| x.eval(&[("x", a.first().copied().unwrap_or(2.0))].into()).ok());
            v.unwrap_or(-1.0)
        },
        None,
    )
}
fn plain(a: &[f64]) -> f64 {
    burn();
    a.iter().product::<f64>() + 0.5
}

const FUNCS: &[&str] = &["f0", "f1", "f2", "f3", "f4", "stat"];
const ARITY: &[Option<u8>] = &[Some(0), Some(1), Some(2), None, Some(3), None];
static ALLVARS: [&str; 8] = ["x", "y", "z", "a", "b", "X", "x_1", "unused"];

fn base_ctx() -> Context<'static> {
    let mut c = Context::default();
    for i in 0..5 {
        c.set_fn(tracked(i, ARITY[i]));
    }
    c.set_fn(Function::new_static("stat", plain, None));
    c.set_var("k", 2.5);
    c
}
fn names() -> Names {
    let mut n = Names { vars: ALLVARS[..7].iter().map(|s| (*s).to_owned()).collect(), consts: vec!["k".into(), "pi".into()], funcs: vec![] };
    for (f, a) in FUNCS.iter().zip(ARITY) {
        n.funcs.push(((*f).to_owned(), a.map(usize::from)));
    }
    n.funcs.push(("max".into(), None));
    n.funcs.push(("sqrt".into(), Some(1)));
    n.funcs.push(("factorial".into(), Some(1)));
    n
}
fn text(rng: &mut Rng, n: &Names, size: usize) -> String {
    let b = rng.range(1, size);
    let g = Gen { names: n, shapes: 15, calls: 45, fact: 30, var_leaves: 45 };
    let s = g.syn(rng, b);
    let t = render(&s, if rng.bool() { Parens::Full } else { Parens::Some(20) }, rng);
    match rng.below(10) {
        0 => mutate(rng, &t, n),
        1 => {
            let at: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
            let at = *rng.pick(&at);
            format!("{}{}{}", &t[..at], rng.pick(&["é", "😀", "\u{80}", "∞", "x̂", "\u{7ff}", "\0", "ÿ("]), &t[at..])
        },
        2 => soup(rng, n, 10),
        _ => t,
    }
}

/* What must hold once everything is dropped */

struct Before {
    bytes: i64,
    blocks: i64,
}
fn before() -> Before {
    for d in &DROPS[..MADE.with(Cell::get).min(MAXF)] {
        d.store(0, Relaxed);
    }
    MADE.with(|m| m.set(0));
    WRONG.with(|m| m.set(0));
    FUSE.with(|m| m.set(0));
    Before { bytes: LIVE_BYTES.load(Relaxed), blocks: LIVE_BLOCKS.load(Relaxed) }
}
fn drops_ok() -> Res {
    let made = MADE.with(Cell::get);
    ensure!(WRONG.with(Cell::get) == 0, "a function was applied after it was dropped");
    ensure!(made <= MAXF, "too many functions for the monitor");
    for (i, d) in DROPS[..made].iter().enumerate() {
        let n = d.load(Relaxed);
        ensure!(n == 1, "function {i} of {made} was dropped {n} times");
    }
    Ok(())
}
/// Runs a whole session and checks that nothing is left of it. What stays
/// allocated only the first time (lazily initialised state) is not a leak.
fn nothing_left(c: &mut Case, f: &mut dyn FnMut() -> Res) -> Res {
    let mut last = (0, 0);
    for attempt in 0..3 {
        let b = before();
        f()?;
        forget_panics();
        last = (LIVE_BLOCKS.load(Relaxed) - b.blocks, LIVE_BYTES.load(Relaxed) - b.bytes);
        drops_ok()?;
        c.obs();
        if last == (0, 0) {
            return Ok(());
        }
        if attempt == 0 {
            c.class("repeated");
        }
    }
    Err(format!("{} blocks, {} bytes are left after everything was dropped, each time", last.0, last.1))
}

/* A panic injected at every application of every operation */

type Op<'t> = (&'static str, Box<dyn Fn(&Xprs<'t>) -> Option<u64> + 't>);

fn ops<'t>(vars: &[&'t str], env: &HashMap<&'static str, f64>) -> Vec<Op<'t>> {
    let e = env.clone();
    let e2 = env.clone();
    let mut v: Vec<Op<'t>> = vec![
        ("evaluation", Box::new(move |x| x.eval(&e).ok().map(f64::to_bits))),
        ("unchecked evaluation", Box::new(move |x| Some(x.eval_unchecked(&e2).to_bits()))),
    ];
    let all: Vec<(&'t str, f64)> = vars.iter().map(|n| (*n, env[*n])).collect();
    if let Some(&one) = all.first() {
        v.push(("simplification", Box::new(move |x| {
            let y = x.clone().simplify_for(one);
            Some(y.vars.len() as u64)
        })));
        v.push(("simplification in place", Box::new(move |x| {
            let mut y = x.clone();
            y.simplify_for_in_place(one);
            Some(y.vars.len() as u64)
        })));
    }
    let a2 = all.clone();
    v.push(("simplification for all", Box::new(move |x| {
        let y = x.clone().simplify_for_multiple(&a2);
        Some(y.vars.len() as u64)
    })));
    v.push(("vacuous simplification", Box::new(move |x| Some(x.clone().simplify_for(("nowhere", 0.0)).vars.len() as u64))));
    let vals: Vec<f64> = ALLVARS.iter().map(|n| env[n]).collect();
    v.push(("a bound call", Box::new(move |x| {
        let f = x.clone().bind_n_runtime(&ALLVARS).ok()?;
        // twice: the second one after what may have panicked
        let r = guard(|| f(&vals).ok().map(f64::to_bits));
        let s = f(&vals).ok().map(f64::to_bits);
        match r {
            Ok(r) if r != s => Some(1),
            _ => s,
        }
    })));
    v
}

fn inject(t: &str, env: &HashMap<&'static str, f64>, held: bool, c: &mut Case) -> Res {
    let p = Parser::new_with_ctx(base_ctx());
    // parsing
    let applied = |f: &mut dyn FnMut()| {
        APPLIED.with(|a| a.set(0));
        f();
        APPLIED.with(Cell::get)
    };
    let mut first = None;
    let n = applied(&mut || first = Some(guard(|| p.parse(t))));
    let Some(Ok(first)) = first else { return Ok(()) };
    for k in 1..=n.min(40) {
        FUSE.with(|f| f.set(k));
        let r = guard(|| p.parse(t).map(|x| x.vars.len()));
        FUSE.with(|f| f.set(0));
        c.obs();
        if r.is_err() {
            c.class("panic while parsing");
        }
        // the parser is as good as new
        let again = guard(|| p.parse(t));
        match (&first, &again) {
            (Ok(a), Ok(Ok(b))) => ensure!(same(a, b), "after a panic in application {k} the text parses to something else"),
            (Err(a), Ok(Err(b))) => ensure!(a.to_string() == b.to_string(), "after a panic in application {k} the text gives another error"),
            _ => return Err(format!("after a panic in application {k} the text parses differently")),
        }
    }
    let Ok(x) = first else {
        c.class("rejected");
        return Ok(());
    };
    for v in &x.vars {
        ensure!(std::str::from_utf8(v.as_bytes()).is_ok(), "a variable is not UTF-8");
    }
    let mut vars: Vec<&str> = x.vars.iter().copied().collect();
    vars.sort_unstable();
    let env: HashMap<&'static str, f64> = vars.iter().map(|v| intern(v)).chain(ALLVARS).map(|v| (v, env.get(v).copied().unwrap_or(0.75))).collect();
    let ops = ops(&vars, &env);
    // the expression may be all that keeps the functions
    let p = if held { Some(p) } else { None };
    for (name, op) in &ops {
        let mut base = None;
        let n = applied(&mut || base = guard(|| op(&x)).ok());
        for k in 1..=n.min(24) {
            FUSE.with(|f| f.set(k));
            let r = guard(|| op(&x));
            FUSE.with(|f| f.set(0));
            c.obs();
            if r.is_err() {
                c.class("panic during an operation");
            }
            let again = guard(|| op(&x)).ok();
            ensure!(again == base, "after a panic in application {k} of {name} it gives {again:?} instead of {base:?}");
        }
    }
    // objects left behind by a panic in their middle
    for k in 1..=6 {
        let mut y = x.clone();
        let mut all: Vec<(&str, f64)> = env.iter().map(|(n, v)| (*n, *v)).collect();
        all.sort_unstable_by_key(|a| a.0);
        FUSE.with(|f| f.set(k));
        let r = guard(|| {
            if k % 2 == 0 {
                y.simplify_for_multiple_in_place(&all);
            } else {
                y.simplify_for_in_place(all[k as usize % all.len()]);
            }
        });
        FUSE.with(|f| f.set(0));
        if r.is_ok() {
            continue;
        }
        c.class("used after a panic");
        c.obs();
        let _ = guard(|| {
            let _ = (format!("{y} {y:?}"), y == x, y.eval(&env).is_ok(), y.vars.len());
            let mut z = y.clone();
            z.simplify_for_multiple_in_place(&all);
            let _ = z.bind("x").map(|f| f(1.0));
        });
        let _ = guard(move || drop(y.simplify_for(("x", 2.0))));
    }
    if vars.is_empty() {
        let _ = guard(|| (x.eval_no_vars().is_ok(), x.eval_no_vars_unchecked()));
    }
    drop(p);
    let _ = guard(|| x.eval(&env).is_ok());
    Ok(())
}
fn same(a: &Xprs, b: &Xprs) -> bool {
    dbg_of(a) == dbg_of(b)
}

/* Histories */

struct Plan {
    seed: u64,
    steps: usize,
    texts: Vec<Box<str>>,
}

fn history(plan: &Plan, log: &mut u64, panics: &mut u64) -> Res {
    type Bound<'t> = Box<dyn Fn(&[f64]) -> f64 + 't>;
    let rng = &mut Rng::new(plan.seed);
    let mut parsers: Vec<Parser<'static>> = vec![Parser::new_with_ctx(base_ctx())];
    let mut exprs: Vec<Xprs<'_>> = vec![];
    let mut bound: Vec<Bound<'_>> = vec![];
    let mut errs: Vec<ParseError> = vec![];
    let mut syms: Vec<Symbol> = vec![];
    let vals: Vec<f64> = (0..8).map(|_| nice(rng)).collect();
    let env: HashMap<&str, f64> = ALLVARS.iter().copied().zip(vals.iter().copied()).collect();
    for step in 0..plan.steps {
        let what = rng.below(26);
        if rng.one_in(3) {
            FUSE.with(|f| f.set(1 + rng.below(6) as u64));
        }
        let r = guard(|| match what {
            0 if MADE.with(Cell::get) + 20 < MAXF => {
                let i = rng.below(5);
                let a = if rng.one_in(4) { None } else { ARITY[i] };
                let f = tracked(i, a);
                let k = rng.below(parsers.len());
                parsers[k].ctx_mut().set_fn(f);
            },
            1 if MADE.with(Cell::get) + 20 < MAXF => {
                let k = rng.below(parsers.len());
                let p = parsers[k].clone();
                parsers[k].ctx_mut().set_fn(nested(3, p));
            },
            2 => {
                let k = rng.below(parsers.len());
                let n = if rng.bool() { "k" } else { FUNCS[rng.below(6)] };
                parsers[k].ctx_mut().set_var(n, 1.5);
            },
            3 if parsers.len() < 5 => {
                let k = rng.below(parsers.len());
                let p = parsers[k].clone();
                parsers.push(p);
            },
            4 if parsers.len() > 1 => {
                let k = rng.below(parsers.len());
                drop(parsers.swap_remove(k));
            },
            5 if MADE.with(Cell::get) + 20 < MAXF => {
                // the whole table replaced, some of it kept
                let k = rng.below(parsers.len());
                let mut m: HashMap<&'static str, Symbol> = syms.iter().cloned().filter_map(|s| if let Symbol::Function(f) = s { Some((f.name, f.into())) } else { None }).collect();
                m.insert("k", 4.0.into());
                for i in 0..5 {
                    if rng.bool() {
                        m.insert(FUNCS[i], tracked(i, ARITY[i]).into());
                    }
                }
                let c = std::mem::take(parsers[k].ctx_mut()).with_symbols(m);
                *parsers[k].ctx_mut() = c;
            },
            6 => {
                let k = rng.below(parsers.len());
                if let Some(s) = parsers[k].ctx().get(FUNCS[rng.below(6)]) {
                    if syms.len() < 8 {
                        syms.push(s.clone());
                    } else {
                        syms[rng.below(8)] = s.clone();
                    }
                }
            },
            7..=11 => {
                let k = rng.below(parsers.len());
                let t = &plan.texts[rng.below(plan.texts.len())];
                match parsers[k].parse(t) {
                    Ok(x) if exprs.len() < 12 => exprs.push(x),
                    Ok(x) => exprs[rng.below(12)] = x,
                    Err(e) if errs.len() < 6 => errs.push(e),
                    Err(e) => errs[rng.below(6)] = e,
                }
            },
            12 | 13 if !exprs.is_empty() => {
                let x = &exprs[rng.below(exprs.len())];
                let _ = x.eval(&env).is_ok();
            },
            14 if !exprs.is_empty() => {
                let x = &exprs[rng.below(exprs.len())];
                // may panic on a missing variable as well
                let _ = x.eval_unchecked(&env);
            },
            15 | 16 if !exprs.is_empty() => {
                let k = rng.below(exprs.len());
                let v = *rng.pick(&ALLVARS);
                exprs[k].simplify_for_in_place((v, env[v]));
            },
            17 if !exprs.is_empty() => {
                let k = rng.below(exprs.len());
                let l: Vec<(&str, f64)> = (0..rng.below(5)).map(|_| *rng.pick(&ALLVARS)).map(|v| (v, env[v])).collect();
                exprs[k].simplify_for_multiple_in_place(&l);
            },
            18 if !exprs.is_empty() => {
                let x = exprs.swap_remove(rng.below(exprs.len()));
                let v = *rng.pick(&ALLVARS);
                exprs.push(x.simplify_for((v, env[v])));
            },
            19 if !exprs.is_empty() => {
                let x = exprs.swap_remove(rng.below(exprs.len()));
                let f: Bound = if rng.bool() {
                    let Ok(f) = x.bind_n_runtime(&ALLVARS) else { return };
                    Box::new(move |a| f(a).unwrap_or(f64::NAN))
                } else {
                    let Ok(f) = x.bind_n(ALLVARS) else { return };
                    Box::new(move |a| f(std::array::from_fn(|i| a.get(i).copied().unwrap_or(0.5))))
                };
                if bound.len() < 6 {
                    bound.push(f);
                } else {
                    bound[rng.below(6)] = f;
                }
            },
            20 if !bound.is_empty() => {
                let f = &bound[rng.below(bound.len())];
                let _ = f(&vals[..rng.below(9)]);
            },
            21 if exprs.len() > 1 => {
                let (a, b) = (rng.below(exprs.len()), rng.below(exprs.len()));
                let _ = (exprs[a] == exprs[b], exprs[a].root.partial_cmp(&exprs[b].root));
                if exprs.len() < 12 {
                    let x = exprs[a].clone();
                    exprs.push(x);
                }
            },
            22 if !exprs.is_empty() => {
                let x = &exprs[rng.below(exprs.len())];
                let _ = (x.to_string(), format!("{x:?}"));
            },
            23 if !errs.is_empty() => {
                let e = &errs[rng.below(errs.len())];
                let _ = (e.to_string(), format!("{e:?}"), e.clone() == *e);
            },
            24 if !exprs.is_empty() => drop(exprs.swap_remove(rng.below(exprs.len()))),
            25 if !bound.is_empty() => drop(bound.swap_remove(rng.below(bound.len()))),
            _ => {},
        });
        FUSE.with(|f| f.set(0));
        *panics += u64::from(r.is_err());
        let state = [step as u64, what as u64, exprs.len() as u64, u64::from(r.is_err()), errs.len() as u64];
        for w in state {
            *log = refmodel::rng::hash_bytes(*log, &w.to_le_bytes());
        }
        ensure!(WRONG.with(Cell::get) == 0, "step {step}: a function was applied after it was dropped");
        ensure!(step % 16 > 0 || DROPS[..MADE.with(Cell::get)].iter().all(|d| d.load(Relaxed) <= 1), "step {step}: a function was dropped twice");
    }
    // dropped in some order
    match rng.below(3) {
        0 => {
            drop(parsers);
            drop(syms);
            for x in &exprs {
                let _ = guard(|| x.eval(&env).is_ok());
            }
            drop(exprs);
            for f in &bound {
                let _ = guard(|| f(&vals));
            }
        },
        1 => {
            drop(bound);
            drop(exprs);
        },
        _ => {},
    }
    Ok(())
}

/// What a context borrows need not outlive the expressions parsed with it.
fn scopes(t: &str, c: &mut Case) -> Res {
    let x = {
        let (a, b) = (String::from("k"), String::from("short"));
        let ctx = Context::default().with_var(&a, 2.5).with_var(&b, 1.0);
        let fns = base_ctx();
        let mut ctx = ctx;
        for f in FUNCS {
            if let Some(Symbol::Function(f)) = fns.get(f) {
                ctx.set_fn(f.clone());
            }
        }
        let declared: Vec<String> = ALLVARS.iter().map(|s| (*s).to_owned()).collect();
        ctx.set_expected_vars(declared.iter().map(String::as_str).collect());
        let p = Parser::new_with_ctx(ctx);
        drop(fns);
        p.parse(t)
    };
    c.obs();
    match x {
        Ok(x) => {
            let e: HashMap<&str, f64> = ALLVARS.iter().map(|v| (*v, 1.75)).collect();
            let _ = (x.to_string(), x.eval(&e).is_ok(), x.clone().simplify_for_multiple(&[("x", 1.0), ("y", 2.0)]).to_string());
        },
        Err(e) => {
            let _ = (e.to_string(), format!("{e:?}"));
        },
    }
    Ok(())
}

pub fn c16(r: &mut Runner) {
    let n = names();
    for f in FUNCS {
        intern(f);
    }
    // initialise what is lazily initialised
    let _ = guard(|| panic_any(Injected));
    r.random("panic at each application", 1500, |rng, c| {
        let t = text(rng, &n, 14);
        c.desc = t.clone();
        let env: HashMap<&'static str, f64> = ALLVARS.iter().map(|v| (*v, nice(rng))).collect();
        let held = rng.bool();
        // names that are interned once stay
        let _ = guard(|| Parser::default().parse(&t).map(|x| x.vars.iter().map(|v| intern(v)).count()));
        let (mut observed, mut classes) = (0, 0);
        nothing_left(c, &mut || {
            let mut s = Case::default();
            let exact: Box<str> = t.clone().into();
            let r = inject(&exact, &env, held, &mut s);
            (observed, classes) = (s.observed, s.classes.iter().filter(|k| k.contains("panic")).count());
            r
        })?;
        c.observed += observed;
        if classes > 0 {
            c.nontrivial(&t);
            c.class("with panics");
        }
        Ok(())
    });
    r.random("histories", 500, |rng, c| {
        let plan = Plan { seed: rng.u64(), steps: rng.range(20, 160), texts: (0..rng.range(2, 10)).map(|_| text(rng, &n, 12).into()).collect() };
        c.desc = format!("{} steps over {:?}", plan.steps, plan.texts);
        let (mut log, mut panics) = (0, 0);
        nothing_left(c, &mut || {
            (log, panics) = (0, 0);
            history(&plan, &mut log, &mut panics)
        })?;
        c.observed += plan.steps as u64;
        c.hashes.push(log);
        if panics > 0 {
            c.class("with panics");
        }
        Ok(())
    });
    r.random("scopes", 1500, |rng, c| {
        let t = text(rng, &n, 10);
        c.desc = t.clone();
        nothing_left(c, &mut || {
            let mut s = Case::default();
            let exact: Box<str> = t.clone().into();
            scopes(&exact, &mut s)
        })?;
        c.nontrivial(&t);
        Ok(())
    });
    // every byte and position, on exact allocations: reads past the end
    const LEFT: &[&str] = &["", "1", "x", "1.", "1e", "1e+", "f1(", "max(1,", "2 ", "x!", "-", "(", "f3", "é", "1_", "x'", ".", "max", "k", "1e5", "x^", "f1(x)"];
    r.each("ends of texts", 0..(LEFT.len() * 141) as u64, |i, c| {
        let (l, b) = (LEFT[i as usize % LEFT.len()], i as usize / LEFT.len());
        let t = match b {
            0 => l.to_owned(),
            1..=128 => format!("{l}{}", char::from((b - 1) as u8)),
            _ => format!("{l}{}", ["é", "\u{7ff}", "\u{800}", "ﬀ", "😀", "\u{10ffff}", "\u{300}", "\u{a0}", "\u{85}", "\u{feff}", "\u{2028}", "Ω"][b - 129]),
        };
        c.desc = format!("{t:?}");
        c.nontrivial(&t);
        nothing_left(c, &mut || {
            let exact: Box<str> = t.clone().into();
            let p = Parser::new_with_ctx(base_ctx());
            match p.parse(&exact) {
                Ok(x) => {
                    let _ = (x.to_string(), x.clone() == x);
                },
                Err(e) => ensure!(std::str::from_utf8(e.to_string().as_bytes()).is_ok(), "message is not UTF-8"),
            }
            Ok(())
        })
    });
    // the factorial table and its bounds
    r.each("factorials", 0..1, |_, c| {
        c.desc = "factorials of all magnitudes".into();
        let mut ns: Vec<f64> = (-4..340).map(|i| f64::from(i) * 0.5).collect();
        ns.extend([170.0, 170.5, 171.0, 172.0, 1e3, 1e9, 4294967296.0, 4294967300.0, 18446744073709551616.0, 1e300, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, -0.0, 5e-324, -1.0, -170.0, -1e300]);
        for s in [170.0f64, 171.0, 0.0, 1.0, 64.0] {
            ns.extend([f64::from_bits(s.to_bits() + 1), f64::from_bits(s.to_bits().wrapping_sub(1) & (i64::MAX as u64))]);
        }
        let p = Parser::default();
        let texts = if cfg!(miri) { 2 } else { 4 };
        for n in ns.iter().skip(if cfg!(miri) { 345 } else { 0 }) {
            for t in &["x!", "factorial(x)", "x!!", "gamma(x)"][..texts] {
                let Ok(x) = p.parse(t) else { continue };
                c.obs();
                c.nontrivial(&format!("{t} {n:?}"));
                let v = x.eval(&[("x", *n)].into()).map(f64::to_bits);
                let y = x.simplify_for(("x", *n));
                let _ = (v, y.eval_no_vars().is_ok());
            }
        }
        Ok(())
    });
    // whatever the other monitors do, for the sanitizers to watch
    let mut s = crate::total::Session::new();
    r.random("workload", 2500, |rng, c| {
        let w = World::random(rng);
        let t = match rng.below(3) {
            0 => soup(rng, &w.names, 14),
            1 => {
                let t = text_of(&w, rng, 20, 30, 30);
                mutate(rng, &t, &w.names)
            },
            _ => text_of(&w, rng, 25, 40, 30),
        };
        c.desc = t.clone();
        c.nontrivial(&t);
        // what it finds out is for other properties
        let _ = guard(|| s.one(&w.parser, &t, rng, c));
        Ok(())
    });
}

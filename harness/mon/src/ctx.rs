//! Monitors of contexts and histories: C11, C12, C13 and C20.
use crate::common::*;
use crate::ensure;
use refmodel::gen::*;
use refmodel::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use xprs::{Context, Function, ParseError, Parser, Symbol, Xprs};

/// The outcome of a parse, in full, except for what the order of a hash set
/// decides (the undeclared variable told, the order of the declared ones).
pub fn outcome(r: &Result<Xprs, ParseError>) -> String {
    use miette::Diagnostic;
    match r {
        Ok(x) => format!("accepted {} shown {x}", dbg_of(x)),
        Err(e) => {
            let m = e.to_string();
            if m.starts_with("Variable not") {
                return "undeclared variable".into();
            }
            let spans: Vec<_> = e.labels().into_iter().flatten().map(|l| (l.offset(), l.len())).collect();
            format!("rejected: {m} at {spans:?} help {:?}", e.help().map(|h| h.to_string()))
        },
    }
}

/// A pool of names in which every context draws its definitions, so that the
/// same identifier is a variable here, a constant there and a function elsewhere.
fn shared_names(rng: &mut Rng) -> Vec<String> {
    let mut pool: Vec<String> = VAR_POOL
        .iter()
        .chain(CONST_POOL)
        .chain(FUN_POOL)
        .filter(|n| !n.starts_with('_'))
        .map(|s| (*s).to_owned())
        .chain(["sin", "max", "e", "pi", "log", "hypot", "sum", "gamma"].map(str::to_owned))
        .collect();
    rng.shuffle(&mut pool);
    let k = rng.range(3, 8);
    pool.truncate(k);
    if rng.bool() {
        pool.push((*rng.pick(&["sin", "max", "e", "pi"])).to_owned());
    }
    // long names, some with a common beginning
    if rng.one_in(6) {
        let n = *rng.pick(&[15, 16, 23, 24, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 1000]);
        let long = rng.pick(&["a", "Ab", "q_", "z0'"]).repeat(n)[..n].to_owned();
        let last = pool.len() - 1;
        pool[0] = format!("n{}", &long[1..]);
        pool[last] = format!("n{}{}", &long[1..], rng.pick(&["", "x", "'", "0"]));
    }
    pool
}
fn random_sym(rng: &mut Rng, name: &str) -> Sym {
    if rng.bool() {
        Sym::Const(if rng.one_in(3) { (rng.unit() - 0.5) * 50.0 } else { *rng.pick(CONST_VALUES) })
    } else {
        let arity = if rng.one_in(3) { None } else { Some(rng.below(4)) };
        Sym::Func(Func { name: name.to_owned(), body: Body::User(rng.below(USER.len())), arity })
    }
}
fn define(ctx: &mut Context<'static>, rng: &mut Rng, name: &str, s: &Sym) {
    let n = intern(name);
    let by_value = rng.bool();
    match s {
        Sym::Const(v) if by_value => *ctx = std::mem::take(ctx).with_var(n, *v),
        Sym::Const(v) => ctx.set_var(n, *v),
        Sym::Func(f) => {
            let fun = mk_fn(&f.name, f.body, f.arity, rng.bool());
            if by_value {
                *ctx = std::mem::take(ctx).with_fn(fun);
            } else {
                ctx.set_fn(fun);
            }
        },
    }
}
/// Names for generating texts over a pool: each may be used as anything.
fn loose_names(pool: &[String], rng: &mut Rng) -> Names {
    let mut n = Names { vars: pool.to_vec(), consts: vec!["pi".into(), "e".into()], funcs: vec![] };
    for p in pool {
        if rng.bool() {
            n.funcs.push((p.clone(), if rng.bool() { None } else { Some(rng.below(3)) }));
        }
    }
    for (b, a) in BUILTINS {
        if rng.one_in(3) {
            n.funcs.push(((*b).to_owned(), *a));
        }
    }
    n
}
fn loose_text(rng: &mut Rng, names: &Names, pool: &[String], max: usize) -> String {
    match rng.below(12) {
        0 => soup(rng, names, max),
        1 => rng.pick(pool).clone(),
        2 => format!("{}({})", rng.pick(pool), rng.pick(pool)),
        k => {
            let b = rng.range(1, max);
            let s = Gen { names, shapes: 25, calls: 35, fact: 25, var_leaves: 60 }.syn(rng, b);
            let p = if rng.bool() { Parens::Full } else { Parens::Some(30) };
            let t = render(&s, p, rng);
            if k == 3 {
                mutate(rng, &t, names)
            } else {
                t
            }
        },
    }
}

/// The memoryless oracle: what parsing `t` in `rc` must give.
pub fn check_parse(t: &str, rc: &RefCtx, r: &Result<Xprs, ParseError>) -> Result<Option<Ast>, String> {
    match (parse(t, rc, MODE), r) {
        (Ok(a), Ok(x)) => {
            let have: BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
            let all = a.vars();
            ensure_ok(if OPT { have.is_subset(&all) } else { have == all }, || {
                format!("variables are {have:?}, should be {all:?}")
            })?;
            if let Some(e) = &rc.expected {
                ensure_ok(have.is_subset(e), || format!("accepted although only {e:?} are declared"))?;
            }
            Ok(Some(a))
        },
        (Ok(a), Err(e)) => {
            let undeclared = rc.expected.as_ref().is_some_and(|d| !a.vars().is_subset(d));
            ensure_ok(undeclared, || format!("rejected: {e}"))?;
            Ok(None)
        },
        (Err(e), Ok(x)) => Err(format!("accepted as {x} but should be rejected ({e:?})")),
        (Err(_), Err(_)) => Ok(None),
    }
}
fn ensure_ok(c: bool, m: impl FnOnce() -> String) -> Res {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}

/* ---------------------------------------------------------------- C11 */

struct Live<'t> {
    text: usize,
    ctx: usize,
    x: Xprs<'t>,
    ast: Ast,
    dbg: String,
    envs: Vec<Env>,
    first: Vec<Option<u64>>,
}

fn canon(v: f64) -> u64 {
    if v.is_nan() {
        u64::MAX
    } else {
        v.to_bits()
    }
}

/// One evaluation of a live expression, in some form, against the first one
/// and the reference.
fn c11_eval(l: &mut Live, rng: &mut Rng, c: &mut Case) -> Res {
    let i = rng.below(l.envs.len());
    let env = l.envs[i].clone();
    let mut given = env.clone();
    if rng.one_in(3) {
        // variables that do not occur
        for n in ["unused", "Sin", "", "é", "sin", "pi"] {
            if !l.x.vars.contains(n) && rng.bool() {
                given.insert(n.to_owned(), *rng.pick(&[f64::NAN, 0.0, 1.0, -3.5]));
            }
        }
    }
    let map = vmap(&given);
    let mut vars: Vec<&str> = l.x.vars.iter().copied().collect();
    vars.sort_unstable();
    let how = rng.below(8);
    let got = match how {
        0 | 1 => l.x.eval(&map).map_err(|e| format!("evaluation: {e}"))?,
        2 => l.x.eval_unchecked(&map),
        3 => l.x.clone().eval(&map).map_err(|e| format!("evaluation of a clone: {e}"))?,
        4 if vars.is_empty() => l.x.eval_no_vars().map_err(|e| format!("evaluation: {e}"))?,
        5 if vars.is_empty() => l.x.eval_no_vars_unchecked(),
        4 | 5 => {
            let a: Vec<f64> = vars.iter().map(|v| env[*v]).collect();
            let f = l.x.clone().bind_n_runtime(&vars).map_err(|e| e.to_string())?;
            let v = f(&a).map_err(|e| e.to_string())?;
            let w = f(&a).map_err(|e| e.to_string())?;
            ensure!(canon(v) == canon(w), "second call of the bound function gives {} after {}", fval(w), fval(v));
            v
        },
        6 => {
            let a: Vec<f64> = vars.iter().map(|v| env[*v]).collect();
            match vars.len() {
                1 => l.x.clone().bind(vars[0]).map_err(|e| e.to_string())?(a[0]),
                2 => l.x.clone().bind2(vars[0], vars[1]).map_err(|e| e.to_string())?(a[0], a[1]),
                3 => l.x.clone().bind3(vars[0], vars[1], vars[2]).map_err(|e| e.to_string())?(a[0], a[1], a[2]),
                _ => l.x.eval(&map).map_err(|e| e.to_string())?,
            }
        },
        _ => {
            // a failed evaluation in between leaves no trace
            if let Some(v) = vars.first() {
                let mut less = map.clone();
                less.remove(v);
                ensure!(l.x.eval(&less).is_err(), "evaluation without {v} succeeded");
            }
            l.x.eval(&map).map_err(|e| format!("evaluation: {e}"))?
        },
    };
    c.obs();
    let names: BTreeMap<String, u64> = map.iter().map(|(k, v)| ((*k).to_owned(), v.to_bits())).collect();
    let was: BTreeMap<String, u64> = given.iter().map(|(k, v)| (k.clone(), v.to_bits())).collect();
    ensure!(names == was, "the provided variables were changed");
    let b = canon(got);
    match l.first[i] {
        None => l.first[i] = Some(b),
        Some(w) => ensure!(b == w, "evaluation (form {how}) with {env:?} gives {}, first it was {}", fval(got), fval(f64::from_bits(w))),
    }
    if let Some(j) = judge(&l.ast, &env, got) {
        j.map_err(|m| format!("after other operations, {m}"))?;
    }
    Ok(())
}

fn c11_session(rng: &mut Rng, c: &mut Case, nctx: usize, ntexts: usize, steps: usize, size: usize) -> Res {
    let pool = shared_names(rng);
    let names = loose_names(&pool, rng);
    let mut rcs = vec![];
    let mut parsers = vec![];
    for k in 0..nctx {
        let mut rc = RefCtx::default();
        let mut ctx = Context::default();
        if k > 0 || rng.bool() {
            for n in &pool {
                if rng.pct(40) {
                    let s = random_sym(rng, n);
                    define(&mut ctx, rng, n, &s);
                    rc.syms.insert(n.clone(), s);
                }
            }
            if rng.one_in(4) {
                let d: BTreeSet<String> = pool.iter().filter(|_| rng.pct(80)).cloned().collect();
                ctx.set_expected_vars(d.iter().map(|n| intern(n)).collect());
                rc.expected = Some(d);
            }
        }
        rcs.push(rc);
        parsers.push(Parser::new_with_ctx(ctx));
    }
    let mut texts: Vec<String> = (0..ntexts).map(|_| loose_text(rng, &names, &pool, size)).collect();
    // texts of one shape, differing late or by one character
    for _ in 0..ntexts / 3 {
        let t = rng.pick(&texts).clone();
        let u = match rng.below(5) {
            0 => format!("{t} "),
            1 => format!(" {t}"),
            2 => format!("({t})"),
            3 => format!("{t}+{}", rng.below(10)),
            _ => mutate(rng, &t, &names),
        };
        texts.push(u);
    }
    let mut first: HashMap<(usize, usize), String> = HashMap::new();
    let mut live: Vec<Live> = vec![];
    let mut copy = String::with_capacity(4096);
    c.desc = format!("{nctx} contexts over {pool:?}, {} texts such as {:?}, {steps} steps", texts.len(), short(&texts[0]));
    let mut order: Vec<(usize, usize)> = vec![];
    for step in 0..steps {
        if rng.pct(45) || live.is_empty() {
            if order.is_empty() {
                order = (0..nctx).flat_map(|k| (0..texts.len()).map(move |t| (k, t))).collect();
                rng.shuffle(&mut order);
            }
            let (k, t) = if rng.bool() { order.pop().unwrap() } else { (rng.below(nctx), rng.below(texts.len())) };
            let cloned;
            let p = if rng.one_in(6) {
                cloned = parsers[k].clone();
                &cloned
            } else {
                &parsers[k]
            };
            // the same text elsewhere in memory, where another text was before
            if rng.one_in(3) {
                copy.clear();
                copy.push_str(&texts[t]);
                let r = p.parse(&copy);
                check_parse(&copy, &rcs[k], &r).map_err(|m| format!("step {step}: {:?} in context {k}: {m}", texts[t]))?;
                let o = outcome(&r);
                c.obs();
                if let Some(f) = first.get(&(k, t)) {
                    ensure!(*f == o, "step {step}: {:?} in context {k} gives {o}, first it was {f}", texts[t]);
                } else {
                    first.insert((k, t), o);
                }
            }
            let r = p.parse(&texts[t]);
            let ast = check_parse(&texts[t], &rcs[k], &r).map_err(|m| format!("step {step}: {:?} in context {k}: {m}", texts[t]))?;
            let o = outcome(&r);
            c.obs();
            match first.get(&(k, t)) {
                Some(f) => {
                    c.class("parsed again");
                    ensure!(*f == o, "step {step}: {:?} in context {k} gives {o}, first it was {f}", texts[t]);
                },
                None => {
                    c.class(if r.is_ok() { "first parse, accepted" } else { "first parse, rejected" });
                    first.insert((k, t), o);
                },
            }
            if rcs[k].syms.is_empty() && rcs[k].expected.is_none() {
                let q = Xprs::try_from(texts[t].as_str());
                ensure!(outcome(&q) == outcome(&r), "step {step}: TryFrom and parse differ for {:?}", texts[t]);
                c.obs();
            }
            if let (Ok(x), Some(ast)) = (r, ast) {
                let vars: BTreeSet<String> = ast.vars();
                let mut envs: Vec<Env> = (0..3).map(|i| env(rng, &vars, if i == 2 { 60 } else { 15 })).collect();
                // assignments that compare alike but are not
                let mut e = envs[0].clone();
                for v in e.values_mut() {
                    if rng.bool() {
                        *v = if *v == 0.0 { -*v } else { 0.0 };
                    }
                }
                envs.push(e.clone());
                for v in e.values_mut() {
                    if *v == 0.0 {
                        *v = -*v;
                    }
                }
                envs.push(e);
                // and that differ by next to nothing, or by an exchange
                let mut e = envs[0].clone();
                for v in e.values_mut() {
                    *v = f64::from_bits(v.to_bits() ^ 1 << rng.below(24));
                }
                envs.push(e);
                let mut e = envs[0].clone();
                let mut values: Vec<f64> = e.values().copied().collect();
                let by = usize::from(!values.is_empty());
                values.rotate_right(by);
                for (v, w) in e.values_mut().zip(values) {
                    *v = w;
                }
                envs.push(e);
                let n = envs.len();
                live.push(Live { text: t, ctx: k, dbg: dbg_of(&x), x, ast, envs, first: vec![None; n] });
                if live.len() > 24 {
                    let at = rng.below(live.len());
                    live.swap_remove(at);
                }
            }
            continue;
        }
        let at = rng.below(live.len());
        let l = &mut live[at];
        let told = |m: String, l: &Live| format!("step {step}: {:?} in context {} ({}): {m}", texts[l.text], l.ctx, l.x);
        match rng.below(10) {
            0 => {
                // what is done to a copy is not done to the original
                let vars: Vec<&str> = l.x.vars.iter().copied().collect();
                let mut y = l.x.clone();
                if let Some(v) = vars.first() {
                    y.simplify_for_in_place((v, nice(rng)));
                    let list: Vec<(&str, f64)> = vars.iter().map(|v| (*v, 1.5)).collect();
                    y.simplify_for_multiple_in_place(&list);
                }
                let _ = format!("{y} {y:?}");
                drop(y);
                c.class("simplified a copy");
            },
            1 => {
                let _ = format!("{} {:?}", l.x, l.x);
                ensure!(l.ast_has_nan() || l.x == l.x.clone(), "{}", told("differs from its clone".into(), l));
            },
            _ => {
                let r = c11_eval(l, rng, c);
                if let Err(m) = r {
                    return Err(told(m, l));
                }
            },
        }
        let now = dbg_of(&l.x);
        ensure!(now == l.dbg, "{}", told(format!("the expression changed to {now} from {}", l.dbg), l));
    }
    c.nontrivial(&format!("{texts:?}{}", rng.u64()));
    Ok(())
}

impl Live<'_> {
    fn ast_has_nan(&self) -> bool {
        // folding can make NaN out of any constants
        self.dbg.contains("NaN")
    }
}

pub fn c11(r: &mut Runner) {
    r.random("short sessions", 1500, |rng, c| {
        let n = rng.range(1, 3);
        c11_session(rng, c, n, 8, 60, 10)
    });
    r.random("sessions", 60, |rng, c| {
        let n = rng.range(2, 5);
        c11_session(rng, c, n, 60, 1500, 25)
    });
    // texts, expressions and maps of values that take the place of former ones
    r.random("reused buffers", 600, |rng, c| {
        let pool = shared_names(rng);
        let names = loose_names(&pool, rng);
        let mut rc = RefCtx::default();
        let mut ctx = Context::default();
        for n in pool.iter().take(rng.below(4)) {
            let s = random_sym(rng, n);
            define(&mut ctx, rng, n, &s);
            rc.syms.insert(n.clone(), s);
        }
        let p = Parser::new_with_ctx(ctx);
        let mut buffer = String::with_capacity(4096);
        let mut map: HashMap<&str, f64> = pool.iter().map(|n| (intern(n), 0.0)).collect();
        for n in &names.vars {
            map.insert(intern(n), 0.0);
        }
        let mut base = loose_text(rng, &names, &pool, 12);
        for step in 0..40 {
            if rng.one_in(8) {
                base = loose_text(rng, &names, &pool, 12);
            }
            // most of the bytes stay, all of them where they were
            let mut b = base.clone().into_bytes();
            for _ in 0..rng.below(4) {
                let at = rng.below(b.len());
                if b.is_empty() || !b.is_ascii() {
                    break;
                }
                b[at] = match b[at] {
                    d @ b'0'..=b'9' => b'0' + (d - b'0' + rng.range(1, 9) as u8) % 10,
                    b'x' | b'y' | b'z' | b'a' | b'b' | b'n' | b't' => *rng.pick(b"xyzabnt"),
                    b'+' | b'-' | b'*' | b'/' | b'%' | b'^' => *rng.pick(b"+-*/%^"),
                    o => o,
                };
            }
            let text = String::from_utf8(b).expect("still text");
            buffer.clear();
            buffer.push_str(&text);
            c.desc = format!("{text:?} in the place of {base:?}, step {step}");
            let x = p.parse(&buffer);
            let a = check_parse(&text, &rc, &x)?;
            let here = outcome(&x);
            if let (Some(a), Ok(x)) = (a, &x) {
                for _ in 0..2 {
                    let e = env(rng, &a.vars(), 10);
                    for (n, v) in &e {
                        map.insert(intern(n), *v);
                    }
                    let v = ev(&x, &map)?;
                    if let Some(j) = judge(&a, &e, v) {
                        j?;
                    }
                    c.obs();
                }
                c.nontrivial(&format!("{text} {base} {step}"));
            }
            let there = outcome(&p.parse(&text));
            ensure!(here == there, "gives {here} here and {there} elsewhere");
            c.obs();
        }
        c.class("texts at the place of others");
        Ok(())
    });
    // thousands of texts, all parsed again in another order
    r.random("long histories", 3, |rng, c| {
        let pool = shared_names(rng);
        let names = loose_names(&pool, rng);
        let mut rc = RefCtx::default();
        let mut ctx = Context::default();
        for n in pool.iter().take(2) {
            let s = random_sym(rng, n);
            define(&mut ctx, rng, n, &s);
            rc.syms.insert(n.clone(), s);
        }
        let p = Parser::new_with_ctx(ctx);
        let texts: Vec<String> = (0..9000).map(|_| loose_text(rng, &names, &pool, 8)).collect();
        let firsts: Vec<String> = texts.iter().map(|t| outcome(&p.parse(t))).collect();
        c.desc = format!("{} texts on one parser over {pool:?}", texts.len());
        let mut order: Vec<usize> = (0..texts.len()).collect();
        for round in 0..2 {
            if round > 0 {
                rng.shuffle(&mut order);
            }
            for &i in &order {
                let x = p.parse(&texts[i]);
                let o = outcome(&x);
                ensure!(o == firsts[i], "text {i} {:?} gives {o} in round {round}, first it was {}", texts[i], firsts[i]);
                let a = check_parse(&texts[i], &rc, &x).map_err(|m| format!("{:?}: {m}", texts[i]))?;
                if let (Some(a), Ok(x)) = (a, x) {
                    let e = env(rng, &a.vars(), 20);
                    let v = ev(&x, &vmap(&e))?;
                    if let Some(j) = judge(&a, &e, v) {
                        j.map_err(|m| format!("{:?} in round {round}: {m}", texts[i]))?;
                    }
                }
                c.obs();
            }
        }
        c.class("histories of more than 25000 parses");
        c.nontrivial(&format!("{:?}", &texts[..20]));
        Ok(())
    });
    crate::endure::evaluations(r);
    crate::endure::panics(r);
}

/* ---------------------------------------------------------------- C12 */

thread_local! {
    static LOG: RefCell<Vec<(usize, Vec<f64>)>> = const { RefCell::new(vec![]) };
}
fn take_log() -> Vec<(usize, Vec<f64>)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn logged(id: usize, a: &[f64]) -> f64 {
    LOG.with(|l| l.borrow_mut().push((id, a.to_vec())));
    a.iter().enumerate().fold(id as f64 + 0.125, |s, (i, x)| s * 1.0625 + (i as f64 + 1.0) * x)
}
fn log_static<const I: usize>(a: &[f64]) -> f64 {
    logged(I, a)
}
const LOG_STATIC: [fn(&[f64]) -> f64; 4] = [log_static::<0>, log_static::<1>, log_static::<2>, log_static::<3>];
fn log_fn(name: &str, id: usize, arity: Option<u8>, dynamic: bool) -> Function {
    if dynamic || id >= LOG_STATIC.len() {
        Function::new_dyn(intern(name), move |a: &[f64]| logged(id, a), arity)
    } else {
        Function::new_static(intern(name), LOG_STATIC[id], arity)
    }
}

/// A parser under test with the model of its context.
struct Twin {
    rc: RefCtx,
    p: Parser<'static>,
}
const ODD_NAMES: &[&str] = &["", " ", "é", "1x", "x y", "x ", "(", "+", "x+y", "sin(", "_a", "'", "2", "pi "];

fn c12_define(w: &mut Twin, pool: &[String], rng: &mut Rng) -> String {
    let n = if rng.one_in(12) { (*rng.pick(ODD_NAMES)).to_owned() } else { rng.pick(pool).clone() };
    match rng.below(8) {
        0 => {
            // a whole new table, functions possibly under other names than theirs
            let mut table: HashMap<&'static str, Symbol> = HashMap::new();
            let mut model = BTreeMap::new();
            for p in pool {
                if rng.pct(40) {
                    let mut s = random_sym(rng, p);
                    if let Sym::Func(f) = &mut s {
                        if rng.one_in(3) {
                            f.name = "other".into();
                        }
                    }
                    let sym: Symbol = match &s {
                        Sym::Const(v) => (*v).into(),
                        Sym::Func(f) => mk_fn(&f.name, f.body, f.arity, rng.bool()).into(),
                    };
                    table.insert(intern(p), sym);
                    model.insert(p.clone(), s);
                }
            }
            let d = format!("with_symbols {:?}", model.keys().collect::<Vec<_>>());
            let c = std::mem::take(w.p.ctx_mut()).with_symbols(table);
            if rng.bool() {
                *w.p.ctx_mut() = c;
            } else {
                w.p = Parser::new_with_ctx(c);
            }
            w.rc.syms = model;
            d
        },
        1 => {
            // values of other types
            let k = rng.below(200) as u8;
            let i = rng.u64() as i32;
            let v = if rng.bool() {
                w.p.ctx_mut().set_var(intern(&n), k);
                f64::from(k)
            } else {
                w.p.ctx_mut().set_var(intern(&n), i);
                f64::from(i)
            };
            w.rc.syms.insert(n.clone(), Sym::Const(v));
            format!("{n} = {v}")
        },
        2 => {
            let v = value(rng, 100);
            w.rc.syms.insert(n.clone(), Sym::Const(v));
            if rng.bool() {
                w.p.ctx_mut().set_var(intern(&n), v);
            } else {
                let c = w.p.ctx().clone_static(w);
                w.p = Parser::new_with_ctx(c.with_var(intern(&n), v));
            }
            format!("{n} = {v:?}")
        },
        _ => {
            let s = random_sym(rng, &n);
            define(w.p.ctx_mut(), rng, &n, &s);
            let d = format!("{n} = {s:?}");
            w.rc.syms.insert(n, s);
            d
        },
    }
}
trait CloneStatic {
    fn clone_static(&self, w: &Twin) -> Context<'static>;
}
impl CloneStatic for Context<'_> {
    /// The context of a clone of the parser.
    fn clone_static(&self, w: &Twin) -> Context<'static> {
        std::mem::take(w.p.clone().ctx_mut())
    }
}

fn c12_get(w: &Twin, pool: &[String], rng: &mut Rng, c: &mut Case) -> Res {
    for n in pool.iter().map(String::as_str).chain(ODD_NAMES.iter().copied()).chain(["nowhere", "sin"]) {
        let got = w.p.ctx().get(n);
        let ok = match (w.rc.syms.get(n), got) {
            (None, None) => true,
            (Some(Sym::Const(v)), Some(Symbol::Variable(g))) => bits_eq(*v, *g),
            (Some(Sym::Func(f)), Some(Symbol::Function(g))) => {
                let a: Vec<f64> = (0..f.arity.unwrap_or(3)).map(|_| nice(rng)).collect();
                let Body::User(i) = f.body else { return Err("no such body".into()) };
                f.name == g.name && f.arity == g.nb_args.map(usize::from) && bits_eq(USER[i](&a), (g.func)(&a))
            },
            _ => false,
        };
        ensure!(ok, "get({n:?}) is {got:?}, should be {:?}", w.rc.syms.get(n));
        c.obs();
    }
    Ok(())
}

fn c12_session(rng: &mut Rng, c: &mut Case, steps: usize) -> Res {
    let pool = shared_names(rng);
    let names = loose_names(&pool, rng);
    let mut texts: Vec<String> = (0..steps.max(8) / 4).map(|_| loose_text(rng, &names, &pool, 10)).collect();
    for n in &pool {
        // the bare meaning of every name
        texts.push(n.clone());
        texts.push(format!("1/{n}"));
        texts.push(format!("{n}(2, x)"));
        texts.push(format!("{n}(3)"));
        texts.push(format!("{n}1 + {n}' - {n}_"));
        texts.push(format!("x{n}"));
        texts.push(format!("{n}()"));
    }
    let mut twins = vec![Twin { rc: RefCtx::default(), p: Parser::default() }];
    let mut live: Vec<(usize, Ast, Xprs, Vec<(Env, u64)>)> = vec![];
    let mut hist: Vec<String> = vec![];
    c.desc = format!("history over {pool:?}");
    let fail = |m: String, hist: &[String]| {
        let tail = hist.len().saturating_sub(12);
        format!("{m} after …{:?}", &hist[tail..])
    };
    for _ in 0..steps {
        let k = rng.below(twins.len());
        match rng.below(12) {
            0..=3 => {
                let d = c12_define(&mut twins[k], &pool, rng);
                hist.push(format!("[{k}] {d}"));
            },
            4 if twins.len() < 4 => {
                let w = Twin { rc: twins[k].rc.clone(), p: twins[k].p.clone() };
                twins.push(w);
                hist.push(format!("clone of [{k}]"));
            },
            5 if twins.len() > 1 && rng.one_in(3) => {
                twins.swap_remove(k);
                hist.push(format!("drop of [{k}]"));
            },
            6 => c12_get(&twins[k], &pool, rng, c).map_err(|m| fail(m, &hist))?,
            _ => {
                let t = rng.below(texts.len());
                let w = &twins[k];
                let r = w.p.parse(&texts[t]);
                let told = |m: String| fail(format!("{:?} in [{k}] {:?}: {m}", texts[t], w.rc.syms), &hist);
                let ast = check_parse(&texts[t], &w.rc, &r).map_err(told)?;
                c.obs();
                let (Ok(x), Some(ast)) = (r, ast) else {
                    c.class("rejected on both sides");
                    continue;
                };
                let mut vals = vec![];
                for i in 0..2 {
                    let e = env(rng, &ast.vars(), 15 * i);
                    let v = ev(&x, &vmap(&e)).map_err(told)?;
                    if let Some(j) = judge(&ast, &e, v) {
                        j.map_err(told)?;
                        c.obs();
                    }
                    vals.push((e, canon(v)));
                }
                c.class("accepted");
                if live.len() < 60 {
                    live.push((t, ast, x, vals));
                } else {
                    let at = rng.below(live.len());
                    live[at] = (t, ast, x, vals);
                }
            },
        }
        // what was parsed before keeps its meaning
        if !live.is_empty() {
            let at = rng.below(live.len());
            let (t, ast, x, vals) = &live[at];
            for (e, b) in vals {
                let v = ev(x, &vmap(e))?;
                ensure!(canon(v) == *b, "{}", fail(format!("{:?} parsed before ({ast:?}) now is {} and was {}", texts[*t], fval(v), fval(f64::from_bits(*b))), &hist));
                c.obs();
            }
        }
    }
    drop(twins);
    for (t, _, x, vals) in &live {
        for (e, b) in vals {
            let v = ev(x, &vmap(e))?;
            ensure!(canon(v) == *b, "{:?} changed its value when its parser was dropped", texts[*t]);
            c.obs();
        }
    }
    c.nontrivial(&format!("{hist:?}"));
    Ok(())
}

fn z0() -> f64 {
    17.0
}
macro_rules! fixed_fn {
    ($n:ident, $($p:ident),*) => {
        fn $n($($p: f64),*) -> f64 {
            let a = [$($p),*];
            logged(a.len(), &a)
        }
    };
}
fixed_fn!(z1, a);
fixed_fn!(z2, a, b);
fixed_fn!(z3, a, b, c);
fixed_fn!(z4, a, b, c, d);
fixed_fn!(z5, a, b, c, d, e);
fixed_fn!(z6, a, b, c, d, e, f);
fixed_fn!(z7, a, b, c, d, e, f, g);
fixed_fn!(z8, a, b, c, d, e, f, g, h);
fixed_fn!(z9, a, b, c, d, e, f, g, h, i);
fn zv(a: &[f64]) -> f64 {
    logged(a.len(), a)
}

/// Every form of the declaration macro: name, count, function. The form with a
/// function and a count but neither name nor `dyn` does not compile.
fn macro_forms() -> Vec<(&'static str, Option<u8>, Function)> {
    use xprs::xprs_fn;
    let mut v = vec![];
    macro_rules! forms {
        ($($f:ident $n:tt),*) => {$(
            v.push(("named", Some($n), xprs_fn!("named", $f, $n)));
            v.push(("named", Some($n), xprs_fn!("named", dyn $f, $n)));
            v.push((stringify!($f), Some($n), xprs_fn!(dyn $f, $n)));
        )*};
    }
    forms!(z0 0, z1 1, z2 2, z3 3, z4 4, z5 5, z6 6, z7 7, z8 8, z9 9);
    v.push(("named", None, xprs_fn!("named", zv)));
    v.push(("named", None, xprs_fn!("named", dyn zv)));
    v.push(("zv", None, xprs_fn!(zv)));
    v.push(("zv", None, xprs_fn!(dyn zv)));
    let scale = 3.5;
    v.push(("named", Some(2), xprs_fn!("named", dyn move |a: f64, b: f64| logged(2, &[a, b]) + 0.0 * scale, 2)));
    v.push(("named", None, xprs_fn!("named", dyn move |a: &[f64]| logged(a.len(), a) + 0.0 * scale)));
    v
}

pub fn c12(r: &mut Runner) {
    let forms = macro_forms();
    r.each("declaration forms", 0..forms.len() as u64 * 8, |i, c| {
        let (name, n, f) = &forms[i as usize % forms.len()];
        let mut rng = Rng::new(i);
        ensure!(f.name == *name && f.nb_args == *n, "declared {f:?}, should be {name} with {n:?}");
        let k = n.map_or_else(|| rng.below(12), usize::from);
        let args: Vec<f64> = (0..k).map(|j| (j as f64 + 1.0) * 1.5 + rng.unit()).collect();
        let p = Parser::new_with_ctx(Context::default().with_fn(f.clone()));
        let vars: Vec<String> = (0..k).map(|j| format!("v{j}")).collect();
        let as_vars = format!("{name}({})", vars.join(", "));
        let as_nums = format!("{name}({})", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(","));
        c.desc = as_vars.clone();
        take_log();
        let want = if k == 0 && n.is_some() { 17.0 } else { logged(k, &args) };
        let should: Vec<_> = take_log();
        let m: HashMap<&str, f64> = vars.iter().map(String::as_str).zip(args.iter().copied()).collect();
        for t in [&as_vars, &as_nums] {
            let x = p.parse(t).map_err(|e| format!("{t:?} rejected: {e}"))?;
            // a call with constants only may be made when parsing
            let folded = take_log();
            ensure!(folded.is_empty() || folded == should, "{t:?} received {folded:?} instead of {should:?} when parsed");
            for form in 0..FORMS.len() {
                let v = value_in(form, &x, &m)?;
                ensure!(bits_eq(v, want), "{t:?} is {} should be {} by {}", fval(v), fval(want), FORMS[form]);
                let mut log = take_log();
                if !folded.is_empty() {
                    ensure!(log.is_empty(), "{t:?} was applied when parsed and again by {}", FORMS[form]);
                    continue;
                }
                if form == 4 && x.vars.is_empty() {
                    // checked and unchecked
                    let second = log.split_off(log.len() / 2);
                    ensure!(second == log, "{t:?} received {second:?} after {log:?}");
                }
                ensure!(log == should, "{t:?} received {log:?} instead of {should:?} by {}", FORMS[form]);
                c.obs();
            }
        }
        c.nontrivial(&format!("{as_nums} {f:?}"));
        Ok(())
    });
    r.random("histories", 1200, |rng, c| c12_session(rng, c, 80));
    r.random("long histories", 12, |rng, c| c12_session(rng, c, 3000));
    // arguments in written order, results where the call stands
    r.random("arguments", 4000, |rng, c| {
        let mut rc = RefCtx::default();
        let mut ctx = Context::default();
        let mut names = Names::plain(3, rng);
        names.funcs.clear();
        for id in 0..rng.range(1, 4) {
            let n = (*rng.pick(FUN_POOL)).to_owned();
            let arity = if rng.one_in(3) { None } else { Some(rng.below(6)) };
            ctx.set_fn(log_fn(&n, id, arity.map(|a| a as u8), rng.bool()));
            names.vars.retain(|v| *v != n);
            names.funcs.retain(|(f, _)| *f != n);
            names.funcs.push((n.clone(), arity));
            rc.syms.insert(n.clone(), Sym::Func(Func { name: n, body: Body::Ext(id), arity }));
        }
        let b = rng.range(2, 14);
        let s = Gen { names: &names, shapes: 0, calls: 60, fact: 10, var_leaves: 65 }.syn(rng, b);
        let t = render(&s, Parens::Some(40), rng);
        c.desc = t.clone();
        let p = Parser::new_with_ctx(ctx);
        take_log();
        let Ok(a) = parse(&t, &rc, MODE) else { return Ok(()) };
        let x = p.parse(&t).map_err(|e| format!("rejected: {e}"))?;
        let at_parse = take_log();
        let e = env(rng, &a.vars(), 0);
        let form = [0, 1, 2, 3, 5][rng.below(5)];
        let v = value_in(form, &x, &vmap(&e))?;
        let mut got = at_parse;
        got.extend(take_log());
        let _ = eval_ext(&a, &e, Some(&logged));
        let mut want = take_log();
        if !OPT {
            ensure!(exact_ok_ext(&a, &e, v, Some(&logged)), "value is {}", fval(v));
            take_log();
            c.obs();
        }
        // with optimisations, calls may be made at parse time or vanish
        let key = |l: &(usize, Vec<f64>)| (l.0, l.1.iter().map(|v| canon(*v)).collect::<Vec<_>>());
        got.sort_by_key(key);
        want.sort_by_key(key);
        if !OPT {
            let (g, w): (Vec<_>, Vec<_>) = (got.iter().map(key).collect(), want.iter().map(key).collect());
            ensure!(g == w, "functions received {got:?} instead of {want:?} with {e:?}");
            c.obs();
        } else if robust_eval_ext(&a, &e, Some(&logged)).is_some() {
            take_log();
            let w = robust_eval_ext(&a, &e, Some(&logged)).unwrap_or(f64::NAN);
            take_log();
            ensure!(zero_eq(v, w), "value is {} should be {} with {e:?}", fval(v), fval(w));
            let z = |l: &(usize, Vec<f64>)| (l.0, l.1.iter().map(|v| canon(*v + 0.0)).collect::<Vec<_>>());
            let mut left: Vec<_> = want.iter().map(z).collect();
            for g in got.iter().map(z) {
                match left.iter().position(|w| *w == g) {
                    Some(i) => {
                        left.swap_remove(i);
                    },
                    None => return Err(format!("a function received {g:?}, expected {want:?} with {e:?}")),
                }
                c.obs();
            }
        }
        if !want.is_empty() {
            c.nontrivial(&t);
        }
        Ok(())
    });
    crate::endure::definitions(r);
}

/* ---------------------------------------------------------------- C13 */

fn numbers_in(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).filter_map(|w| w.parse().ok()).collect()
}

/// One text of which the model knows what calls are wrong.
fn c13_one(p: &Parser, rc: &RefCtx, t: &str, rng: &mut Rng, c: &mut Case) -> Res {
    take_log();
    let r = p.parse(t);
    let log = take_log();
    let want = parse(t, rc, MODE);
    // every application so far had the declared number of values
    let arities: BTreeMap<usize, Option<usize>> = rc
        .syms
        .values()
        .filter_map(|s| match s {
            Sym::Func(Func { body: Body::Ext(i), arity, .. }) => Some((*i, *arity)),
            _ => None,
        })
        .collect();
    let legal = |log: &[(usize, Vec<f64>)]| -> Res {
        for (id, a) in log {
            if let Some(Some(n)) = arities.get(id) {
                ensure!(a.len() == *n, "a function of {n} arguments was applied to {} values", a.len());
            }
        }
        Ok(())
    };
    legal(&log)?;
    c.obs();
    match (want, r) {
        (Ok(a), Ok(x)) => {
            c.class("accepted");
            let mut written: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
            a.visit(&mut |n| {
                if let Ast::Call(Func { body: Body::Ext(i), .. }, args) = n {
                    written.entry(*i).or_default().push(args.len());
                }
            });
            let e = env(rng, &a.vars(), 10);
            let m = vmap(&e);
            let partial: Vec<(&str, f64)> = x.vars.iter().map(|v| (*v, e[*v])).collect();
            let mut logs = vec![];
            let mut first = None;
            for form in 0..FORMS.len() {
                let v = value_in(form, &x, &m)?;
                let l = take_log();
                if form == 4 && x.vars.is_empty() {
                    // made checked and unchecked
                    legal(&l)?;
                } else {
                    logs.push((FORMS[form], log.iter().cloned().chain(l).collect()));
                }
                let f = *first.get_or_insert(v);
                ensure!(bits_eq(f, v), "{} gives {} and evaluation {}", FORMS[form], fval(v), fval(f));
            }
            x.clone().simplify_for_multiple(&partial);
            logs.push(("partial evaluation", take_log()));
            for (how, l) in &logs {
                let how: &str = how;
                let l: &Vec<(usize, Vec<f64>)> = l;
                legal(l)?;
                for (id, a) in l {
                    let ok = written.get(id).is_some_and(|w| w.contains(&a.len()));
                    ensure!(ok, "function {id} was applied to {} values by {how}, calls written have {:?}", a.len(), written.get(id));
                    c.obs();
                }
                if !OPT && how != "partial evaluation" {
                    let mut got: Vec<(usize, usize)> = l.iter().map(|(i, a)| (*i, a.len())).collect();
                    let mut w: Vec<(usize, usize)> = written.iter().flat_map(|(i, v)| v.iter().map(|n| (*i, *n))).collect();
                    got.sort_unstable();
                    w.sort_unstable();
                    ensure!(got == w, "applications {got:?} by {how} for the calls {w:?}");
                }
            }
        },
        (Err(RefErr::Arity { declared, written, name, .. }), Err(e)) => {
            c.class("wrong count");
            let m = e.to_string();
            ensure!(m.contains("argument"), "{name} with {written} of {declared} arguments is rejected for: {m}");
            ensure!(numbers_in(&m) == [declared, written], "{name} declared with {declared} and written with {written} arguments is reported as: {m}");
        },
        (Err(_), Err(_)) => c.class("rejected otherwise"),
        (Ok(_), Err(e)) => return Err(format!("rejected: {e}")),
        (Err(e), Ok(x)) => return Err(format!("accepted as {x}, should be rejected: {e:?}")),
    }
    Ok(())
}

pub fn c13(r: &mut Runner) {
    // every declared count with written counts around it and around the limits
    let near = |n: u64| -> Vec<u64> {
        let mut v: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513];
        v.extend(n.saturating_sub(2)..=n + 2);
        v.extend([n + 255, n + 256, n + 257, n * 2]);
        v.sort_unstable();
        v.dedup();
        v
    };
    r.each("declared counts", 0..257 * 2, |i, c| {
        let n = i % 257;
        let arity = u8::try_from(n).ok();
        let mut rng = Rng::new(i);
        let p = Parser::new_with_ctx(Context::default().with_fn(log_fn("f", (i % 3) as usize, arity, i >= 257)));
        let mut rc = RefCtx::default();
        let f = Func { name: "f".into(), body: Body::Ext((i % 3) as usize), arity: arity.map(usize::from) };
        rc.syms.insert("f".into(), Sym::Func(f));
        for k in near(n) {
            let mut t = String::from("f(");
            for j in 0..k {
                if j > 0 {
                    t.push(',');
                }
                match (i + j) % 3 {
                    0 => t.push('x'),
                    1 => t.push_str(&j.to_string()),
                    _ => t.push_str("(y+1)"),
                }
            }
            t.push(')');
            c13_one(&p, &rc, &t, &mut rng, c).map_err(|m| format!("f declared with {arity:?} written with {k}: {m}"))?;
            c.nontrivial(&format!("{arity:?} {k}"));
        }
        c.desc = format!("f declared with {arity:?}");
        Ok(())
    });
    let def = RefCtx::default();
    let p = Parser::default();
    r.each("built-ins", 0..BUILTINS.len() as u64 * 14, |i, c| {
        let (n, _) = BUILTINS[i as usize % BUILTINS.len()];
        let k = [0, 1, 2, 3, 4, 5, 6, 9, 20, 255, 256, 257, 258, 300][i as usize / BUILTINS.len()];
        let mut rng = Rng::new(i);
        for form in 0..3 {
            let args: Vec<String> = (0..k).map(|j| if form == 0 { "1.5".into() } else if form == 1 { "x".into() } else { format!("max({j}, x)") }).collect();
            for t in [format!("{n}({})", args.join(",")), format!("2 - {n} (\t{} ) x", args.join(" , ")), format!("max(1, {n}({}), y)", args.join(","))] {
                c.desc = short(&t);
                c13_one(&p, &def, &t, &mut rng, c)?;
                c.nontrivial(&t);
            }
        }
        Ok(())
    });
    // names of functions on their own
    const AFTER: &[&str] = &[
        "", " ", "x", " x", "2", " 2", "+1", "*x", "!", "^2", ")", ",", ",1", ")(x)", "[1]", "é", ".5", " .5", "-1", "%2", "/x", "\n", "\n2", "'(1)", "_", "$", "=",
        "(", " (", "(,)", "(,1)", "(1,)", "(1,,2)", "(1 2)", "((1,2))", "()", "( )", "(\n)", "(1", "(1,2", "(x))", "(1)(2)", "(1)2", "(1,2)x", "(x)!", "(x)^2", "((x))", "(f)", "(sin)", "(f(1)", "(f(1))", "(sin(x))", "(max())", "(max(),max)"
    ];
    const BEFORE: &[&str] = &["", "2", "x ", "-", "1+", "(", "max(", "max(1,", "x^", "3*", "sin(", "x(", "f(", "g(1,"];
    let mut logging = RefCtx::default();
    let mut lctx = Context::default();
    for (id, (n, a)) in [("f", Some(1usize)), ("g", Some(2)), ("h", None), ("k0", Some(0))].into_iter().enumerate() {
        lctx.set_fn(log_fn(n, id, a.map(|a| a as u8), id % 2 == 0));
        logging.syms.insert(n.into(), Sym::Func(Func { name: n.into(), body: Body::Ext(id), arity: a }));
    }
    let lp = Parser::new_with_ctx(lctx);
    let names: Vec<&str> = BUILTINS.iter().map(|b| b.0).chain(["f", "g", "h", "k0"]).collect();
    r.each("bare names", 0..(names.len() * AFTER.len() * BEFORE.len()) as u64, |i, c| {
        let i = i as usize;
        let n = names[i % names.len()];
        let a = AFTER[i / names.len() % AFTER.len()];
        let b = BEFORE[i / names.len() / AFTER.len()];
        let mut rng = Rng::new(i as u64);
        for close in ["", ")"] {
            let t = format!("{b}{n}{a}{close}");
            c.desc = t.clone();
            c13_one(&lp, &logging, &t, &mut rng, c)?;
            c.nontrivial(&t);
        }
        Ok(())
    });
    // nested calls, one of them wrong
    r.random("nested calls", 20000, |rng, c| {
        let mut names = Names::plain(2, rng);
        names.vars.retain(|v| !logging.syms.contains_key(v));
        if rng.bool() {
            names.funcs.clear();
        }
        for _ in 0..8 {
            for (n, a) in [("f", Some(1usize)), ("g", Some(2)), ("h", None), ("k0", Some(0))] {
                names.funcs.push((n.into(), a));
            }
        }
        if rng.bool() {
            // the generator believes in other counts for one of them
            let k = rng.below(names.funcs.len());
            names.funcs[k].1 = Some(rng.below(5));
        }
        let b = rng.range(2, 20);
        let s = Gen { names: &names, shapes: 5, calls: 70, fact: 15, var_leaves: 50 }.syn(rng, b);
        let mut t = render(&s, Parens::Some(30), rng);
        if rng.one_in(6) {
            t = mutate(rng, &t, &names);
        }
        c.desc = t.clone();
        c13_one(&lp, &logging, &t, rng, c)?;
        c.nontrivial(&t);
        Ok(())
    });
    r.random("in large surroundings", 600, |rng, c| {
        let (n, a) = *rng.pick(&[("f", 1usize), ("g", 2), ("h", 3), ("k0", 0), ("sin", 1), ("hypot", 2), ("max", 4)]);
        let k = if rng.bool() { a } else { rng.below(5) };
        let args: Vec<&str> = (0..k).map(|_| *rng.pick(&["1", "x", "f(2)", "g(x,1)", "y+1"])).collect();
        let t = surround(rng, &format!("{n}({})", args.join(",")), 1500);
        c.desc = t.clone();
        c13_one(&lp, &logging, &t, rng, c)?;
        c.nontrivial(&t);
        Ok(())
    });
    r.random("very many arguments", 3, |rng, c| {
        for (n, k) in [("f", 65537), ("g", 65538), ("h", 65536), ("k0", 65536), ("sin", 65537), ("sum", 65537), ("f", 257), ("k0", 256), ("g", 258)] {
            let mut t = format!("{n}(");
            for j in 0..k {
                t.push_str(if j == 0 { "" } else { "," });
                t.push_str(rng.pick(&["1", "x", "y"]));
            }
            t.push(')');
            c.desc = format!("{n} of {k} arguments");
            c13_one(&lp, &logging, &t, rng, c)?;
            c.nontrivial(&t);
        }
        Ok(())
    });
}

/* ---------------------------------------------------------------- C20 */

fn quoted(s: &str) -> Vec<String> {
    s.split('`').skip(1).step_by(2).filter(|w| !w.is_empty()).map(str::to_owned).collect()
}

fn c20_one(declared: &Option<BTreeSet<String>>, free: &Parser, p: &Parser, rc: &RefCtx, t: &str, c: &mut Case) -> Res {
    use miette::Diagnostic;
    let without = free.parse(t);
    let with = p.parse(t);
    c.obs();
    let x = match &without {
        Err(_) => {
            ensure!(outcome(&with) == outcome(&without), "{} without declaration, {} with {declared:?}", outcome(&without), outcome(&with));
            c.class("rejected anyway");
            return Ok(());
        },
        Ok(x) => x,
    };
    let used: BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
    if !OPT {
        let a = parse(t, rc, MODE).map_err(|e| format!("accepted, should be rejected: {e:?}"))?;
        ensure!(a.vars() == used, "uses {used:?}, should be {:?}", a.vars());
    }
    let missing: BTreeSet<String> = match declared {
        None => BTreeSet::new(),
        Some(d) => used.difference(d).cloned().collect(),
    };
    match with {
        Ok(y) => {
            ensure!(missing.is_empty(), "accepted although {missing:?} are not declared, only {declared:?}");
            ensure!(dbg_of(&y) == dbg_of(x), "the declaration changed the expression to {y} from {x}");
            c.class("accepted");
        },
        Err(e) => {
            let m = e.to_string();
            ensure!(!missing.is_empty(), "rejected although all of {used:?} are in {declared:?}: {m}");
            let named = quoted(&m);
            ensure!(named.len() == 1 && missing.contains(&named[0]), "error names {named:?} ({m}) but undeclared are {missing:?}");
            let help = e.help().map(|h| h.to_string()).unwrap_or_default();
            let mut l = quoted(&help);
            l.sort();
            let d: Vec<String> = declared.iter().flatten().filter(|n| !n.is_empty()).cloned().collect();
            ensure!(l == d, "help lists {l:?} ({help}) but declared are {d:?}");
            c.class("undeclared variable");
        },
    }
    Ok(())
}

pub fn c20(r: &mut Runner) {
    r.random("declarations", 4000, |rng, c| {
        let mut w = World::random(rng);
        w.rc.expected = None;
        // definitions in any order with the declaration
        let bits = rng.u64();
        let free = Parser::new_with_ctx(mk_ctx(&w.rc, bits));
        let mut p = Parser::new_with_ctx(mk_ctx(&w.rc, bits));
        let mut declared: Option<BTreeSet<String>> = None;
        let mut hist = vec![];
        for _ in 0..rng.range(2, 9) {
            let g = text_of(&w, rng, 12, 30, 20);
            let t = if rng.one_in(8) { mutate(rng, &g, &w.names) } else { g };
            if rng.pct(70) {
                let used: Vec<String> = match free.parse(&t) {
                    Ok(x) => x.vars.iter().map(|s| (*s).to_owned()).collect(),
                    Err(_) => w.names.vars.clone(),
                };
                let mut d: BTreeSet<String> = BTreeSet::new();
                match rng.below(6) {
                    0 => {},
                    1 => d.extend(used.clone()),
                    2 => d.extend(w.names.vars.iter().cloned()),
                    _ => d.extend(used.iter().filter(|_| rng.pct(75)).cloned()),
                }
                for v in &used {
                    // resembling names
                    match rng.below(12) {
                        0 => drop(d.insert(format!("{v}1"))),
                        1 => drop(d.insert(v.to_uppercase())),
                        2 => drop(d.insert(v.to_lowercase())),
                        3 => drop(d.insert(v[..1].to_owned())),
                        4 => drop(d.insert(format!("{v} "))),
                        5 => drop(d.insert(format!("{v}'"))),
                        _ => {},
                    }
                }
                if rng.one_in(5) {
                    d.insert((*rng.pick(&["pi", "sin", "é", "unused", "e", "max"])).to_owned());
                }
                let s: HashSet<&'static str> = d.iter().map(|n| intern(n)).collect();
                match rng.below(4) {
                    0 => *p.ctx_mut() = std::mem::take(p.ctx_mut()).with_expected_vars(s),
                    1 => p = Parser::new_with_ctx(mk_ctx(&w.rc, bits).with_expected_vars(s)),
                    _ => p.ctx_mut().set_expected_vars(s),
                }
                // definitions made after the declaration leave it alone
                if rng.one_in(4) {
                    let n = format!("later{}", rng.below(4));
                    p.ctx_mut().set_var(intern(&n), 1.0);
                }
                if rng.one_in(5) {
                    // the definitions replaced, by none and then by the same as before
                    let syms: HashMap<&'static str, Symbol> =
                        w.rc.syms.keys().filter_map(|n| free.ctx().get(n).map(|s| (intern(n), s.clone()))).collect();
                    let ctx = std::mem::take(p.ctx_mut());
                    let ctx = if rng.bool() { ctx.with_symbols(HashMap::new()) } else { ctx };
                    *p.ctx_mut() = ctx.with_symbols(syms);
                }
                hist.push(format!("{d:?}"));
                declared = Some(d);
            }
            if rng.one_in(6) {
                p = p.clone();
            }
            let got: Option<BTreeSet<String>> = p.ctx().get_expected_vars().map(|s| s.iter().map(|n| (*n).to_owned()).collect());
            ensure!(got == declared, "the declared variables are {got:?}, should be {declared:?}");
            c.desc = format!("{t:?}{} declaring {hist:?}", w.desc_ctx());
            c20_one(&declared, &free, &p, &w.rc, &t, c)?;
            c.nontrivial(&format!("{t}{declared:?}"));
        }
        Ok(())
    });
    // definitions before and after the declaration, of names that resemble the declared ones
    r.random("definitions and declarations", 3000, |rng, c| {
        const POOL: [&str; 12] = ["x", "y", "f", "g", "f2", "xs", "x1", "F", "fx", "sin", "g_", "pi"];
        let (mut rc, mut declared, mut hist) = (RefCtx::default(), None::<BTreeSet<String>>, vec![]);
        let (mut free, mut ctx) = (Context::default(), Context::default());
        for _ in 0..rng.range(2, 8) {
            let n = *rng.pick(&POOL);
            let by = rng.bool();
            match rng.below(3) {
                0 => {
                    rc.syms.insert(n.into(), Sym::Const(2.5));
                    free.set_var(n, 2.5);
                    ctx = if by { ctx.with_var(n, 2.5) } else { ctx.set_var(n, 2.5); ctx };
                    hist.push(format!("{n}=2.5"));
                },
                1 => {
                    let b = rng.below(9);
                    let def = Sym::Func(Func { name: n.into(), body: Body::User(b), arity: Some(1) });
                    let one: RefCtx = RefCtx { syms: [(n.to_owned(), def.clone())].into(), ..RefCtx::default() };
                    let Some(Symbol::Function(f)) = mk_ctx(&one, rng.u64()).get(n).cloned() else { return Err("no function".into()) };
                    rc.syms.insert(n.into(), def);
                    free.set_fn(f.clone());
                    ctx = if by { ctx.with_fn(f) } else { ctx.set_fn(f); ctx };
                    hist.push(format!("{n}()"));
                },
                _ => {
                    let d: BTreeSet<String> = POOL.iter().filter(|_| rng.pct(60)).map(|n| (*n).to_owned()).collect();
                    let s: HashSet<&'static str> = d.iter().map(|n| intern(n)).collect();
                    ctx = if by { ctx.with_expected_vars(s) } else { ctx.set_expected_vars(s); ctx };
                    hist.push(format!("{d:?}"));
                    declared = Some(d);
                },
            }
            let got: Option<BTreeSet<String>> = ctx.get_expected_vars().map(|s| s.iter().map(|n| (*n).to_owned()).collect());
            c.desc = format!("{hist:?}");
            ensure!(got == declared, "the declared variables are {got:?}, should be {declared:?}");
            let (p, q) = (Parser::new_with_ctx(ctx.clone()), Parser::new_with_ctx(free.clone()));
            for _ in 0..3 {
                let mut t = String::new();
                for k in 0..rng.range(1, 4) {
                    let n = *rng.pick(&POOL);
                    if k > 0 {
                        t.push('+');
                    }
                    t.push_str(n);
                    if matches!(rc.resolve(n), Some(Sym::Func(_))) {
                        t.push_str(&format!("({})", rng.pick(&["1", "x", "y*2", "xs"])));
                    }
                }
                c.desc = format!("{t:?} with {hist:?}");
                c20_one(&declared, &q, &p, &rc, &t, c)?;
                c.nontrivial(&c.desc.clone());
            }
        }
        Ok(())
    });
    r.random("in large surroundings", 400, |rng, c| {
        let mut w = World::random(rng);
        w.rc.expected = None;
        let bits = rng.u64();
        let free = Parser::new_with_ctx(mk_ctx(&w.rc, bits));
        let t = text_of(&w, rng, 6, 20, 20);
        let t = surround(rng, &t, 1500);
        let Ok(x) = free.parse(&t) else { return Ok(()) };
        let mut d: BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
        for _ in 0..rng.below(3) {
            let k = rng.below(d.len().max(1));
            if let Some(v) = d.iter().nth(k).cloned() {
                d.remove(&v);
                d.insert(format!("{v}{v}"));
            }
        }
        let p = Parser::new_with_ctx(mk_ctx(&w.rc, bits).with_expected_vars(d.iter().map(|n| intern(n)).collect()));
        c.desc = format!("{t:?}{} declaring {d:?}", w.desc_ctx());
        c.nontrivial(&c.desc.clone());
        c20_one(&Some(d), &free, &p, &w.rc, &t, c)
    });
    // each variable of an expression left out in turn
    r.random("one left out", 3000, |rng, c| {
        let mut w = World::random(rng);
        w.rc.expected = None;
        let bits = rng.u64();
        let free = Parser::new_with_ctx(mk_ctx(&w.rc, bits));
        let t = text_of(&w, rng, 20, 20, 20);
        let Ok(x) = free.parse(&t) else { return Ok(()) };
        let vars: BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
        let declare = |d: BTreeSet<String>, c: &mut Case| -> Res {
            let p = Parser::new_with_ctx(mk_ctx(&w.rc, bits).with_expected_vars(d.iter().map(|n| intern(n)).collect()));
            c.desc = format!("{t:?}{} declaring {d:?}", w.desc_ctx());
            c.nontrivial(&format!("{t}{d:?}"));
            c20_one(&Some(d), &free, &p, &w.rc, &t, c)
        };
        for v in &vars {
            let mut d = vars.clone();
            d.remove(v);
            declare(d.clone(), c)?;
            d.insert(format!("{v}_"));
            d.insert("other".into());
            declare(d, c)?;
        }
        declare(vars.clone(), c)?;
        let mut all = vars.clone();
        all.extend(["p".to_owned(), "q2".to_owned()]);
        declare(all, c)?;
        declare(BTreeSet::new(), c)
    });
    // many variables
    r.random("many variables", 20, |rng, c| {
        let n = rng.range(200, 700);
        let names: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        let t = names.join("+");
        let free = Parser::default();
        let out = rng.below(n);
        for k in [n, out, 0, n - 1] {
            let d: BTreeSet<String> = names.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, s)| s.clone()).collect();
            let p = Parser::new_with_ctx(Context::default().with_expected_vars(d.iter().map(|n| intern(n)).collect()));
            c.desc = format!("v0 + … + v{} without v{k}", n - 1);
            c20_one(&Some(d), &free, &p, &RefCtx::default(), &t, c)?;
        }
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    crate::endure::declarations(r);
}

//! Monitor of the amount of work: C21.
use crate::common::*;
use crate::ensure;
use refmodel::gen::*;
use refmodel::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering::Relaxed;
use xprs::{Context, Function, Parser, Xprs};

/// Processor time a single operation on a short text may take. Thousands of
/// times what it takes, little to an exponential.
const LIMIT_S: f64 = 3.0;
/// How much more memory requests twice the levels may need (a degree above 4).
const GROWTH: u64 = 24;

thread_local! {
    static APPLIED: RefCell<BTreeMap<usize, u64>> = const { RefCell::new(BTreeMap::new()) };
}
fn applied() -> BTreeMap<usize, u64> {
    APPLIED.with(|a| std::mem::take(&mut *a.borrow_mut()))
}
fn counting(name: &str, id: usize, arity: Option<u8>) -> Function {
    Function::new_dyn(
        intern(name),
        move |a: &[f64]| {
            APPLIED.with(|m| *m.borrow_mut().entry(id).or_default() += 1);
            a.iter().fold(id as f64 + 1.5, |s, x| s * 0.5 + x)
        },
        arity,
    )
}

/// What an operation costs: (processor seconds, memory requests).
fn cost<T>(f: impl FnOnce() -> T) -> (T, f64, u64) {
    let (t, a) = (thread_cpu(), ALLOCS.load(Relaxed));
    let r = f();
    (r, thread_cpu() - t, ALLOCS.load(Relaxed) - a)
}

/// Operations performed on a text: name, processor time, memory requests.
struct Meter {
    costs: Vec<(&'static str, f64, u64)>,
    worst: (f64, &'static str),
}
impl Meter {
    fn new() -> Self {
        Meter { costs: vec![], worst: (0.0, "") }
    }
    fn run<T>(&mut self, n: &'static str, f: impl FnOnce() -> T) -> Result<T, String> {
        let (r, t, a) = cost(f);
        self.costs.push((n, t, a));
        if t > self.worst.0 {
            self.worst = (t, n);
        }
        ensure_fast(n, t)?;
        Ok(r)
    }
}
fn ensure_fast(n: &str, t: f64) -> Res {
    ensure!(t < LIMIT_S, "{n} took {t:.1} s of processor time");
    Ok(())
}

/// Everything one can do with a text and a resembling one, metered.
fn exercise(p: &Parser, text: &str, other: &str, m: &mut Meter) -> Result<bool, String> {
    let r = m.run("parsing", || p.parse(text))?;
    let x: Xprs = match r {
        Ok(x) => x,
        Err(e) => {
            m.run("displaying the error", || e.to_string().len())?;
            m.run("dropping the error", || drop(e))?;
            return Ok(false);
        },
    };
    m.run("displaying", || format!("{x}").len())?;
    m.run("debugging", || format!("{x:?}").len())?;
    let y = m.run("cloning", || x.clone())?;
    m.run("comparing with a clone", || x == y)?;
    if let Ok(z) = m.run("parsing another", || p.parse(other))? {
        m.run("comparing with another", || (x == z, z == x))?;
        m.run("ordering", || x.root.partial_cmp(&z.root))?;
    }
    let mut names: Vec<&str> = x.vars.iter().copied().collect();
    names.sort_unstable();
    let list: Vec<(&str, f64)> = names.iter().enumerate().map(|(i, v)| (*v, 1.25 + i as f64)).collect();
    let vals: HashMap<&str, f64> = list.iter().copied().collect();
    m.run("evaluating", || x.eval(&vals).is_ok())?;
    m.run("evaluating unchecked", || x.eval_unchecked(&vals).is_nan())?;
    if let Some(v) = list.first() {
        let z = y.clone();
        m.run("simplifying for one variable", || z.simplify_for(*v))?;
    }
    let mut z = y.clone();
    m.run("simplifying for no variable", || z.simplify_for_in_place(("not there", 1.0)))?;
    let z = y.clone();
    m.run("simplifying for all variables", || z.simplify_for_multiple(&list))?;
    let args: Vec<f64> = list.iter().map(|v| v.1).collect();
    let f = m.run("binding", || y.bind_n_runtime(&names))?;
    if let Ok(f) = f {
        m.run("calling", || f(&args).is_ok())?;
    }
    m.run("dropping", || drop(x))?;
    Ok(true)
}

/// Text around a smaller expression.
const FRAMES: &[(&str, &str)] = &[
    ("(", ")"),
    ("-", ""),
    ("+", ""),
    ("-(", ")"),
    ("", "!"),
    ("(", ")!"),
    ("sin(", ")"),
    ("max(x,", ")"),
    ("max(", ",y)"),
    ("hypot(", ",2)"),
    ("sum(1,", ",x,y)"),
    ("x+", ""),
    ("x-", ""),
    ("x*", ""),
    ("x/", ""),
    ("x%", ""),
    ("x^", ""),
    ("", "+x"),
    ("", "-y"),
    ("", "*x"),
    ("", "/y"),
    ("", "%2"),
    ("", "^2"),
    ("1+(", ")"),
    ("x-(", ")"),
    ("2*(", ")"),
    ("1/(", ")"),
    ("x^(", ")"),
    ("2^(", ")"),
    ("x%(", ")"),
    ("(", ")+1"),
    ("(", ")-x"),
    ("(", ")*2"),
    ("(", ")/x"),
    ("(", ")^x"),
    ("(", ")%x"),
    ("2(", ")"),
    ("x(", ")"),
    ("(", ")(x)"),
    ("(", ")x"),
    ("0+(", ")"),
    ("1*(", ")"),
    ("0*(", ")"),
    ("(", ")^1"),
    ("(", ")/1"),
    ("-(-", ")"),
    ("2+(3*", ")"),
    ("sqrt(abs(", "))"),
    ("(x+y)-(", ")"),
    ("(y*x)/(x*y+", ")"),
    ("max(1,2,", ")"),
    ("min(", ",x,3)"),
];

fn nest(frames: &[usize], core: &str, levels: usize) -> String {
    let (mut a, mut b) = (String::new(), String::new());
    for i in 0..levels {
        let f = FRAMES[frames[(levels - 1 - i) % frames.len()]];
        a.push_str(f.0);
        b.insert_str(0, f.1);
    }
    format!("{a}{core}{b}")
}

/// One family at growing sizes.
fn family(p: &Parser, make: &dyn Fn(usize) -> (String, String), sizes: &[usize], c: &mut Case, worst: &RefCell<(f64, String)>) -> Res {
    let mut last: Option<(usize, Vec<(&'static str, u64)>)> = None;
    for &n in sizes {
        let (t, u) = make(n);
        if t.len() > 500 {
            break;
        }
        c.desc = format!("{n} levels: {t}");
        c.nontrivial(&t);
        let mut m = Meter::new();
        let ok = exercise(p, &t, &u, &mut m)?;
        c.observed += m.costs.len() as u64;
        c.class(if ok { "accepted" } else { "rejected" });
        if m.worst.0 > worst.borrow().0 {
            *worst.borrow_mut() = (m.worst.0, format!("{} of {}", m.worst.1, short(&t)));
        }
        let now: Vec<(&'static str, u64)> = m.costs.iter().map(|c| (c.0, c.2)).collect();
        if let Some((k, before)) = &last {
            if n == 2 * k {
                for (w, a) in &now {
                    if let Some((_, b)) = before.iter().find(|x| x.0 == *w) {
                        ensure!(*a <= GROWTH * (*b).max(60 * n as u64), "{w}: {a} memory requests for {n} levels, {b} for {k}");
                    }
                }
            }
        }
        last = Some((n, now));
    }
    Ok(())
}

/// A random text in which every call has a function of its own.
fn counted_calls(rng: &mut Rng) -> (String, Context<'static>, usize) {
    let mut ctx = Context::default();
    let mut names = Names::plain(3, rng);
    names.funcs.clear();
    let arities: Vec<Option<usize>> = (0..24).map(|_| if rng.one_in(3) { None } else { Some(rng.below(4)) }).collect();
    for (i, a) in arities.iter().enumerate() {
        names.funcs.push((format!("call{i}"), *a));
    }
    let b = rng.range(2, 26);
    let mut s = Gen { names: &names, shapes: 15, calls: 45, fact: 15, var_leaves: 45 }.syn(rng, b);
    // rename so that each occurrence counts on its own
    let mut used = 0;
    fn rename(s: &mut Syn, used: &mut usize, ctx: &mut Context<'static>, ar: &[Option<usize>]) {
        match s {
            Syn::Lit(_) | Syn::Id(_) => {},
            Syn::Un(_, a) => rename(a, used, ctx, ar),
            Syn::Bin(_, a, b, _) => {
                rename(a, used, ctx, ar);
                rename(b, used, ctx, ar);
            },
            Syn::Call(n, args) => {
                let old: usize = n.trim_start_matches("call").parse().unwrap_or(0);
                let id = *used;
                *used += 1;
                *n = format!("call{id}");
                ctx.set_fn(counting(n, id, ar[old].map(|a| a as u8)));
                for a in args {
                    rename(a, used, ctx, ar);
                }
            },
        }
    }
    rename(&mut s, &mut used, &mut ctx, &arities);
    let p = if rng.bool() { Parens::Full } else { Parens::Some(30) };
    (render(&s, p, rng), ctx, used)
}

fn at_most_once(what: &str, c: &mut Case) -> Result<BTreeMap<usize, u64>, String> {
    let a = applied();
    c.obs();
    for (id, n) in &a {
        ensure!(*n <= 1, "{what} applied call{id} {n} times");
    }
    Ok(a)
}

pub fn c21(r: &mut Runner) {
    let p = Parser::default();
    let worst = RefCell::new((0.0, String::new()));
    const CORES: &[&str] = &["x", "1", "2x", "x+y", "(x+y)*(y+x)", "x!", "sin(x)", "(x-y)"];
    let k = FRAMES.len();
    r.each("one frame", 0..(k * CORES.len()) as u64, |i, c| {
        let (f, core) = ([i as usize % k], CORES[i as usize / k]);
        family(&p, &|n| (nest(&f, core, n), nest(&f, "y", n)), &[4, 8, 16, 32, 64, 128], c, &worst)
    });
    r.each("two frames", 0..(k * k) as u64, |i, c| {
        let f = [i as usize % k, i as usize / k];
        let core = CORES[(i as usize * 7) % CORES.len()];
        family(&p, &|n| (nest(&f, core, n), nest(&[f[1], f[0]], core, n)), &[8, 16, 32, 64, 128], c, &worst)
    });
    r.random("several frames", 900, |rng, c| {
        let f: Vec<usize> = (0..rng.range(3, 6)).map(|_| rng.below(k)).collect();
        let core = *rng.pick(CORES);
        family(&p, &|n| (nest(&f, core, n), nest(&f, "y", n)), &[8, 16, 32, 64, 128], c, &worst)
    });
    // nothing of it for the first, or the last, time
    const AROUND: &[(&str, &str)] = &[("x+y+", ""), ("", "+x+y"), ("max(x,y,", ")"), ("(", ")*(y+x)"), ("2 x y (", ")")];
    r.each("among others", 0..(k * AROUND.len()) as u64, |i, c| {
        let (f, (before, after)) = ([i as usize % k], AROUND[i as usize / k]);
        let core = CORES[(i as usize * 7) % CORES.len()];
        let make = |core: &str, n: usize| format!("{before}{}{after}", nest(&f, core, n));
        family(&p, &|n| (make(core, n), make("y", n)), &[8, 16, 32, 64, 128], c, &worst)
    });
    // runs of tokens, most of them errors
    const RUN: &[&str] = &["(", ")", ",", "$", "é", "max", "sin(", "max(", "1.1.1", "1 1 ", "x ", "+", "-", "*", "^", "!", "%", "(x", "x(", "(,", "max(,", "sin()", "@(", "(&", "2(", "-(", "x)", "_", ".", "'", "x'", "1e", "=", "[", "\u{1}"];
    r.each("runs of tokens", 0..(RUN.len() * (RUN.len() + 1) * 3) as u64, |i, c| {
        let i = i as usize;
        let (a, b) = (RUN[i % RUN.len()], RUN.get(i / RUN.len() % (RUN.len() + 1)).copied().unwrap_or(""));
        let tail = ["", "x", "$"][i / RUN.len() / (RUN.len() + 1)];
        let make = |n: usize| format!("{}{tail}", format!("{a}{b}").repeat(n));
        family(&p, &|n| (make(n), "x".into()), if b.is_empty() { &[8, 16, 32, 64, 128][..] } else { &[32, 64][..] }, c, &worst)
    });
    // both operands deep
    r.random("bushy", 500, |rng, c| {
        let o: Vec<&str> = (0..4).map(|_| *rng.pick(&["+", "-", "*", "/", "^", "%", ""])).collect();
        let leaves: Vec<&str> = (0..6).map(|_| *rng.pick(&["x", "y", "2", "z", "x!", "(-x)"])).collect();
        fn tree(d: usize, o: &[&str], l: &[&str], at: usize) -> String {
            if d == 0 {
                return l[at % l.len()].to_owned();
            }
            format!("({}{}{})", tree(d - 1, o, l, 2 * at), o[d % o.len()], tree(d - 1, o, l, 2 * at + 1))
        }
        let swapped: Vec<&str> = leaves.iter().rev().copied().collect();
        family(&p, &|n| (tree(n, &o, &leaves, 1), tree(n, &o, &swapped, 1)), &[1, 2, 4, 5, 6], c, &worst)
    });
    // cut off texts: errors deep inside
    r.random("damaged nests", 2500, |rng, c| {
        let f: Vec<usize> = (0..rng.range(1, 3)).map(|_| rng.below(k)).collect();
        let n = rng.range(20, 80);
        let t = nest(&f, rng.pick(CORES), n);
        let t = match rng.below(3) {
            0 => t[..rng.below(t.len())].to_owned(),
            1 => {
                let at = rng.below(t.len());
                format!("{}{}{}", &t[..at], rng.pick(&["$", ")", "(", ",", "1.1.1", "é", "max", "+"]), &t[at..])
            },
            _ => {
                let names = Names::plain(3, rng);
                mutate(rng, &t, &names)
            },
        };
        family(&p, &|_| (t.clone(), "x".into()), &[1], c, &worst)
    });
    r.random("random expressions", 3000, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 60, 30, 30);
        let u = mutate(rng, &t, &w.names);
        family(&w.parser, &|_| (t.clone(), u.clone()), &[1], c, &worst)
    });
    // flat texts of growing size
    const ITEMS: &[(&str, &str, &str)] =
        &[("x", "+", ""), ("x", "*", ""), ("2x", "-", ""), ("x", " ", ""), ("(x)", "", ""), ("x", "^", ""), ("x!", "/", ""), ("-x", "+", ""), ("sin(x)", "+", ""), ("1", "+", ""), ("1.5", "*", ""), ("x", ",", "m"), ("x+1", ",", "m"), ("y", "%", ""), ("xy", "x", "")];
    r.each("flat", 0..ITEMS.len() as u64, |i, c| {
        let (item, sep, w) = ITEMS[i as usize];
        let mut last: Option<Vec<(&'static str, f64, u64)>> = None;
        for n in [100, 200, 400] {
            let mut t = vec![item; n].join(sep);
            if w == "m" {
                t = format!("max({t})");
            }
            c.desc = format!("{n} of {item:?} joined by {sep:?}");
            c.nontrivial(&t);
            let mut m = Meter::new();
            exercise(&p, &t, "x", &mut m)?;
            c.observed += m.costs.len() as u64;
            if let Some(b) = &last {
                for (x, y) in m.costs.iter().zip(b) {
                    ensure!(x.2 <= GROWTH * y.2.max(60 * n as u64), "{}: {} memory requests, {} for half the text", x.0, x.2, y.2);
                }
            }
            last = Some(m.costs);
        }
        Ok(())
    });
    // calls
    r.random("applications", 12000, |rng, c| {
        let (t, ctx, calls) = counted_calls(rng);
        let p = Parser::new_with_ctx(ctx);
        c.desc = t.clone();
        applied();
        let Ok(x) = p.parse(&t) else {
            c.class("rejected");
            at_most_once("parsing", c)?;
            return Ok(());
        };
        let folded = at_most_once("parsing", c)?;
        let e: HashMap<&str, f64> = x.vars.iter().map(|v| (*v, nice(rng))).collect();
        x.eval(&e).map_err(|e| e.to_string())?;
        let a = at_most_once("evaluation", c)?;
        ensure!(!OPT || a.keys().all(|k| !folded.contains_key(k)), "calls applied while parsing were applied again: {folded:?}, {a:?}");
        x.eval_unchecked(&e);
        at_most_once("unchecked evaluation", c)?;
        let _ = (x == x.clone(), format!("{x} {x:?}"));
        ensure!(applied().is_empty(), "comparing or displaying applied functions");
        let mut vars: Vec<&str> = x.vars.iter().copied().collect();
        rng.shuffle(&mut vars);
        if let Some(v) = vars.first() {
            let y = x.clone().simplify_for((v, e[v]));
            let s = at_most_once("simplifying for one variable", c)?;
            y.eval(&e).map_err(|e| e.to_string())?;
            let l = at_most_once("evaluation after simplifying", c)?;
            ensure!(l.keys().all(|k| !s.contains_key(k)), "calls applied while simplifying were applied again: {s:?}, {l:?}");
        }
        let list: Vec<(&str, f64)> = vars.iter().map(|v| (*v, e[v])).collect();
        drop(x.clone().simplify_for_multiple(&list));
        at_most_once("simplifying for all variables", c)?;
        if let Ok(f) = x.bind_n_runtime(&vars) {
            ensure!(applied().is_empty(), "binding applied functions");
            let args: Vec<f64> = vars.iter().map(|v| e[v]).collect();
            f(&args).map_err(|e| e.to_string())?;
            at_most_once("a call of the bound function", c)?;
        }
        if calls > 0 {
            c.nontrivial(&t);
            c.class("with calls");
        }
        Ok(())
    });
    // nested calls of one function: as many applications as calls
    r.random("nested applications", 600, |rng, c| {
        let d = rng.range(1, 60);
        let frames = [("f(", ")"), ("f(x,", ")"), ("f(", ",y)"), ("-f(", ")"), ("2+f(", ")"), ("f(", ")+1"), ("x*f(", ")"), ("f(", ")^2"), ("f(", ")!"), ("1-f(", ")"), ("f(", ")/x"), ("(f(", "))")];
        let f: Vec<_> = (0..rng.range(1, 3)).map(|_| *rng.pick(&frames)).collect();
        let (mut a, mut b) = (String::new(), String::new());
        for i in 0..d {
            a.push_str(f[i % f.len()].0);
            b.insert_str(0, f[i % f.len()].1);
        }
        let t = format!("{a}{}{b}", rng.pick(&["x", "2", "1.5", "x+1"]));
        c.desc = t.clone();
        let p = Parser::new_with_ctx(Context::default().with_fn(counting("f", 0, None)));
        applied();
        let x = p.parse(&t).map_err(|e| e.to_string())?;
        let n0 = applied().values().sum::<u64>();
        ensure!(n0 <= d as u64, "parsing {d} calls applied {n0}");
        let e: HashMap<&str, f64> = x.vars.iter().map(|v| (*v, 1.75)).collect();
        x.eval(&e).map_err(|e| e.to_string())?;
        let n = applied().values().sum::<u64>();
        ensure!(n + n0 <= d as u64, "evaluation of {d} calls applied {n} (and {n0} while parsing)");
        let list: Vec<(&str, f64)> = e.iter().map(|(k, v)| (*k, *v)).collect();
        drop(x.simplify_for_multiple(&list));
        let n = applied().values().sum::<u64>();
        ensure!(n <= d as u64, "simplification of {d} calls applied {n}");
        c.observed += 3;
        c.nontrivial(&t);
        Ok(())
    });
    let w = worst.into_inner();
    r.notes.insert(format!("slowest operation in {}", r.o.config), format!("{:.4} s: {}", w.0, w.1));
}

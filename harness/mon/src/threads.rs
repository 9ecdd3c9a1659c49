//! Monitor of sharing between threads: C17. A program of its own, which does
//! not compile when something cannot be shared any more.
#[path = "common.rs"]
#[allow(dead_code)]
mod common;
use common::*;
use refmodel::gen::*;
use refmodel::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::panic::panic_any;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier};
use xprs::{BindError, Context, ErrorKind, EvalError, Function, ParseError, Parser, Symbol, Xprs};

#[global_allocator]
static ALLOC: Counting = Counting;

fn shared<T: Send + Sync>(t: T) -> T {
    t
}
fn is_shared<T: Send + Sync>() {}
#[allow(dead_code)]
fn everything_is_shared<'a>() {
    is_shared::<Parser<'a>>();
    is_shared::<Context<'a>>();
    is_shared::<Symbol>();
    is_shared::<Function>();
    is_shared::<Xprs<'a>>();
    is_shared::<ParseError>();
    is_shared::<ErrorKind>();
    is_shared::<EvalError>();
    is_shared::<BindError>();
}

thread_local! {
    static PAUSE: Cell<u64> = const { Cell::new(0) };
    static FUSE: Cell<u64> = const { Cell::new(0) };
}
/// What user functions do before their computation: let other threads run.
fn pause() {
    let x = PAUSE.with(|p| {
        let x = p.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        p.set(x);
        x >> 33
    });
    match x % 16 {
        0..=3 => std::thread::yield_now(),
        4 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros(x % 60)),
        5..=7 => (0..x % 300).for_each(|_| std::hint::spin_loop()),
        _ => {},
    }
    let f = FUSE.with(Cell::get);
    if f > 0 {
        FUSE.with(|c| c.set(f - 1));
        if f == 1 {
            panic_any(Injected);
        }
    }
}
fn slow_static(a: &[f64]) -> f64 {
    pause();
    a.iter().fold(3.5, |s, x| s * 0.5 - x)
}
fn make_ctx(rng: &mut Rng) -> Context<'static> {
    let mut c = Context::default();
    for (i, n) in ["f", "g", "h"].into_iter().enumerate() {
        let w = Arc::new(rng.below(9) as f64 + 0.5);
        let ar = [None, Some(1), Some(2)][i];
        c.set_fn(Function::new_dyn(
            n,
            move |a: &[f64]| {
                pause();
                let w = Arc::clone(&w);
                let s = a.iter().fold(*w, |s, x| s * 0.25 + x);
                if i == 0 {
                    pause();
                }
                s
            },
            ar,
        ));
    }
    c.set_fn(Function::new_static("s", slow_static, None));
    if rng.bool() {
        // one that parses and evaluates on its own
        let p = Parser::new_with_ctx(c.clone());
        c.set_fn(Function::new_dyn("r", move |a: &[f64]| p.parse("f(x)+s(2,x)").and_then(|x| Ok(x.eval(&[("x", a.len() as f64)].into()).unwrap_or(0.0))).unwrap_or(-1.0), None));
    }
    c.set_var("k", rng.below(100) as f64 / 8.0);
    if rng.one_in(4) {
        c.set_expected_vars(["x", "y", "z"].into());
    }
    c
}
fn sname() -> Names {
    let mut n = Names { vars: ["x", "y", "z", "X"].map(str::to_owned).to_vec(), consts: vec!["k".into(), "pi".into(), "e".into()], funcs: vec![] };
    for _ in 0..3 {
        for (f, a) in [("f", None), ("g", Some(1)), ("h", Some(2)), ("s", None)] {
            n.funcs.push((f.into(), a));
        }
    }
    for (f, a) in BUILTINS {
        n.funcs.push(((*f).to_owned(), *a));
    }
    n
}

const VARS: [&str; 5] = ["x", "y", "z", "X", "spare"];
type Bound = Box<dyn Fn(&[f64]) -> f64 + Send + Sync>;

struct Shared {
    parsers: Vec<Parser<'static>>,
    texts: Vec<&'static str>,
    exprs: Vec<Xprs<'static>>,
    bound: Vec<Bound>,
    envs: Vec<HashMap<&'static str, f64>>,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Parse(usize, usize),
    Eval(usize, usize),
    Unchecked(usize, usize),
    Clone(usize, usize),
    Simplify(usize, usize, usize),
    SimplifyAll(usize, usize),
    Call(usize, usize),
    Show(usize),
    Compare(usize, usize),
    Lookup(usize),
    Own(usize, usize),
    Rebind(usize, usize),
}
fn unquoted(e: &ParseError) -> String {
    e.to_string().split('`').step_by(2).collect()
}
const PARSERS: usize = 2;

impl Shared {
    fn new(rng: &mut Rng, nt: usize) -> Self {
        let names = sname();
        let parsers: Vec<Parser<'static>> = (0..PARSERS).map(|_| shared(Parser::new_with_ctx(make_ctx(rng)))).collect();
        let texts: Vec<&'static str> = (0..nt)
            .map(|_| {
                let g = Gen { names: &names, shapes: 20, calls: 45, fact: 25, var_leaves: 50 };
                let b = rng.range(1, 12);
                let s = g.syn(rng, b);
                let t = render(&s, if rng.bool() { Parens::Full } else { Parens::Some(20) }, rng);
                intern(&if rng.one_in(6) { mutate(rng, &t, &names) } else { t })
            })
            .collect();
        Self::of(rng, parsers, texts)
    }
    /// Texts that ask for much of everything: depth, width, arguments, names, errors far away.
    fn large(rng: &mut Rng, nt: usize) -> Self {
        let most = if cfg!(miri) { 12 } else { 300 };
        let parsers: Vec<Parser<'static>> = (0..PARSERS).map(|_| shared(Parser::new_with_ctx(make_ctx(rng)))).collect();
        let texts: Vec<&'static str> = (0..nt)
            .map(|_| {
                let n = rng.range(most / 2, most);
                let leaf = *rng.pick(&["x", "y", "2.5", "k", "x!", "f()", "X^y"]);
                let t = match rng.below(12) {
                    0..=2 => format!("{}{leaf}{}", "(".repeat(n), ")".repeat(n)),
                    3 => format!("{}{leaf}{}", "g(".repeat(n), ")".repeat(n)),
                    4 => format!("{}{leaf}", "-".repeat(n)),
                    5 => format!("{}{leaf}{}", "x+(y*".repeat(n), ")".repeat(n)),
                    6 => format!("f({leaf}{})", format!(",{leaf}").repeat(n)),
                    7 => format!("{leaf}{}", format!("+z*{leaf}").repeat(n)),
                    8 => format!("{leaf}{}", format!("^{leaf}").repeat(n / 8)),
                    9 => format!("sum({leaf}{})+{}", ",sin(x)".repeat(n), "a".repeat(n)),
                    10 => format!("{}{leaf}{}", "(".repeat(n), ")".repeat(n - 1)),
                    _ => format!("{}$", format!("{leaf}*").repeat(n)),
                };
                intern(&t)
            })
            .collect();
        Self::of(rng, parsers, texts)
    }
    /// Texts most of which are rejected, in many ways.
    fn rejected(rng: &mut Rng, nt: usize) -> Self {
        let names = sname();
        let parsers: Vec<Parser<'static>> = (0..PARSERS).map(|_| shared(Parser::new_with_ctx(make_ctx(rng)))).collect();
        let texts: Vec<&'static str> = (0..nt)
            .map(|_| {
                let g = Gen { names: &names, shapes: 20, calls: 45, fact: 25, var_leaves: 50 };
                let b = rng.range(1, 8);
                let s = g.syn(rng, b);
                let mut t = render(&s, Parens::Full, rng);
                for _ in 0..rng.range(1, 3) {
                    t = mutate(rng, &t, &names);
                }
                intern(&t)
            })
            .collect();
        Self::of(rng, parsers, texts)
    }
    fn of(rng: &mut Rng, parsers: Vec<Parser<'static>>, texts: Vec<&'static str>) -> Self {
        let mut exprs = vec![];
        for t in &texts {
            for p in &parsers {
                exprs.extend(p.parse(t).ok());
            }
        }
        if exprs.is_empty() {
            exprs.extend(Parser::default().parse("x+y!"));
        }
        let bound: Vec<Bound> = exprs.iter().filter_map(|x| x.clone().bind_n(VARS).ok()).map(|f| Box::new(shared(move |a: &[f64]| f(std::array::from_fn(|i| a[i])))) as Bound).collect();
        let envs = (0..4).map(|_| VARS.iter().map(|v| (*v, nice(rng))).collect()).collect();
        Shared { parsers, texts, exprs, bound, envs }
    }
    fn random_op(&self, rng: &mut Rng) -> Op {
        let x = rng.below(self.exprs.len());
        let e = rng.below(self.envs.len());
        match rng.below(16) {
            0..=2 => Op::Parse(rng.below(PARSERS), rng.below(self.texts.len())),
            3..=5 => Op::Eval(x, e),
            6 => Op::Unchecked(x, e),
            7 => Op::Clone(x, e),
            8 => Op::Simplify(x, rng.below(VARS.len()), e),
            9 => Op::SimplifyAll(x, e),
            10 if !self.bound.is_empty() => Op::Call(rng.below(self.bound.len()), e),
            11 => Op::Show(x),
            12 => Op::Compare(x, rng.below(self.exprs.len())),
            13 => Op::Lookup(rng.below(PARSERS)),
            14 => Op::Own(rng.below(PARSERS), rng.below(self.texts.len())),
            _ => Op::Rebind(x, e),
        }
    }
    /// Performs an operation; what it gave, for comparison.
    fn run(&self, op: Op) -> String {
        let bits = |v: f64| format!("{:016x}", if v.is_nan() { 0x7ff8 << 48 } else { v.to_bits() });
        match op {
            Op::Parse(p, t) => match self.parsers[p].parse(self.texts[t]) {
                Ok(x) => dbg_of(&x),
                // the undeclared variable named may be any of them
                Err(e) if self.parsers[p].ctx().get_expected_vars().is_some() => unquoted(&e),
                Err(e) => e.to_string(),
            },
            Op::Eval(x, e) => match self.exprs[x].eval(&self.envs[e]) {
                Ok(v) => bits(v),
                Err(_) => "missing".into(),
            },
            Op::Unchecked(x, e) => {
                if self.exprs[x].vars.iter().all(|v| VARS.contains(v)) {
                    bits(self.exprs[x].eval_unchecked(&self.envs[e]))
                } else {
                    "missing".into()
                }
            },
            Op::Clone(x, e) => {
                let y = shared(self.exprs[x].clone());
                let v = y.eval(&self.envs[e]).map_or("missing".into(), bits);
                format!("{v} {}", dbg_of(&y))
            },
            Op::Simplify(x, v, e) => {
                let mut y = self.exprs[x].clone();
                y.simplify_for_in_place((VARS[v], self.envs[e][VARS[v]]));
                let r = y.eval(&self.envs[e]).map_or("missing".into(), bits);
                format!("{r} {}", dbg_of(&y))
            },
            Op::SimplifyAll(x, e) => {
                let l: Vec<(&str, f64)> = VARS.iter().map(|v| (*v, self.envs[e][v])).collect();
                dbg_of(&self.exprs[x].clone().simplify_for_multiple(&l))
            },
            Op::Call(b, e) => bits(self.bound[b](&VARS.map(|v| self.envs[e][v]))),
            Op::Show(x) => format!("{}", self.exprs[x]),
            Op::Compare(x, y) => format!("{} {:?}", self.exprs[x] == self.exprs[y], self.exprs[x].root.partial_cmp(&self.exprs[y].root)),
            Op::Lookup(p) => {
                let c = self.parsers[p].ctx();
                let mut d: Vec<_> = c.get_expected_vars().into_iter().flatten().collect();
                d.sort_unstable();
                format!("{:?} {:?} {:?} {d:?}", c.get("k"), c.get("f").is_some(), c.get("nothing"))
            },
            Op::Own(p, t) => {
                // changes of an own copy
                let mut q = self.parsers[p].clone();
                q.ctx_mut().set_var("k", 77.25);
                q.ctx_mut().set_fn(Function::new_dyn("g", |a| a[0] + 1.0, Some(1)));
                let r = match q.parse(self.texts[t]) {
                    Ok(x) => dbg_of(&x),
                    Err(e) => unquoted(&e),
                };
                r
            },
            Op::Rebind(x, e) => match self.exprs[x].clone().bind_n_runtime(&VARS) {
                Ok(f) => bits(f(&VARS.map(|v| self.envs[e][v])).unwrap_or(-0.5)),
                Err(_) => "unbound".into(),
            },
        }
    }
}

static TICKET: AtomicU64 = AtomicU64::new(0);

struct Did {
    op: Op,
    start: u64,
    end: u64,
    /// What it gave, unless the injected panic came out.
    got: Option<Result<String, String>>,
}

fn case(rng: &mut Rng, c: &mut Case, threads: usize, per: usize, faults: bool, texts: usize, overlaps: &mut u64) -> Res {
    let s = Shared::new(rng, texts);
    case_on(s, rng, c, threads, per, faults, overlaps)
}
fn case_on(s: Shared, rng: &mut Rng, c: &mut Case, threads: usize, per: usize, faults: bool, overlaps: &mut u64) -> Res {
    let plans: Vec<Vec<(Op, u64)>> = (0..threads).map(|_| (0..per).map(|_| (s.random_op(rng), if faults && rng.one_in(5) { 1 + rng.below(3) as u64 } else { 0 })).collect()).collect();
    c.desc = format!("{threads} threads of {per} operations on {:?}", s.texts);
    let alone = |s: &Shared| -> Vec<Vec<String>> { plans.iter().map(|p| p.iter().map(|(o, _)| s.run(*o)).collect()).collect() };
    // each operation alone, either before or afterwards
    let before = rng.bool().then(|| alone(&s));
    let pauses: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let gate = Barrier::new(threads);
    let s = Arc::new(s);
    let kept = before.is_none().then(|| Arc::clone(&s));
    let logs: Vec<Result<Vec<Did>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (s, gate, plan, seed) = (Arc::clone(&s), &gate, &plans[t], pauses[t]);
                let body = move || {
                    guard(|| {
                        PAUSE.with(|p| p.set(seed));
                        let mut log = Vec::with_capacity(plan.len());
                        gate.wait();
                        for (op, fuse) in plan {
                            let start = TICKET.fetch_add(1, Relaxed);
                            FUSE.with(|f| f.set(*fuse));
                            let r = guard(|| s.run(*op));
                            let left = FUSE.with(|f| f.replace(0));
                            let got = match r {
                                Err(_) if *fuse > 0 && left == 0 => None,
                                r => Some(r),
                            };
                            log.push(Did { op: *op, start, end: TICKET.fetch_add(1, Relaxed), got });
                        }
                        // the last thread to get here drops everything
                        drop(s);
                        log
                    })
                };
                let b = std::thread::Builder::new().stack_size(if cfg!(miri) { 4 << 20 } else { 256 << 20 });
                b.spawn_scoped(sc, body).expect("a thread")
            })
            .collect();
        drop(s);
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let want = match (before, kept) {
        (Some(w), _) => w,
        (None, Some(s)) => alone(&s),
        (None, None) => return Err("nothing to compare with".into()),
    };
    let mut all: Vec<(u64, u64, usize)> = vec![];
    for (t, l) in logs.into_iter().enumerate() {
        let l = l.map_err(|e| format!("thread {t}: {e}"))?;
        ensure!(l.len() == per, "thread {t} did {} of {per} operations", l.len());
        for (d, want) in l.into_iter().zip(&want[t]) {
            c.obs();
            let wrong = match d.got {
                Some(Ok(g)) if g != *want => Some(format!("{:?} gave {g} instead of {want}", d.op)),
                Some(Err(e)) => Some(format!("{:?}: panic: {e}", d.op)),
                _ => None,
            };
            if let Some(w) = wrong {
                let text = match d.op {
                    Op::Parse(_, t) | Op::Own(_, t) => plans.len().to_string() + &format!(" text {t}"),
                    _ => String::new(),
                };
                return Err(format!("thread {t}: {w} {text}"));
            }
            all.push((d.start, d.end, t));
        }
    }
    // the interleaving that was seen: the order in which operations began and ended
    let mut events: Vec<(u64, usize)> = all.iter().flat_map(|(a, b, t)| [(*a, *t), (*b, *t)]).collect();
    events.sort_unstable();
    let order: Vec<u8> = events.iter().map(|e| e.1 as u8).collect();
    c.hashes.push(refmodel::rng::hash_bytes(threads as u64, &order));
    *overlaps += all.iter().filter(|(a, b, _)| b - a > 1).count() as u64;
    Ok(())
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3))
}

/* what is done for the first time in a process, by several threads at once */

fn firsts(rng: &mut Rng, n: usize) -> Vec<(&'static str, f64)> {
    let names = sname();
    (0..n)
        .map(|_| {
            let x = match rng.below(4) {
                0 => rng.below(172) as f64,
                1 => rng.below(12) as f64 * 0.5 - 2.0,
                _ => value(rng, 20),
            };
            let t = match rng.below(14) {
                0 | 1 => format!("x!+{}!", rng.below(172)),
                2..=6 => {
                    let (f, a) = *rng.pick(BUILTINS);
                    let a = a.unwrap_or_else(|| rng.below(6));
                    let v: Vec<String> = (0..a).map(|_| if rng.one_in(3) { literal(rng) } else { (*rng.pick(&["x", "y", "-x", "2", "pi"])).to_owned() }).collect();
                    format!("{f}({})", v.join(","))
                },
                7 => format!("gamma(x)+gamma({})", literal(rng)),
                8 => format!("x%{}^y", literal(rng)),
                9 => (*rng.pick(&["x+", "1..2", "(x", "sin(1,2)", "sin", "x $", "hypot(1)", "max(1,)", ")", "", "é"])).to_owned(),
                10 => literal(rng),
                11 => "x+y*x-2/y^x!".to_owned(),
                _ => {
                    let g = Gen { names: &names, shapes: 20, calls: 45, fact: 25, var_leaves: 50 };
                    let s = g.syn(rng, 5);
                    render(&s, Parens::Some(20), rng)
                },
            };
            (intern(&t), x)
        })
        .collect()
}
fn first_use(p: &Parser<'static>, t: &'static str, v: f64) -> String {
    let bits = |v: f64| format!("{:016x}", if v.is_nan() { 0x7ff8 << 48 } else { v.to_bits() });
    let env: HashMap<&str, f64> = [("x", v), ("y", 1.5), ("z", v + 1.0), ("X", -v)].into();
    match p.parse(t) {
        Ok(x) => {
            let e = x.eval(&env).map_or("missing".into(), bits);
            let y = x.clone().simplify_for(("x", v));
            let b = x.clone().bind_n_runtime(&VARS).ok().and_then(|f| f(&[v, 1.5, v + 1.0, -v, 0.0]).ok()).map_or("unbound".into(), bits);
            format!("{e} {b} {x} {y} {} {}", x == y, dbg_of(&x))
        },
        Err(e) => format!("{} {:?}", unquoted(&e), miette::Diagnostic::help(&e).map(|h| h.to_string().len())),
    }
}
/// Several threads do the same things, none of which was done before, at the same time.
fn together(seed: u64, n: usize, threads: usize) -> Result<Vec<String>, String> {
    let mut rng = Rng::new(seed);
    let todo = firsts(&mut rng, n);
    let p = Arc::new(if rng.bool() { Parser::default() } else { Parser::new_with_ctx(make_ctx(&mut rng)) });
    let gated = rng.pct(70);
    let gate = Barrier::new(threads);
    let at: Vec<AtomicU64> = todo.iter().map(|_| AtomicU64::new(0)).collect();
    let logs: Vec<Result<Vec<String>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (p, gate, at, todo) = (Arc::clone(&p), &gate, &at, &todo);
                sc.spawn(move || {
                    guard(|| {
                        gate.wait();
                        todo.iter()
                            .zip(at)
                            .map(|((t, v), a)| {
                                if gated {
                                    a.fetch_add(1, Relaxed);
                                    while a.load(Relaxed) < threads as u64 {
                                        if cfg!(miri) {
                                            std::thread::yield_now();
                                        } else {
                                            std::hint::spin_loop();
                                        }
                                    }
                                }
                                guard(|| first_use(&p, t, *v)).unwrap_or_else(|e| format!("panic {e}"))
                            })
                            .collect()
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let want: Vec<String> = todo.iter().map(|(t, v)| guard(|| first_use(&p, t, *v)).unwrap_or_else(|e| format!("panic {e}"))).collect();
    for (k, l) in logs.into_iter().enumerate() {
        let l = l.map_err(|e| format!("thread {k}: {e}"))?;
        for ((got, w), (t, v)) in l.iter().zip(&want).zip(&todo) {
            ensure!(got == w, "thread {k}: {t:?} with {} gave {got} at first, {w} alone afterwards", fval(*v));
        }
    }
    Ok(want)
}
/// The same in a process where nothing was done before.
fn cold(seed: u64, n: usize, threads: usize) -> i32 {
    match together(seed, n, threads) {
        Ok(w) => {
            println!("{}", w.join("\n"));
            0
        },
        Err(e) => {
            println!("{e}");
            1
        },
    }
}

fn c17(r: &mut Runner) {
    let mut overlaps = 0;
    let slow = cfg!(miri);
    // must come first: later streams find everything done before
    r.random("first uses", if slow { 160 } else { 20 }, |rng, c| {
        let (seed, n, threads) = (rng.u64(), if slow { 4 } else { 30 }, rng.range(2, if slow { 3 } else { 8 }));
        c.desc = format!("seed {seed} {n} {threads}");
        let w = together(seed, n, threads)?;
        for _ in 0..w.len() * threads {
            c.obs();
        }
        if cfg!(miri) {
            return Ok(());
        }
        let me = std::env::current_exe().map_err(|e| e.to_string())?;
        let o = std::process::Command::new(me).args(["cold", &seed.to_string(), &n.to_string(), &threads.to_string()]).stdin(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
        let said = String::from_utf8_lossy(&o.stdout);
        let heard = String::from_utf8_lossy(&o.stderr);
        ensure!(o.status.success(), "in a process of its own: {} {} {}", o.status, said.trim_end().lines().last().unwrap_or(""), heard.lines().filter(|l| !l.starts_with("===")).take(30).collect::<Vec<_>>().join(" / "));
        ensure!(said.trim_end() == w.join("\n").trim_end(), "a process of its own gave other results");
        for _ in 0..w.len() * threads {
            c.obs();
        }
        c.class("first uses in a process of its own");
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    // many short operations of one kind, whose results are known
    r.random("one kind at once", if slow { 200 } else { 100 }, |rng, c| {
        let (kind, op, threads) = (rng.below(8), rng.below(4), if slow { 2 } else { rng.range(2, 8) });
        let op = if kind == 3 && rng.below(3) > 0 { 1 } else { op };
        let per = rng.range(1, 4);
        // few arguments, so that different threads meet the same one at the same time
        let few: Vec<f64> = (0..rng.range(2, 6)).map(|_| if rng.below(4) > 0 { rng.range(2, 171) as f64 } else { value(rng, 30) }).collect();
        let p = Parser::default();
        let task = |rng: &mut Rng| {
            let x = *rng.pick(&few);
            let t = match kind {
                0 => (0..rng.range(2, 9)).map(|_| (*rng.pick(&["_", "__", "1", "2", "37", "8", "90", "5_", "."])).to_owned()).collect::<String>(),
                1 => literal(rng),
                2 => {
                    let (f, a) = *rng.pick(BUILTINS);
                    format!("{f}(x{})", ",2".repeat(a.unwrap_or_else(|| rng.range(1, 5)) - 1))
                },
                3 => "x!".to_owned(),
                4 => format!("{}+x", word(rng)),
                5 => format!("{}{}", rng.pick(&["x+", "sin", "sin(x,x", "x $", "(x", "hypot(x", "max(x,,"]), rng.pick(&["", ")", "1..2", "é", ",1)"])),
                6 => format!("x{}{}", rng.pick(&["+", "-", "*", "/", "%", "^"]), literal(rng)),
                _ => format!("{}x{}", "-".repeat(rng.below(4)), "!".repeat(rng.below(3))),
            };
            (intern(&t), x)
        };
        let bits = |v: f64| if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() };
        let run = |t: &'static str, e: Option<&Xprs<'static>>, x: f64| -> Result<u64, String> {
            match (op, e) {
                (0, _) | (_, None) => match p.parse(t) {
                    Ok(e) => e.eval(&[("x", x)].into()).map(bits).or_else(|m| Ok(hash(&format!("{e} {m}")))),
                    Err(e) => Err(unquoted(&e)),
                },
                (1, Some(e)) => e.eval(&[("x", x)].into()).map(bits).map_err(|e| e.to_string()),
                (2, Some(e)) => Ok(hash(&e.clone().simplify_for(("x", x)).to_string())),
                (_, Some(e)) => Ok(hash(&format!("{e} {}", e == e))),
            }
        };
        let tasks: Vec<Vec<(&'static str, f64, Option<Xprs<'static>>, Result<u64, String>)>> = (0..threads)
            .map(|_| {
                (0..per)
                    .map(|_| {
                        let (t, x) = task(rng);
                        let e = p.parse(t).ok();
                        let want = run(t, e.as_ref(), x);
                        (t, x, e, want)
                    })
                    .collect()
            })
            .collect();
        c.desc = format!("operation {op} on {:?}", tasks.iter().flatten().map(|t| (t.0, t.1)).take(8).collect::<Vec<_>>());
        let rounds = if slow { 3 } else if op == 1 { 6000 / per } else { 1200 / per };
        let barrier = std::sync::Barrier::new(threads);
        let bad = std::thread::scope(|s| {
            let hs: Vec<_> = tasks
                .iter()
                .map(|mine| {
                    let (barrier, run) = (&barrier, &run);
                    s.spawn(move || {
                        barrier.wait();
                        for k in 0..rounds {
                            for (t, x, e, want) in mine {
                                let got = guard(|| run(t, e.as_ref(), *x)).unwrap_or_else(|p| Err(format!("panicked: {p}")));
                                if got != *want {
                                    return Some(format!("{t:?} with x = {} gave {got:x?} in round {k}, alone {want:x?}", fval(*x)));
                                }
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("thread died".into()))).collect::<Vec<_>>()
        });
        for _ in 0..rounds * threads * per {
            c.obs();
        }
        c.nontrivial(&c.desc.clone());
        match bad.into_iter().flatten().next() {
            Some(b) => Err(b),
            None => Ok(()),
        }
    });
    r.random("few", 300, |rng, c| {
        let n = rng.range(2, 3);
        case(rng, c, n, 4, false, 2, &mut overlaps)
    });
    r.random("two threads", 600, |rng, c| case(rng, c, 2, if slow { 8 } else { 24 }, false, if slow { 2 } else { 6 }, &mut overlaps));
    r.random("many threads", 200, |rng, c| {
        let n = rng.range(3, 8);
        case(rng, c, n, if slow { 5 } else { 40 }, false, 8, &mut overlaps)
    });
    r.random("one expression", 200, |rng, c| case(rng, c, if slow { 3 } else { 8 }, if slow { 8 } else { 24 }, false, 1, &mut overlaps));
    r.random("with panics", 300, |rng, c| {
        let n = rng.range(2, 6);
        case(rng, c, n, if slow { 6 } else { 24 }, true, 4, &mut overlaps)
    });
    r.random("large texts", if slow { 20 } else { 15 }, |rng, c| {
        let n = rng.range(3, 8);
        let s = Shared::large(rng, 4);
        case_on(s, rng, c, n, if slow { 3 } else { 20 }, false, &mut overlaps)
    });
    r.random("rejected texts", 150, |rng, c| {
        let n = rng.range(2, 8);
        let s = Shared::rejected(rng, if slow { 2 } else { 8 });
        case_on(s, rng, c, n, if slow { 4 } else { 40 }, false, &mut overlaps)
    });
    // handed from thread to thread, used and dropped where they end up
    r.random("relay", 300, |rng, c| {
        let s = Shared::new(rng, 3);
        c.desc = format!("{:?}", s.texts);
        let op = s.random_op(rng);
        let want = s.run(op);
        let mut s = Some(s);
        let mut who = vec![];
        for k in 0..4 {
            let t = s.take().ok_or("lost")?;
            let h = std::thread::spawn(move || (guard(|| t.run(op)), t));
            let (got, t) = h.join().map_err(|_| "thread died")?;
            ensure!(got == Ok(want.clone()), "thread {k}: {op:?} gave {got:?} instead of {want}");
            c.obs();
            who.push(k);
            s = Some(t);
        }
        c.nontrivial(&format!("{op:?} {want}"));
        Ok(())
    });
    r.class("operations overlapping others", overlaps);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let [_, how, seed, _, threads] = &a[..] {
        if how == "cold" {
            let n = |s: &String| s.parse::<u64>().expect("number");
            std::process::exit(cold(n(seed), n(&a[3]) as usize, n(threads) as usize));
        }
    }
    let r = run_main(&[("C17", c17)], None);
    std::process::exit(r);
}

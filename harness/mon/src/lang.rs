//! Monitors of the language itself: C02 to C07.
use crate::common::*;
use crate::ensure;
use refmodel::gen::*;
use refmodel::*;
use xprs::{Parser, Xprs};

/// Fully parenthesised text of a tree, every product explicit. `None` when a
/// constant cannot be written.
pub fn full_text(a: &Ast) -> Option<String> {
    Some(match a {
        Ast::Num(v) if v.is_finite() => {
            if v.is_sign_negative() {
                format!("(-{:?})", -v)
            } else {
                format!("{v:?}")
            }
        },
        Ast::Num(_) => return None,
        Ast::Var(n) => n.clone(),
        Ast::Un(Un::Fact, a) => format!("({}!)", full_text(a)?),
        Ast::Un(o, a) => format!("({}{})", if *o == Un::Plus { '+' } else { '-' }, full_text(a)?),
        Ast::Bin(o, a, b) => {
            let c = match o {
                Bin::Add => '+',
                Bin::Sub => '-',
                Bin::Mul => '*',
                Bin::Div => '/',
                Bin::Rem => '%',
                Bin::Pow => '^',
            };
            format!("({}{c}{})", full_text(a)?, full_text(b)?)
        },
        Ast::Call(f, args) => {
            let v: Option<Vec<_>> = args.iter().map(full_text).collect();
            format!("{}({})", f.name, v?.join(","))
        },
    })
}

/// Evaluates and judges one expression in one environment.
pub fn check_value(x: &Xprs, ast: &Ast, e: &Env, c: &mut Case) -> Res {
    let got = match ev(x, &vmap(e)) {
        Ok(v) => v,
        Err(err) => return Err(format!("evaluation failed ({err}) with {e:?}")),
    };
    match judge(ast, e, got) {
        None => c.class("not comparable (optimised, not finite)"),
        Some(Ok(())) => {
            c.obs();
            c.class(if got.is_finite() && got != 0.0 { "finite non-zero value" } else { "zero, infinite or NaN value" });
        },
        Some(Err(m)) => return Err(m),
    }
    Ok(())
}

/// A small environment in which trees tell themselves apart.
fn distinct_env(vars: &std::collections::BTreeSet<String>, rng: &mut Rng, ints: bool) -> Env {
    vars.iter()
        .map(|v| {
            let x = if ints {
                rng.range(1, 6) as f64
            } else {
                0.3 + (rng.unit() * 5.0 * 4096.0).round() / 4096.0
            };
            (v.clone(), if !ints && rng.one_in(5) { -x } else { x })
        })
        .collect()
}

/* ---------------------------------------------------------------- C02 */

pub fn c02(r: &mut Runner) {
    let def = RefCtx::default();
    // every sequence of up to 3 operators over decorated operands
    const OPS: [&str; 6] = ["+", "-", "*", "/", "%", "^"];
    const DECO: [(&str, &str); 6] = [("", ""), ("-", ""), ("", "!"), ("+-", ""), ("-", "!"), ("", "!!")];
    let total: u64 = 36 * 6u64.pow(3) + 216 * 4u64.pow(4);
    let p = Parser::default();
    let seed = r.o.seed;
    let mut chains = |i: u64, c: &mut Case| -> Res {
        let (mut k, ops, deco) = if i < 36 * 216 { (i, 2, 6u64) } else { (i - 36 * 216, 3, 4u64) };
        let mut t = String::new();
        let names = ["a", "b", "c", "d"];
        for j in 0..=ops {
            if j > 0 {
                t.push_str(OPS[(k % 6) as usize]);
                k /= 6;
            }
            let d = DECO[(k % deco) as usize];
            k /= deco;
            t.push_str(d.0);
            t.push_str(names[j]);
            t.push_str(d.1);
        }
        c.desc = t.clone();
        let Ok(ast) = parse(&t, &def, MODE) else { return Err("model rejects its own text".into()) };
        let Ok(x) = p.parse(&t) else {
            c.class("rejected (not judged here)");
            return Ok(());
        };
        let mut rng = Rng::new(seed ^ i);
        for ints in [true, false, true] {
            let e = distinct_env(&ast.vars(), &mut rng, ints);
            check_value(&x, &ast, &e, c)?;
        }
        c.nontrivial(&t);
        Ok(())
    };
    r.each("operator chains", 0..total, &mut chains);

    // the same with literals, so that folding is exercised
    r.random("literal chains", 6000, |rng, c| {
        let n = rng.range(2, 7);
        let mut t = String::new();
        for j in 0..n {
            if j > 0 {
                t.push_str(rng.pick(&OPS));
            }
            let d = *rng.pick(&DECO);
            t.push_str(d.0);
            t.push_str(&if d.1.is_empty() { literal(rng) } else { format!("{}", rng.below(7)) });
            t.push_str(d.1);
        }
        c.desc = t.clone();
        let (Ok(ast), Ok(x)) = (parse(&t, &def, MODE), p.parse(&t)) else { return Ok(()) };
        check_value(&x, &ast, &Env::new(), c)?;
        c.nontrivial(&t);
        Ok(())
    });

    r.random("expressions", 24000, |rng, c| {
        let w = World::random(rng);
        for _ in 0..4 {
            let t = text_of(&w, rng, 16, 4, 25);
            c.desc = format!("{t:?}{}", w.desc_ctx());
            let (Ok(ast), Ok(x)) = (parse(&t, &w.rc, MODE), w.parser.parse(&t)) else {
                c.class("rejected (not judged here)");
                continue;
            };
            let vars = ast.vars();
            for k in 0..3 {
                let e = match k {
                    0 => distinct_env(&vars, rng, rng.clone().bool()),
                    1 => refmodel::gen::env(rng, &vars, 10),
                    _ => refmodel::gen::env(rng, &vars, 70),
                };
                check_value(&x, &ast, &e, c)?;
                if vars.is_empty() {
                    break;
                }
            }
            if ast.size() > 1 {
                c.nontrivial(&c.desc.clone());
            }
        }
        Ok(())
    });

    // single operators on arbitrary doubles
    r.random("operators on any doubles", 12000, |rng, c| {
        const T: [&str; 12] = ["x+y", "x-y", "x*y", "x/y", "x%y", "x^y", "-x", "+x", "x!", "-x^y", "x^-y", "x-y-x"];
        let t = *rng.pick(&T);
        let x = p.parse(t).map_err(|e| format!("{t} rejected: {e}"))?;
        let ast = parse(t, &def, MODE).map_err(|e| format!("{e:?}"))?;
        for _ in 0..4 {
            let e = if rng.bool() {
                refmodel::gen::env(rng, &ast.vars(), 100)
            } else {
                ast.vars().into_iter().map(|v| (v, f64::from_bits(rng.u64()))).collect()
            };
            c.desc = format!("{t} {e:?}");
            check_value(&x, &ast, &e, c)?;
            c.nontrivial(&c.desc.clone());
        }
        Ok(())
    });

    // rounding tells in which order long chains are computed
    r.random("long chains", 500, |rng, c| {
        let n = *rng.pick(&[3, 7, 8, 9, 15, 16, 17, 31, 33, 41, 50, 63, 64, 65, 100, 128, 130, 200, 256, 260, 300]);
        let ops: &[&str] = *rng.pick(&[&["+"][..], &["+"], &["-"], &["*"], &["/"], &["%"], &["+", "-"], &["*", "/"], &["+", "+", "+", "+", "+", "*"], &["*", "*", "*", "*", "+"], &[" ", "*"], &[" "]]);
        let mut t = String::new();
        let mut e = Env::new();
        for i in 0..n {
            if i > 0 {
                t.push_str(rng.pick(ops));
            }
            if rng.one_in(10) && !ops.contains(&" ") {
                t.push_str(rng.pick(&["0.1", "3", "1e15", "7.7"]));
                continue;
            }
            let k = rng.below(n);
            t.push_str(&format!("v{k}"));
            let products = ops.iter().any(|o| matches!(*o, "*" | "/" | " "));
            e.entry(format!("v{k}")).or_insert_with(|| (rng.unit() + 0.5) * if products { 1.0 } else { 2f64.powi(rng.below(40) as i32) } * if rng.one_in(4) { -1.0 } else { 1.0 });
        }
        c.desc = format!("{} ({n} operands)", short(&t));
        let (Ok(ast), Ok(x)) = (parse(&t, &def, MODE), p.parse(&t)) else { return Err("a chain is rejected".into()) };
        check_value(&x, &ast, &e, c)?;
        c.nontrivial(&t);
        Ok(())
    });
    // deep and long ones
    r.random("long and nested", 400, |rng, c| {
        let n = rng.range(2, 120);
        let mut t = String::new();
        match rng.below(5) {
            0 => {
                for i in 0..n {
                    if i > 0 {
                        t.push_str(rng.pick(&OPS[..5]));
                    }
                    t.push_str(rng.pick(&["a", "b", "2", "1.5", "c"]));
                }
            },
            1 => {
                for _ in 0..n {
                    t.push_str(rng.pick(&["-", "(", "2*(", "a-(", "sin(", "+", "b/("]));
                }
                t.push('a');
                let open = t.matches('(').count();
                t.push_str(&")".repeat(open));
            },
            2 => {
                t.push_str("1.01");
                for _ in 0..n {
                    t.push_str(rng.pick(&["^a", "^-b", "^1.01", "^c"]));
                }
            },
            3 => {
                t.push_str("max(");
                for i in 0..n * 5 {
                    if i > 0 {
                        t.push(',');
                    }
                    t.push_str(rng.pick(&["a", "b", "-c", "2", "a*b"]));
                }
                t.push(')');
            },
            _ => {
                for _ in 0..n {
                    t.push_str("(a");
                    t.push_str(rng.pick(&["+", "-", "*", "/"]));
                }
                t.push('b');
                t.push_str(&")".repeat(n));
            },
        }
        c.desc = t.clone();
        let (Ok(ast), Ok(x)) = (parse(&t, &def, MODE), p.parse(&t)) else { return Ok(()) };
        for ints in [false, true] {
            let e = distinct_env(&ast.vars(), rng, ints);
            check_value(&x, &ast, &e, c)?;
        }
        c.nontrivial(&t);
        Ok(())
    });
    // the same thing many times over
    const RUNS: [usize; 22] = [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512];
    r.each("runs", 0..(RUNS.len() * 16) as u64, |i, c| {
        let n = RUNS[i as usize % RUNS.len()];
        let t = match i as usize / RUNS.len() {
            0 => format!("a{}", "!".repeat(n)),
            1 => format!("{}a", "-".repeat(n)),
            2 => format!("{}a", "+".repeat(n)),
            3 => format!("a{}", "^b".repeat(n)),
            4 => format!("a{}", "/b".repeat(n)),
            5 => format!("a{}", "-b".repeat(n)),
            6 => format!("a{}", "%b".repeat(n)),
            7 => format!("a{}", " b".repeat(n)),
            8 => format!("{}a{}", "-(".repeat(n), ")".repeat(n)),
            9 => format!("{}a{}", "(b-".repeat(n), ")".repeat(n)),
            10 => format!("a{}", "^-b".repeat(n)),
            11 => format!("a{}b", "--".repeat(n)),
            12 => format!("{}a{}", "(".repeat(n), ")!".repeat(n)),
            13 => format!("a{}", "*b+c".repeat(n)),
            14 => format!("{}a{}", "-".repeat(n), "!".repeat(n)),
            _ => format!("{}a^{}b", "-".repeat(n), "-".repeat(n)),
        };
        c.desc = short(&t);
        let (Ok(ast), Ok(x)) = (parse(&t, &def, MODE), p.parse(&t)) else { return Err(format!("{} is rejected", short(&t))) };
        for (j, v) in [0.0, 1.0, 2.0, 3.0, 4.0, -1.0, 0.5, 1.01].into_iter().enumerate() {
            let e: Env = ast.vars().into_iter().enumerate().map(|(k, n)| (n, if k == 0 { v } else { [1.0, 2.0, 0.99, -1.0, 3.0][(j + k) % 5] })).collect();
            check_value(&x, &ast, &e, c)?;
        }
        c.nontrivial(&t);
        Ok(())
    });
    r.random("in large surroundings", 1200, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 8, 10, 20);
        let t = surround(rng, &t, 2500);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        let (Ok(ast), Ok(x)) = (parse(&t, &w.rc, MODE), w.parser.parse(&t)) else { return Ok(()) };
        for ints in [false, true] {
            let e = distinct_env(&ast.vars(), rng, ints);
            check_value(&x, &ast, &e, c)?;
        }
        c.nontrivial(&t);
        Ok(())
    });
}

/* ---------------------------------------------------------------- C03 */

/// Judges a text with adjacent operands. A disagreement is blamed on implicit
/// multiplication only if the same expression with everything explicit agrees.
fn c03_text(t: &str, rc: &RefCtx, parser: &Parser, rng: &mut Rng, c: &mut Case) -> Res {
    let m = parse(t, rc, MODE);
    let got = parser.parse(t);
    let ast = match m {
        Ok(a) => a,
        Err(RefErr::Token { at }) => {
            // adjacent literals must be refused
            let toks = lex(t);
            let k = toks.iter().position(|x| x.start == at).unwrap_or(0);
            let lits = k > 0
                && matches!(toks[k].tok, Tok::Num { .. })
                && matches!(toks[k - 1].tok, Tok::Num { .. });
            if lits {
                ensure!(got.is_err(), "adjacent number literals were accepted: {:?}", got.map(|g| g.to_string()));
                c.class("adjacent literals refused");
                c.obs();
                c.nontrivial(t);
            }
            return Ok(());
        },
        Err(_) => return Ok(()),
    };
    let Some(explicit) = full_text(&ast) else { return Ok(()) };
    let Ok(xe) = parser.parse(&explicit) else { return Ok(()) };
    let x = match got {
        Ok(x) => x,
        Err(e) => return Err(format!("rejected ({e}) although its explicit form {explicit} is accepted")),
    };
    let mut told = false;
    for k in 0..3 {
        let e = distinct_env(&ast.vars(), rng, k == 1);
        let (a, b) = (ev(&x, &vmap(&e))?, ev(&xe, &vmap(&e))?);
        if let Some(Err(msg)) = judge(&ast, &e, a) {
            if matches!(judge(&ast, &e, b), Some(Ok(()))) {
                return Err(format!("{msg}; the explicit form {explicit} is right"));
            }
        }
        c.obs();
        told |= a.is_finite();
    }
    c.class(if told { "adjacency with finite value" } else { "adjacency with infinite or NaN value" });
    c.nontrivial(t);
    Ok(())
}

pub fn c03(r: &mut Runner) {
    const FORMS: [&str; 20] = [
        "2", "2.5", "x", "X", "x1", "(a+b)", "sin(y)", "x!", "2!", "(3)", "x^2", "2^x", "pi", "E", "(-x)", "max(x,y)", "x'", "Foo(2)", ".5", "3e2",
    ];
    const OPS: [&str; 8] = ["", "+", "-", "*", "/", "%", "^", "*-"];
    const SEP: [&str; 3] = ["", " ", " \n\t"];
    let mut rc = RefCtx::default();
    rc.syms.insert(
        "Foo".into(),
        Sym::Func(Func { name: "Foo".into(), body: Body::User(0), arity: Some(1) }),
    );
    let parser = Parser::new_with_ctx(mk_ctx(&rc, 0));
    let n2 = (FORMS.len() * FORMS.len() * OPS.len() * OPS.len() * SEP.len()) as u64;
    let n3 = (FORMS.len().pow(3) * SEP.len()) as u64;
    let seed = r.o.seed;
    r.each("pairs in every surrounding", 0..n2 + n3, |i, c| {
        let mut k = i as usize;
        let mut take = |n: usize| {
            let v = k % n;
            k /= n;
            v
        };
        let t = if i < n2 {
            let (o1, a, s, b, o2) = (take(8), take(FORMS.len()), take(3), take(FORMS.len()), take(8));
            let pre = if OPS[o1].is_empty() { String::new() } else { format!("p{}", OPS[o1]) };
            let post = if OPS[o2].is_empty() { String::new() } else { format!("{}q", OPS[o2]) };
            format!("{pre}{}{}{}{post}", FORMS[a], SEP[s], FORMS[b])
        } else {
            k -= n2 as usize;
            let mut take = |n: usize| {
                let v = k % n;
                k /= n;
                v
            };
            let s = SEP[take(3)];
            format!("{}{s}{}{s}{}", FORMS[take(FORMS.len())], FORMS[take(FORMS.len())], FORMS[take(FORMS.len())])
        };
        c.desc = format!("{t:?}");
        let mut rng = Rng::new(seed ^ (i << 3));
        c03_text(&t, &rc, &parser, &mut rng, c)
    });
    // chains of operands with few operators
    r.random("operand chains", 16000, |rng, c| {
        let n = rng.range(2, 8);
        let mut t = String::new();
        for j in 0..n {
            if j > 0 {
                t.push_str(match rng.below(6) {
                    0 => "/",
                    1 => "^",
                    2 => rng.pick(&["*", "%", "+", "-", "^-", "!", "!*", "/-"]),
                    _ => rng.pick(&["", "", " ", "\n"]),
                });
            }
            match rng.below(10) {
                0 => t.push_str(&literal(rng)),
                1 => t.push_str(rng.pick(VAR_POOL)),
                _ => t.push_str(rng.pick(&FORMS)),
            }
        }
        c.desc = format!("{t:?}");
        c03_text(&t, &rc, &parser, rng, c)
    });
    r.random("in large surroundings", 1600, |rng, c| {
        let n = rng.range(2, 5);
        let mut t = String::new();
        for j in 0..n {
            if j > 0 {
                t.push_str(rng.pick(&["/", "^", "%", "!", "", "", " ", "\n"]));
            }
            t.push_str(rng.pick(&FORMS));
        }
        let t = surround(rng, &t, 2500);
        c.desc = format!("{t:?}");
        c03_text(&t, &rc, &parser, rng, c)
    });
    r.random("expressions", 12000, |rng, c| {
        let w = World::random(rng);
        for _ in 0..3 {
            let b = rng.range(2, 14);
            let mut s = w.gen(0, 20).syn(rng, b);
            force_implicit(&mut s, rng);
            let p = Parens::Some(*rng.pick(&[10, 30, 60]));
            let t = refmodel::gen::render(&s, p, rng);
            c.desc = format!("{t:?}{}", w.desc_ctx());
            c03_text(&t, &w.rc, &w.parser, rng, c)?;
        }
        Ok(())
    });
}
fn force_implicit(s: &mut Syn, rng: &mut Rng) {
    match s {
        Syn::Lit(_) | Syn::Id(_) => {},
        Syn::Un(_, a) => force_implicit(a, rng),
        Syn::Bin(o, a, b, im) => {
            if rng.pct(45) {
                *o = Bin::Mul;
            }
            *im = true;
            force_implicit(a, rng);
            force_implicit(b, rng);
        },
        Syn::Call(_, v) => v.iter_mut().for_each(|a| force_implicit(a, rng)),
    }
}

/* ---------------------------------------------------------------- C04 */

fn c04_text(t: &str, rc: &RefCtx, parser: &Parser, c: &mut Case) -> Result<bool, String> {
    let m = parse(t, rc, MODE);
    let got = parser.parse(t);
    c.obs();
    match (&m, &got) {
        (Ok(_), Err(e)) => Err(format!("belongs to the language but is rejected: {e}")),
        (Err(e), Ok(x)) => Err(format!("does not belong to the language ({e:?}) but is accepted as {x}")),
        (Ok(a), Ok(x)) => {
            let mv = a.vars();
            if OPT {
                for v in &x.vars {
                    ensure!(mv.contains(*v), "variable {v:?} is not in the text");
                }
            } else {
                let xv: std::collections::BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
                ensure!(xv == mv, "variables {xv:?} but the text has {mv:?}");
            }
            c.class("accepted");
            Ok(true)
        },
        (Err(_), Err(_)) => {
            c.class("rejected");
            Ok(false)
        },
    }
}

/// Same text with other whitespace between its tokens.
fn respace(t: &str, rng: &mut Rng) -> String {
    let toks: Vec<String> = lex(t).iter().map(|k| t[k.start..k.end].to_owned()).collect();
    let style = rng.below(3);
    join(&toks, style, rng)
}

fn c04_full(t: &str, rc: &RefCtx, parser: &Parser, rng: &mut Rng, c: &mut Case) -> Res {
    let ok = c04_text(t, rc, parser, c)?;
    let u = respace(t, rng);
    if u != t {
        let a = parser.parse(t);
        let b = parser.parse(&u);
        let same_tokens = {
            let (p, q) = (lex(t), lex(&u));
            p.len() == q.len() && p.iter().zip(&q).all(|(a, b)| t[a.start..a.end] == u[b.start..b.end])
        };
        if same_tokens {
            match (&a, &b) {
                (Ok(x), Ok(y)) => {
                    ensure!(dbg_of(x) == dbg_of(y), "spacing changes the expression: {t:?} is {x}, {u:?} is {y}");
                },
                (Err(_), Err(_)) => {},
                _ => return Err(format!("spacing changes acceptance: {t:?} {}, {u:?} {}", a.is_ok(), b.is_ok())),
            }
            c.obs();
            c.class("respaced");
        }
    }
    if ok || t.len() > 2 {
        c.nontrivial(t);
    }
    Ok(())
}

/// Context used by the exhaustive sweeps: a constant, functions of 0, 2 and any
/// number of arguments.
pub fn sweep_ctx() -> RefCtx {
    let mut rc = RefCtx::default();
    rc.syms.insert("k".into(), Sym::Const(2.5));
    for (n, a, b) in [("f", Some(2), 0), ("z", Some(0), 5), ("v", None, 0)] {
        rc.syms.insert(n.into(), Sym::Func(Func { name: n.into(), body: Body::User(b), arity: a }));
    }
    rc
}
pub const SWEEP: &[&str] = &[
    "2", "x", "(", ")", "+", "-", "*", "^", "!", ",", "f", "v", "k", "z", " ", "sin", ".5", "/", "e", "_", "X'", "1.2.3", "é", "%", "3e1",
];
/// The i-th text of at most `n` tokens over the first `m` tokens of SWEEP.
pub fn sweep_text(mut i: u64, m: usize, n: u32) -> String {
    let m = m as u64;
    let mut len = 1;
    let mut block = m;
    while i >= block && len < n {
        i -= block;
        block *= m;
        len += 1;
    }
    let mut t = String::new();
    for _ in 0..len {
        t.push_str(SWEEP[(i % m) as usize]);
        i /= m;
    }
    t
}
pub fn sweep_count(m: usize, n: u32) -> u64 {
    (1..=n).map(|k| (m as u64).pow(k)).sum()
}

pub fn c04(r: &mut Runner) {
    let rc = sweep_ctx();
    let parser = Parser::new_with_ctx(mk_ctx(&rc, 1));
    let thorough = r.o.scale > 2.0;
    let sweeps: &[(usize, u32)] = if thorough { &[(25, 4), (18, 5), (12, 6)] } else { &[(25, 3), (18, 4), (11, 5)] };
    for &(m, n) in sweeps {
        r.each(&format!("all texts of {n} tokens over {m}"), 0..sweep_count(m, n), |i, c| {
            let t = sweep_text(i, m, n);
            c.desc = format!("{t:?}");
            if c04_text(&t, &rc, &parser, c)? {
                c.nontrivial(&t);
            }
            Ok(())
        });
    }
    // every character in every simple position
    let chars: Vec<char> = (0u32..0x250).chain(0x2000..0x2080).chain(0xfe00..0xff80).filter_map(char::from_u32).collect();
    let frames = ["{}", "2{}", "x{}3", "{}x", "x {} y", "f(1{}2)", "sin({}1)", "(2{})", "1e{}5", "1{}", "a{}b", "3!{}", "v(){}", "-{}2", "1.{}5", "{} {}"];
    r.each("every character in simple positions", 0..(chars.len() * frames.len()) as u64, |i, c| {
        let (a, b) = (i as usize % frames.len(), i as usize / frames.len());
        let t = frames[a].replace("{}", &chars[b].to_string());
        c.desc = format!("{t:?}");
        c04_text(&t, &rc, &parser, c)?;
        c.nontrivial(&t);
        Ok(())
    });
    r.random("expressions", 9000, |rng, c| {
        let w = World::random(rng);
        for _ in 0..3 {
            let t = text_of(&w, rng, 14, 4, 25);
            c.desc = format!("{t:?}{}", w.desc_ctx());
            c04_full(&t, &w.rc, &w.parser, rng, c)?;
        }
        Ok(())
    });
    r.random("damaged expressions", 16000, |rng, c| {
        let w = World::random(rng);
        for _ in 0..3 {
            let t = text_of(&w, rng, 10, 0, 25);
            let t = mutate(rng, &t, &w.names);
            c.desc = format!("{t:?}{}", w.desc_ctx());
            c04_full(&t, &w.rc, &w.parser, rng, c)?;
        }
        Ok(())
    });
    r.random("token soup", 16000, |rng, c| {
        let w = World::random(rng);
        for _ in 0..3 {
            let t = soup(rng, &w.names, 12);
            c.desc = format!("{t:?}{}", w.desc_ctx());
            c04_full(&t, &w.rc, &w.parser, rng, c)?;
        }
        Ok(())
    });
    r.random("long texts", 150, |rng, c| {
        let w = World::plain(rng, 3);
        let k = *rng.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 4095, 4096, 65535, 65536, 70000]);
        let shallow = k.min(520);
        let t = match rng.below(9) {
            0 => format!("{}+1", "x".repeat(k)),
            1 => format!("1{}", "0".repeat(k)),
            2 => format!("0.{}1", "0".repeat(k)),
            3 => format!("1 {}+ 2{}", " ".repeat(k), "\n".repeat(k)),
            4 => format!("sum({}1)", "1,".repeat(k)),
            5 => format!("{}x{}", "(".repeat(shallow), ")".repeat(shallow - usize::from(rng.bool()))),
            6 => format!("1{}", "_".repeat(k)),
            7 => format!("max(x{}{}", ",y".repeat(k), rng.pick(&[")", "", ",)", "))"])),
            _ => format!("{}2{}", "-".repeat(shallow), "!".repeat(shallow)),
        };
        c.desc = short(&t);
        c04_full(&t, &w.rc, &w.parser, rng, c)
    });
    r.random("in large surroundings", 1500, |rng, c| {
        let w = World::random(rng);
        let mut t = text_of(&w, rng, 6, 10, 20);
        if rng.pct(60) {
            t = mutate(rng, &t, &w.names);
        }
        let mut t = surround(rng, &t, 2500);
        if rng.one_in(4) {
            t = mutate(rng, &t, &w.names);
        }
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c04_full(&t, &w.rc, &w.parser, rng, c)
    });
}

/* ---------------------------------------------------------------- C05 */

fn digits(rng: &mut Rng, n: usize) -> String {
    let kind = rng.below(6);
    (0..n)
        .map(|i| match kind {
            0 => '0',
            1 => '9',
            2 if i == 0 => '1',
            2 => '0',
            _ => char::from(b'0' + rng.below(10) as u8),
        })
        .collect()
}

/// A literal and its decimal meaning (digits, exponent).
fn decimal(lit: &str) -> (Vec<u8>, i64) {
    let s = lit.replace('_', "");
    let (m, e) = match s.find(['e', 'E']) {
        Some(p) => (&s[..p], s[p + 1..].to_owned()),
        None => (&s[..], "0".to_owned()),
    };
    // saturating: beyond ±10^9 the value is 0 or infinity anyway
    let neg = e.starts_with('-');
    let mag = e.trim_start_matches(['+', '-']).trim_start_matches('0');
    let mag: i64 = if mag.len() > 9 { 1_000_000_000 } else { mag.parse().unwrap_or(0) };
    let mut exp = if neg { -mag } else { mag };
    let mut d = Vec::new();
    let mut dot = false;
    for c in m.bytes() {
        if c == b'.' {
            dot = true;
        } else {
            d.push(c);
            exp -= i64::from(dot);
        }
    }
    (d, exp)
}

/// Exact decimal expansion of a double (or of the midpoint to the next one).
fn exact_decimal(bits: u64, half: bool) -> String {
    use refmodel::big::Big;
    let e = (bits >> 52) as i64;
    let f = bits & ((1 << 52) - 1);
    let (mut m, mut e2) = if e == 0 { (f, -1074) } else { (f | 1 << 52, e - 1075) };
    if half {
        m = 2 * m + 1;
        e2 -= 1;
    }
    let mut b = Big::from_u64(m);
    let mut scale = 0;
    if e2 >= 0 {
        b.shl(e2 as usize);
    } else {
        // m / 2^k = m * 5^k / 10^k
        for _ in 0..-e2 {
            b.mul_small(5);
        }
        scale = -e2;
    }
    let mut s = b.to_decimal();
    if scale > 0 {
        s = format!("{s}e-{scale}");
    }
    s
}

pub fn c05(r: &mut Runner) {
    let p = Parser::default();
    let def = RefCtx::default();
    let rcp2 = &RefCtx::default();
    let check_lit = |lit: &str, c: &mut Case| -> Res {
        let x = p.parse(lit).map_err(|e| format!("literal {} rejected: {e}", short(lit)))?;
        let v = x.eval_no_vars().map_err(|e| e.to_string())?;
        let (d, e) = decimal(lit);
        ensure!(refmodel::big::is_nearest(&d, e, v), "literal {} has value {} which is not the nearest double", short(lit), fval(v));
        c.obs();
        c.nontrivial(lit);
        Ok(())
    };
    let underscores = |rng: &mut Rng, lit: &str| -> String {
        let mut o = String::new();
        let exp_at = lit.find(['e', 'E']).unwrap_or(lit.len());
        for (i, ch) in lit.char_indices() {
            o.push(ch);
            if i < exp_at && rng.one_in(4) {
                o.push_str(&"_".repeat(rng.range(1, 3)));
            }
        }
        o
    };
    r.random("literals", 40000, |rng, c| {
        let n = if rng.one_in(10) { rng.range(1, 400) } else { rng.range(1, 22) };
        let mut lit = match rng.below(4) {
            0 => digits(rng, n),
            1 => format!(".{}", digits(rng, n)),
            2 => format!("{}.", digits(rng, n)),
            _ => {
                let k = rng.range(1, n);
                format!("{}.{}", digits(rng, k), digits(rng, n))
            },
        };
        if rng.bool() {
            let e = match rng.below(6) {
                0 => format!("{}", rng.below(1000)),
                1 => format!("{}", 290 + rng.below(40)),
                2 => format!("{:04}", rng.below(30)),
                3 if rng.one_in(10) => digits(rng, 25),
                3 => format!("{}{}", "0".repeat(rng.range(1, 30)), rng.below(350)),
                _ => format!("{}", rng.below(30)),
            };
            lit = format!("{lit}{}{}{e}", rng.pick(&["e", "E"]), rng.pick(&["", "+", "-", "-"]));
        }
        if rng.one_in(3) {
            lit = underscores(rng, &lit);
        }
        c.desc = short(&lit);
        c.class(if lit.contains('_') { "with underscores" } else { "without underscores" });
        check_lit(&lit, c)
    });
    r.random("halfway cases", 6000, |rng, c| {
        let bits = match rng.below(4) {
            0 => rng.u64() & 0x7fef_ffff_ffff_ffff,
            1 => rng.below(1 << 20) as u64,
            2 => ((rng.below(200) as u64 + 900) << 52) | (rng.u64() >> 12),
            _ => (rng.unit() * 1e6).to_bits(),
        };
        let bits = bits.min(f64::MAX.to_bits());
        let mut lit = exact_decimal(bits, rng.bool());
        if lit.starts_with('0') && lit.len() == 1 {
            return Ok(());
        }
        // just above or below the midpoint
        if let Some(epos) = lit.find('e') {
            if rng.bool() {
                let most = 1 << rng.range(1, 11);
                let z = "0".repeat(rng.below(most));
                let sc: i64 = lit[epos + 2..].parse().unwrap_or(0);
                let add = z.len() as i64 + 1;
                lit = format!("{}{z}{}e-{}", &lit[..epos], rng.pick(&["0", "1", "9"]), sc + add);
            }
        }
        if rng.one_in(4) {
            lit = underscores(rng, &lit);
        }
        c.desc = short(&lit);
        check_lit(&lit, c)
    });
    r.random("printed doubles", 10000, |rng, c| {
        let v = f64::from_bits(rng.u64() & 0x7fff_ffff_ffff_ffff);
        if !v.is_finite() {
            return Ok(());
        }
        for lit in [format!("{v}"), format!("{v:e}"), format!("{v:.20e}"), format!("{v:E}")] {
            c.desc = short(&lit);
            check_lit(&lit, c)?;
            let x = p.parse(&lit).map_err(|e| e.to_string())?;
            ensure!(x.eval_no_vars() == Ok(v), "{lit} does not read back as {}", fval(v));
        }
        Ok(())
    });
    // zeros on one side of the point, and an exponent that brings the digits back
    r.random("exponents against zeros", 8000, |rng, c| {
        let most = 1 << rng.range(1, 9);
        let z = rng.range(0, most);
        let n = rng.range(1, 20);
        let d = digits(rng, n);
        let (mut lit, back) = match rng.below(5) {
            0 => (format!(".{}{d}", "0".repeat(z)), z as i64),
            1 => (format!("{}.{}{d}", "0".repeat(rng.range(1, 4)), "0".repeat(z)), z as i64),
            2 => (format!("{d}{}", "0".repeat(z)), -(z as i64)),
            3 => (format!("{d}{}.", "0".repeat(z)), -(z as i64)),
            _ => (format!("{}{d}.{}", "0".repeat(z), "0".repeat(rng.range(0, 40))), 0),
        };
        if rng.one_in(4) {
            lit = underscores(rng, &lit);
        }
        let e = back + *rng.pick(&[0, 0, -323, 300, 308, -300]) + rng.range(0, 40) as i64 - 20;
        lit = match e {
            ..0 => format!("{lit}{}{e}", rng.pick(&["e", "E"])),
            _ => format!("{lit}{}{e}", rng.pick(&["e", "E", "e+", "e0", "E+00"])),
        };
        c.desc = short(&lit);
        check_lit(&lit, c)
    });
    // a second decimal point however far from the first
    r.random("far second points", 1500, |rng, c| {
        let most = 1 << rng.range(1, 11);
        let (n, k) = (rng.range(0, most), rng.range(1, 20));
        let zeros = rng.bool();
        let d = if zeros { "0".repeat(n) } else { digits(rng, n) };
        let lit = format!("{}.{d}.{}", if rng.bool() { digits(rng, k) } else { String::new() }, rng.pick(&["", "5", "e3", "5e-3"]));
        c.desc = short(&lit);
        c.obs();
        c.nontrivial(&lit);
        ensure!(parse(&lit, rcp2, MODE).is_err(), "the reference accepts {}", short(&lit));
        match p.parse(&lit) {
            Ok(x) => Err(format!("{} is accepted as {}", short(&lit), short(&x.to_string()))),
            Err(e) => {
                ensure!(e.to_string().contains("alformed"), "malformed literal reported as {}", short(&e.to_string()));
                Ok(())
            },
        }
    });
    // where the literal ends
    const HEAD: [&str; 16] = ["1", "2.5", ".5", "3.", "1_0", "12e3", "7E-2", "1_", "0", "1e0", "9e+1", "5_.2_5", "00", "1.5e1", "2e10", "4"];
    const TAIL: [&str; 36] = [
        "", "e", "E", "e+", "e-", "e+x", "e-x", "e*2", "e2", "e+2", "e-2", "E3", "e x", "ex", "exp(1)", "e(2)", "E+1x", "e5e", "e5e2", "e5.5", ".5", "..",
        ".e", "._1", "_e1", "_", "x", "X2", "pi", " e2", " e", "e 2", "e_1", "e'", "e1_0", "e+ 2",
    ];
    const AFTER: [&str; 6] = ["", "+1", "*x", "!", "^2", ")"];
    let rcp = &def;
    r.each("literal boundaries", 0..(16 * 36 * 6 * 3) as u64, |i, c| {
        let i = i as usize;
        let (h, t, a, pre) = (HEAD[i % 16], TAIL[i / 16 % 36], AFTER[i / 576 % 6], ["", "x+", "-"][i / 3456]);
        let s = format!("{pre}{h}{t}{a}");
        c.desc = format!("{s:?}");
        let m = parse(&s, rcp, MODE);
        match (&m, p.parse(&s)) {
            (Ok(ast), Ok(x)) => {
                c.nontrivial(&s);
                c.class("boundary accepted");
                let e: Env = ast.vars().into_iter().enumerate().map(|(i, v)| (v, 1.75 + i as f64)).collect();
                for v in &x.vars {
                    ensure!(ast.vars().contains(*v), "unexpected variable {v}");
                }
                check_value(&x, ast, &e, c)
            },
            (Err(e), Ok(x)) => Err(format!("accepted as {x}, should be rejected: {e:?}")),
            (Ok(_), Err(e)) => Err(format!("rejected: {e}")),
            (Err(RefErr::Malformed { .. }), Err(e)) => {
                c.class("malformed literal");
                c.obs();
                c.nontrivial(&s);
                ensure!(e.to_string().contains("alformed"), "malformed literal reported as {e}");
                Ok(())
            },
            (Err(_), Err(_)) => {
                c.class("boundary rejected");
                Ok(())
            },
        }
    });
    r.random("random boundaries", 12000, |rng, c| {
        let mut s = String::new();
        if rng.one_in(4) {
            s.push_str(rng.pick(&["x*", "-", "(", "2+"]));
        }
        s.push_str(&literal(rng));
        for _ in 0..rng.range(1, 4) {
            s.push_str(rng.pick(&["e", "E", "1", "2", "0", ".", "_", "+", "-", "x", "e1", "E-2", " ", "5"]));
        }
        c.desc = format!("{s:?}");
        let m = parse(&s, rcp, MODE);
        match (&m, p.parse(&s)) {
            (Ok(ast), Ok(x)) => {
                c.nontrivial(&s);
                let e: Env = ast.vars().into_iter().enumerate().map(|(i, v)| (v, 1.75 + i as f64)).collect();
                if x.vars.iter().any(|v| !e.contains_key(*v)) {
                    return Err(format!("unexpected variables {:?}", x.vars));
                }
                check_value(&x, ast, &e, c)
            },
            (Err(e), Ok(x)) => Err(format!("accepted as {x}, should be rejected: {e:?}")),
            (Ok(_), Err(e)) => Err(format!("rejected: {e}")),
            _ => Ok(()),
        }
    });
}

/* ---------------------------------------------------------------- C06 */

/// The ways a call can be evaluated.
fn c06_call(p: &Parser, name: &str, args: &[f64], want: f64, c: &mut Case, ok: &dyn Fn(f64) -> bool) -> Res {
    let names: Vec<String> = (0..args.len()).map(|i| format!("v{i}")).collect();
    let t = format!("{name}({})", names.join(","));
    let x = p.parse(&t).map_err(|e| format!("{} rejected: {e}", short(&t)))?;
    let vars = names.iter().map(String::as_str).zip(args.iter().copied()).collect();
    let vals = |how: &str, got: f64| -> Res {
        if ok(got) {
            Ok(())
        } else {
            let a: Vec<_> = args.iter().take(12).map(|v| fval(*v)).collect();
            Err(format!("{name}({}) is {} {how}, should be {}", a.join(", "), fval(got), fval(want)))
        }
    };
    vals("evaluated", ev(&x, &vars)?)?;
    c.obs();
    // by partial evaluation
    let list: Vec<(&str, f64)> = names.iter().map(String::as_str).zip(args.iter().copied()).collect();
    if args.len() <= 8 {
        let y = x.clone().simplify_for_multiple(&list);
        vals("simplified", ev(&y, &[].into())?)?;
        c.obs();
    }
    // written out
    if args.len() <= 8 && args.iter().all(|a| a.is_finite()) {
        let lits: Vec<String> = args.iter().map(|a| format!("{a:e}")).collect();
        let t = format!("{name}({})", lits.join(" , "));
        let y = p.parse(&t).map_err(|e| format!("{t} rejected: {e}"))?;
        vals("written out", ev(&y, &[].into())?)?;
        c.obs();
    }
    c.class(if want.is_finite() { "finite result" } else { "infinite or NaN result" });
    Ok(())
}

/// A double where functions change what they do: round numbers and their neighbours.
fn edge(rng: &mut Rng) -> f64 {
    let v = match rng.below(7) {
        0 => (rng.below(4001) as f64 - 2000.0) / *rng.pick(&[1.0, 2.0, 4.0, 8.0, 10.0, 100.0]),
        1 => 2f64.powi(rng.below(2100) as i32 - 1074),
        2 => 10f64.powi(rng.below(620) as i32 - 310),
        3 => (1u64 << rng.range(20, 62)) as f64 + rng.below(5) as f64 - 2.0,
        4 => (rng.u64() >> (11 + rng.below(12))) as f64,
        5 => std::f64::consts::PI * (rng.below(400) as f64 - 200.0) / *rng.pick(&[1.0, 2.0, 3.0, 4.0, 6.0, 180.0]),
        _ => *rng.pick(&[f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 709.782712893384, -745.1332191019412, 171.62437695630272, 22.0, 710.4758600739439, 0.49999999999999994]),
    };
    let near = match rng.below(4) {
        0 => f64::from_bits(v.to_bits().wrapping_add(1 + rng.below(2) as u64)),
        1 => f64::from_bits(v.to_bits().wrapping_sub(1 + rng.below(2) as u64)),
        _ => v,
    };
    if rng.one_in(3) {
        -near
    } else {
        near
    }
}

fn any_arg(rng: &mut Rng) -> f64 {
    match rng.below(18) {
        12..=17 => edge(rng),
        0 => f64::from_bits(rng.u64()),
        1 | 2 => *rng.pick(SPECIAL),
        3 => rng.below(200) as f64 - 20.0,
        4 => (rng.below(400) as f64 - 200.0) / 2.0,
        5 => (rng.unit() - 0.5) * 2.0,
        6 => (rng.unit() - 0.5) * 1e6,
        7 => rng.unit() * 720.0,
        8 => {
            let k = rng.below(60);
            (2f64).powi(k as i32 - 20) * if rng.bool() { 1.0 } else { -1.0 }
        },
        9 => std::f64::consts::FRAC_PI_2 * (rng.below(20) as f64 - 10.0),
        _ => nice(rng),
    }
}

pub fn c06(r: &mut Runner) {
    let p = Parser::default();
    r.each("factorials", 0..1200, |i, c| {
        let vals = [
            i as f64,
            -(i as f64) - 1.0,
            i as f64 + 0.5,
            i as f64 / 7.0,
            i as f64 - 2f64.powi(-20),
            f64::from_bits((i as f64).to_bits() + 1),
            if i > 0 { f64::from_bits((i as f64).to_bits() - 1) } else { -0.0 },
            2f64.powi(i as i32 / 2),
        ];
        for v in vals {
            let want = factorial(v);
            c.desc = format!("factorial of {v:?}");
            if v == v.trunc() && (0.0..=170.0).contains(&v) {
                ensure!(factorial_ok(v as u32, want), "wrong factorial table: {want:?} for {v:?}");
            }
            c06_call(&p, "factorial", &[v], want, c, &|g| bits_eq(g, want))?;
            let x = p.parse("x!").map_err(|e| e.to_string())?;
            let g = ev(&x, &[("x", v)].into())?;
            ensure!(bits_eq(g, want), "{v:?}! is {} should be {}", fval(g), fval(want));
            let y = x.simplify_for(("x", v));
            let g = ev(&y, &[].into())?;
            ensure!(bits_eq(g, want), "{v:?}! is {} simplified, should be {}", fval(g), fval(want));
            if v >= 0.0 && v.is_finite() && v.is_sign_positive() {
                let t = format!("{v:?} !");
                let g = p.parse(&t).map_err(|e| format!("{t}: {e}"))?.eval_no_vars().map_err(|e| e.to_string())?;
                ensure!(bits_eq(g, want), "{t} is {} should be {}", fval(g), fval(want));
            }
            c.obs();
            c.nontrivial(&c.desc.clone());
        }
        Ok(())
    });
    // every built-in on special values
    let singles: Vec<_> = BUILTINS.iter().filter(|b| b.1 == Some(1)).collect();
    let doubles: Vec<_> = BUILTINS.iter().filter(|b| b.1 == Some(2)).collect();
    let pairs = SPECIAL.len() * SPECIAL.len();
    r.each("special arguments", 0..(singles.len() * SPECIAL.len() + doubles.len() * pairs) as u64, |i, c| {
        let i = i as usize;
        let (name, args) = if i < singles.len() * SPECIAL.len() {
            (singles[i / SPECIAL.len()].0, vec![SPECIAL[i % SPECIAL.len()]])
        } else {
            let j = i - singles.len() * SPECIAL.len();
            (doubles[j / pairs].0, vec![SPECIAL[j % pairs / SPECIAL.len()], SPECIAL[j % SPECIAL.len()]])
        };
        let want = call_builtin(name, &args);
        c.desc = format!("{name}{args:?}");
        c.nontrivial(&c.desc.clone());
        c06_call(&p, name, &args, want, c, &|g| bits_eq(g, want))
    });
    r.random("built-ins on any doubles", 24000, |rng, c| {
        let &(name, ar) = rng.pick(BUILTINS);
        let Some(n) = ar else { return Ok(()) };
        let args: Vec<f64> = (0..n).map(|_| any_arg(rng)).collect();
        let want = call_builtin(name, &args);
        c.desc = format!("{name}{args:?}");
        c.nontrivial(&c.desc.clone());
        c06_call(&p, name, &args, want, c, &|g| bits_eq(g, want))
    });
    r.random("variadic built-ins", 12000, |rng, c| {
        let name = *rng.pick(&["min", "max", "sum", "mean"]);
        let n = match rng.below(30) {
            0 => 0,
            1 => *rng.pick(&[100, 255, 256, 257, 300, 1000]),
            2..=6 => rng.range(9, 40),
            _ => rng.range(1, 8),
        };
        let wild = rng.one_in(3);
        let mut args: Vec<f64> = (0..n).map(|_| if wild { any_arg(rng) } else { nice(rng) }).collect();
        if n > 0 && rng.one_in(3) {
            // one value that matters, anywhere
            let k = rng.below(n);
            args[k] = *rng.pick(&[1e9, -1e9, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-9]);
        }
        let want = call_builtin(name, &args);
        let mag: f64 = args.iter().map(|a| a.abs()).sum();
        let sums = matches!(name, "sum" | "mean");
        let ok = |g: f64| {
            if sums && want.is_finite() && mag.is_finite() {
                let tol = mag * 1e-12 / if name == "mean" { n as f64 } else { 1.0 };
                (g - want).abs() <= tol
            } else if sums && mag.is_finite() && n > 0 {
                true // overflow on the way, not specified
            } else if sums && !mag.is_finite() && !args.iter().any(|a| !a.is_finite()) {
                true
            } else {
                zero_eq(g, want)
            }
        };
        c.desc = format!("{name} of {n}: {:?}", &args[..n.min(8)]);
        c.nontrivial(&c.desc.clone());
        if n == 0 {
            c.class("no arguments");
        }
        c06_call(&p, name, &args, want, c, &ok)
    });
    r.each("constants and documented values", 0..1, |_, c| {
        let tab: &[(&str, f64)] = &[
            ("pi", std::f64::consts::PI),
            ("e", std::f64::consts::E),
            ("log(1000)", 3.0),
            ("ln(e)", 1.0),
            ("logn(8,2)", 3.0),
            ("logn(81,3)", 4.0),
            ("atan2(1,0)", std::f64::consts::FRAC_PI_2),
            ("atan2(0,-1)", std::f64::consts::PI),
            ("hypot(3,4)", 5.0),
            ("invert(4)", 0.25),
            ("recip(4)", 0.25),
            ("cbrt(-27)", -3.0),
            ("fract(2.75)", 0.75),
            ("trunc(-2.75)", -2.0),
            ("round(-2.5)", -3.0),
            ("round(2.5)", 3.0),
            ("floor(-0.5)", -1.0),
            ("ceil(0.5)", 1.0),
            ("gamma(5)", 24.0),
            ("gamma(0.5)", 1.7724538509055159),
            ("min()", f64::INFINITY),
            ("max()", f64::NEG_INFINITY),
            ("sum()", 0.0),
            ("mean()", f64::NAN),
            ("mean(1,2,6)", 3.0),
            ("170!", 7.257415615307994e306),
            ("171!", f64::INFINITY),
            ("(-1)!", f64::NAN),
            ("0.5!", f64::NAN),
        ];
        for (t, want) in tab {
            c.desc = (*t).to_owned();
            let g = p.parse(t).map_err(|e| format!("{t}: {e}"))?.eval_no_vars().map_err(|e| e.to_string())?;
            let close = (g - want).abs() <= want.abs() * 4e-16;
            ensure!(zero_eq(g, *want) || close, "{t} is {} should be {}", fval(g), fval(*want));
            c.obs();
            c.nontrivial(t);
        }
        Ok(())
    });
}

/* ---------------------------------------------------------------- C07 */

fn c07_one(t: &str, rc: &RefCtx, parser: &Parser, rng: &mut Rng, c: &mut Case) -> Res {
    let (Ok(ast), Ok(x)) = (parse(t, rc, MODE), parser.parse(t)) else { return Ok(()) };
    // the same expression optimised by (vacuous) partial evaluation
    let s = x.clone().simplify_for(("no such variable", 1.0));
    if ast.closed() {
        for (how, e) in [("parsed", &x), ("simplified", &s)] {
            let g = ev(e, &[].into()).map_err(|e| format!("{how}: {e}"))?;
            if !exact_ok(&ast, &Env::new(), g) {
                let want = eval(&ast, &Env::new()).unwrap_or(f64::NAN);
                return Err(format!("{how}: value is {} should be {}", fval(g), fval(want)));
            }
            c.obs();
        }
        c.class("closed");
        c.nontrivial(t);
        return Ok(());
    }
    let vars: Vec<String> = ast.vars().into_iter().collect();
    let mut seen = false;
    for k in 0..6 {
        let e: Env = vars
            .iter()
            .map(|v| {
                let f = match k {
                    0 | 1 => *rng.pick(&[0.0, 1.0, -1.0, 2.0, 0.5, -2.5, 3.0, 7.25]),
                    2 => *rng.pick(&[2.0, 3.0]),
                    3 => value(rng, 30),
                    _ => nice(rng),
                };
                (v.clone(), f)
            })
            .collect();
        let Some(want) = robust_eval(&ast, &e) else { continue };
        seen = true;
        // some of the variables by partial evaluation, some by evaluation
        let fixed: Vec<(&str, f64)> = e.iter().filter(|_| rng.bool()).map(|(k, v)| (k.as_str(), *v)).collect();
        let y = x.clone().simplify_for_multiple(&fixed);
        for (how, q) in [("parsed", &x), ("simplified", &s), ("partially evaluated", &y)] {
            let g = ev(q, &vmap(&e)).map_err(|m| format!("{how}: {m} with {e:?}"))?;
            ensure!(zero_eq(g, want), "{how}: value is {} should be {} for {e:?} (as {q})", fval(g), fval(want));
            c.obs();
        }
    }
    if seen {
        c.nontrivial(t);
        let (a, b) = (format!("{x}").len(), full_text(&ast).map_or(0, |f| f.len()));
        c.class(if a * 10 < b * 8 || !x.vars.iter().all(|v| vars.iter().any(|w| w == v)) || x.vars.len() < vars.len() {
            "visibly optimised"
        } else {
            "open"
        });
    } else {
        c.class("no finite values found");
    }
    Ok(())
}

pub fn c07(r: &mut Runner) {
    let mut rc = RefCtx::default();
    for (n, a, b) in [("f", Some(2), 0usize), ("g", Some(2), 6), ("h", None, 7), ("u", Some(1), 9)] {
        rc.syms.insert(n.into(), Sym::Func(Func { name: n.into(), body: Body::User(b), arity: a }));
    }
    for (n, v) in [("inf_", f64::INFINITY), ("nan_", f64::NAN), ("m", -1.0), ("nz", -0.0), ("eps", 1e-320), ("one_", 1.0 + f64::EPSILON)] {
        rc.syms.insert(n.into(), Sym::Const(v));
    }
    let parser = Parser::new_with_ctx(mk_ctx(&rc, 4));
    const A: [&str; 34] = [
        "0", "1", "2", "m", "nz", "0.5", "x", "y", "(-x)", "(-y)", "(x+y)", "(y+x)", "(x-y)", "(y-x)", "(x*y)", "(y*x)", "(x/y)", "(y/x)", "(x^y)",
        "(y^x)", "(x%y)", "f(x,y)", "f(y,x)", "g(x,y)", "h(x,y,x)", "h(x,y)", "(x!)", "(-(x+y))", "(-(y+x))", "(x+1)", "(x+2)", "eps", "(-(x-y))", "u(x)",
    ];
    const OPS: [&str; 6] = ["+", "-", "*", "/", "%", "^"];
    let n1 = (34 * 34 * 6) as u64;
    let seed = r.o.seed;
    r.each("rule shapes", 0..n1, |i, c| {
        let i = i as usize;
        let t = format!("{}{}{}", A[i % 34], OPS[i / 34 % 6], A[i / 204]);
        c.desc = t.clone();
        let mut rng = Rng::new(seed ^ 77 ^ i as u64);
        c07_one(&t, &rc, &parser, &mut rng, c)
    });
    r.random("rule shapes inside others", 20000, |rng, c| {
        let a = format!("({}{}{})", rng.pick(&A), rng.pick(&OPS), rng.pick(&A));
        let b = match rng.below(4) {
            0 => a.clone(),
            1 => format!("({}{}{})", rng.pick(&A), rng.pick(&OPS), rng.pick(&A)),
            _ => (*rng.pick(&A)).to_owned(),
        };
        let (l, rr) = if rng.bool() { (a, b) } else { (b, a) };
        let sg = |rng: &mut Rng| *rng.pick(&["", "", "-", "--"]);
        let t = format!("{}{l}{}{}{rr}", sg(rng), rng.pick(&OPS), sg(rng));
        c.desc = t.clone();
        c07_one(&t, &rc, &parser, rng, c)
    });
    // an operation on an operation, with constants of all sorts
    const K: [&str; 12] = ["2", "1.5", "0.5", "3", "4", "m", "0.1", "10", "(-2)", "7", "1e10", "(1/3)"];
    r.each("two operations with constants", 0..(144 * 144), |i, c| {
        let mut k = i as usize;
        let mut take = |n: usize| {
            let v = k % n;
            k /= n;
            v
        };
        let (a, b, p, q) = (K[take(12)], K[take(12)], OPS[take(6)], OPS[take(6)]);
        let inner = if take(2) == 0 { format!("(x{p}{a})") } else { format!("({a}{p}x)") };
        let t = if take(2) == 0 { format!("{inner}{q}{b}") } else { format!("{b}{q}{inner}") };
        c.desc = t.clone();
        let mut rng = Rng::new(seed ^ 78 ^ i);
        c07_one(&t, &rc, &parser, &mut rng, c)
    });
    const U: [&str; 16] = ["sin", "cos", "abs", "sqrt", "cbrt", "exp", "ln", "log", "floor", "ceil", "round", "trunc", "recip", "gamma", "u", "-"];
    r.random("operations and functions of one variable", 10000, |rng, c| {
        let mut t = "x".to_owned();
        for _ in 0..rng.range(2, 4) {
            t = match rng.below(5) {
                0 | 1 => format!("{}({t})", rng.pick(&U)),
                2 => format!("({}{}{t})", rng.pick(&K), rng.pick(&OPS)),
                3 => format!("({t}{}{})", rng.pick(&OPS), rng.pick(&["x", "y", "x!", "(-x)"])),
                _ => format!("({t}{}{})", rng.pick(&OPS), rng.pick(&K)),
            };
        }
        c.desc = t.clone();
        c07_one(&t, &rc, &parser, rng, c)
    });
    // constants of every size, whole or not, against the signs of what they are applied to
    r.random("any constant", 12000, |rng, c| {
        let k = |rng: &mut Rng| {
            let near = *rng.pick(&[0.0, 1.0, -1.0, 2.0, 0.5]);
            let v = match rng.below(4) {
                0 => f64::from(rng.below(300) as u32) + near,
                1 => (rng.range(1, 62) as f64).exp2() + near,
                2 => 10f64.powi(rng.range(1, 18) as i32) + near,
                _ => (rng.range(1, 60) as f64).exp2().recip(),
            };
            let v = v.abs();
            if rng.one_in(4) { format!("(-{v})") } else { format!("{v}") }
        };
        let a = *rng.pick(&["x", "(-x)", "(-(-x))", "(x+y)", "(-(x*y))", "(-x!)", "f(x,y)", "(-abs(x))", "(-u(x))", "(x^2)", "(-x^3)", "sqrt(x)", "(x/y)"]);
        let t = match rng.below(4) {
            0 => format!("{a}{}{}", rng.pick(&OPS), k(rng)),
            1 => format!("{}{}{a}", k(rng), rng.pick(&OPS)),
            2 => format!("{}({a}){}{}", rng.pick(&U), rng.pick(&OPS), k(rng)),
            _ => format!("{a}{}{}{}{}", rng.pick(&OPS), k(rng), rng.pick(&OPS), k(rng)),
        };
        c.desc = t.clone();
        c07_one(&t, &rc, &parser, rng, c)
    });
    r.random("in large surroundings", 400, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 8, 40, 20);
        let t = surround(rng, &t, 600);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c07_one(&t, &w.rc, &w.parser, rng, c)
    });
    // calls of functions whatever their names and arguments
    const ARGS: [&str; 14] = ["x", "(-x)", "-(x+y)", "0", "1", "m", "x*1", "x+0", "(x-x)", "-x^2", "x!", "NAME", "-NAME", "inf_"];
    let named: Vec<(&str, Option<usize>)> = BUILTINS.iter().copied().chain([("f", Some(1)), ("pow", Some(2)), ("sgn", Some(1)), ("log2", Some(1)), ("a_long_name", None), ("if", Some(3))]).collect();
    r.random("calls by any name", 6000, |rng, c| {
        let mut rc = RefCtx::default();
        rc.syms.insert("m".into(), Sym::Const(-1.0));
        rc.syms.insert("inf_".into(), Sym::Const(f64::INFINITY));
        let (name, own) = *rng.pick(&named);
        let arity = if rng.pct(80) { own } else { Some(rng.below(4)) };
        // a function of the context, or the built-in one
        if RefCtx::default().resolve(name).is_none() || rng.pct(75) {
            rc.syms.insert(name.into(), Sym::Func(Func { name: name.into(), body: Body::User(rng.below(10)), arity }));
        }
        let p = Parser::new_with_ctx(mk_ctx(&rc, rng.u64()));
        let n = match rc.resolve(name) {
            Some(Sym::Func(f)) => f.arity.unwrap_or_else(|| rng.below(5)),
            _ => return Ok(()),
        };
        let call = |rng: &mut Rng, inner: &str| {
            let a: Vec<String> = (0..n).map(|_| rng.pick(&ARGS).replace("NAME", inner)).collect();
            format!("{name}({})", a.join(", "))
        };
        let plain = format!("{name}({})", vec!["x"; n].join(","));
        let inner = call(rng, &plain);
        let t = match rng.below(6) {
            0 => format!("-{}", call(rng, &inner)),
            1 => format!("{}{}{}", call(rng, &inner), rng.pick(&OPS), call(rng, &plain)),
            2 => format!("{}^2", call(rng, &inner)),
            3 => format!("2-{}", call(rng, &inner)),
            _ => call(rng, &inner),
        };
        c.desc = format!("{t} with {:?}", rc.syms.get(name));
        c07_one(&t, &rc, &p, rng, c)
    });
    r.random("closed expressions", 16000, |rng, c| {
        let mut w = World::random(rng);
        w.names.vars.clear();
        let b = rng.range(2, 12);
        let s = w.gen(35, 20).syn(rng, b);
        let t = refmodel::gen::render(&s, Parens::Some(60), rng);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c07_one(&t, &w.rc, &w.parser, rng, c)
    });
    r.random("closed expressions with special constants", 8000, |rng, c| {
        let k = ["inf_", "nan_", "m", "nz", "eps", "one_", "0", "1", "2", "0.5", "3", "pi"];
        let n = rng.range(2, 5);
        let mut t = String::new();
        for j in 0..n {
            if j > 0 {
                t.push_str(rng.pick(&OPS));
            }
            t.push_str(rng.pick(&["", "", "-", "+"]));
            match rng.below(8) {
                0 => t.push_str(&format!("({}{}{})", rng.pick(&k), rng.pick(&OPS), rng.pick(&k))),
                1 => t.push_str(&format!("f({},{})", rng.pick(&k), rng.pick(&k))),
                2 => t.push_str(&format!("{}!", rng.pick(&k))),
                3 => t.push_str(&format!("max({},{})", rng.pick(&k), rng.pick(&k))),
                _ => t.push_str(rng.pick(&k)),
            }
        }
        c.desc = t.clone();
        c07_one(&t, &rc, &parser, rng, c)
    });
    r.random("open expressions", 16000, |rng, c| {
        let w = World::random(rng);
        let b = rng.range(2, 14);
        let s = w.gen(40, 15).syn(rng, b);
        let t = refmodel::gen::render(&s, Parens::Some(70), rng);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c07_one(&t, &w.rc, &w.parser, rng, c)
    });
}

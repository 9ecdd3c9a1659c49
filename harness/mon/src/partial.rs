//! Monitors of partial evaluation, variables, display and equality: C08, C09,
//! C15 and C19.
use crate::common::*;
use crate::ensure;
use refmodel::gen::*;
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet};
use xprs::{Parser, Xprs};

/// An expression accepted by both sides.
pub fn both<'t>(w: &World, t: &'t str, c: &mut Case) -> Option<(Ast, Xprs<'t>)> {
    match (parse(t, &w.rc, MODE), w.parser.parse(t)) {
        (Ok(a), Ok(x)) => Some((a, x)),
        _ => {
            c.class("rejected (not judged here)");
            None
        },
    }
}

/// Names that resemble variables of the expression but are not.
fn lookalikes(vars: &BTreeSet<String>, rng: &mut Rng) -> Vec<String> {
    let mut out = vec![];
    for v in vars {
        match rng.below(8) {
            0 => out.push(format!("{v}1")),
            1 => out.push(format!("{v}'")),
            2 => out.push(v.to_uppercase()),
            3 => out.push(v.to_lowercase()),
            4 => out.push(v[..v.len() - 1].to_owned()),
            5 => out.push(format!("{v} ")),
            6 => out.push(format!("{v}_")),
            _ => {},
        }
    }
    if rng.one_in(4) {
        out.push((*rng.pick(&["", "pi", "e", "sin", "unused", "é", "1", "+"])).to_owned());
    }
    out.retain(|n| !vars.contains(n));
    out
}

/* ---------------------------------------------------------------- C08 */

/// One way of substituting: calls in order, each with its list.
fn apply<'a>(x: Xprs<'a>, parts: &[Vec<(String, f64)>], how: u64) -> Xprs<'a> {
    let mut y = x;
    for (i, part) in parts.iter().enumerate() {
        let l: Vec<(&str, f64)> = part.iter().map(|(n, v)| (n.as_str(), *v)).collect();
        let bit = how >> (i % 60) & 3;
        if l.len() == 1 && how & 4 == 0 {
            if bit & 1 == 0 {
                y = y.simplify_for(l[0]);
            } else {
                y.simplify_for_in_place(l[0]);
            }
        } else if bit & 1 == 0 {
            y = y.simplify_for_multiple(&l);
        } else {
            y.simplify_for_multiple_in_place(&l);
        }
    }
    y
}

fn split(list: &[(String, f64)], rng: &mut Rng) -> Vec<Vec<(String, f64)>> {
    match rng.below(3) {
        0 => vec![list.to_vec()],
        1 => list.iter().map(|p| vec![p.clone()]).collect(),
        _ => {
            let mut out = vec![];
            let mut i = 0;
            while i < list.len() {
                let k = rng.range(1, list.len() - i);
                out.push(list[i..i + k].to_vec());
                i += k;
            }
            out
        },
    }
}

fn c08_one(w: &World, t: &str, envs: usize, rng: &mut Rng, c: &mut Case) -> Res {
    let Some((ast, x)) = both(w, t, c) else { return Ok(()) };
    let vars = ast.vars();
    let before = dbg_of(&x);
    let witness = x.clone();
    let good = good_envs(&ast, rng, envs, envs * 4);
    if good.is_empty() {
        c.class("no finite values found");
        return Ok(());
    }
    for (e, want) in good {
        let names: Vec<&String> = vars.iter().collect();
        for round in 0..if names.is_empty() { 1 } else { 3 } {
            // which ones are substituted, in which order, with which strays
            let mut list: Vec<(String, f64)> = vec![];
            for n in &names {
                if round == 0 || rng.bool() {
                    list.push(((*n).clone(), e[*n]));
                }
            }
            if round > 0 && list.len() == names.len() && list.len() > 1 {
                list.remove(rng.below(names.len()));
            }
            rng.shuffle(&mut list);
            let fixed: BTreeSet<String> = list.iter().map(|p| p.0.clone()).collect();
            let mut full = list.clone();
            for s in lookalikes(&vars, rng) {
                let v = *rng.pick(&[f64::NAN, 0.0, 1.0, f64::INFINITY, -3.0]);
                full.insert(rng.below(full.len() + 1), (s, v));
            }
            // later values for the same variable lose
            for _ in 0..rng.below(3) {
                if list.is_empty() {
                    break;
                }
                let (n, _) = rng.pick(&list).clone();
                let first = full.iter().position(|p| p.0 == n).unwrap_or(0);
                let at = rng.range(first + 1, full.len());
                full.insert(at, (n, *rng.pick(&[f64::NAN, 0.0, 1.0, -7.5, 1e9])));
            }
            let rest: Env = e.iter().filter(|(k, _)| !fixed.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
            let parts = split(&full, rng);
            let seq = rng.u64();
            let a = apply(x.clone(), &parts, seq);
            let mut results = vec![("some way", a.clone())];
            // by value and in place do the same
            let b = apply(x.clone(), &parts, !seq & !4 | seq & 4);
            ensure!(
                dbg_of(&a) == dbg_of(&b),
                "in-place and by-value forms differ: {a} and {b} for {parts:?}"
            );
            let mut other = list.clone();
            rng.shuffle(&mut other);
            results.push(("another order", apply(x.clone(), &split(&other, rng), rng.u64())));
            for (how, y) in &results {
                let g = ev(y, &vmap(&rest)).map_err(|m| format!("{how} {parts:?}: {m} with {rest:?}, as {y}"))?;
                ensure!(
                    zero_eq(g, want),
                    "{how} {parts:?} then {rest:?}: value is {} should be {} (as {y})",
                    fval(g),
                    fval(want)
                );
                // the values of variables already replaced do not matter
                let mut noisy = rest.clone();
                for f in &fixed {
                    noisy.insert(f.clone(), *rng.pick(&[f64::NAN, 77.0, 0.0]));
                }
                let g = y.eval(&vmap(&noisy)).map_err(|m| format!("{how} {parts:?}: {m}"))?;
                ensure!(zero_eq(g, want), "{how} {parts:?} then {noisy:?}: value is {} should be {}", fval(g), fval(want));
                c.obs();
            }
            c.class(if fixed.is_empty() {
                "nothing substituted"
            } else if rest.is_empty() {
                "all substituted"
            } else {
                "partly substituted"
            });
        }
        let g = ev(&witness, &vmap(&e))?;
        ensure!(zero_eq(g, want), "a clone taken before has value {} should be {}", fval(g), fval(want));
    }
    ensure!(dbg_of(&x) == before && dbg_of(&witness) == before, "the original or a clone of it changed");
    if !vars.is_empty() {
        c.nontrivial(&c.desc.clone());
    }
    Ok(())
}

/// Environments in which identities and folding are likely.
fn tricky(w: &mut World, rng: &mut Rng) {
    if rng.one_in(3) {
        w.names.vars.truncate(2);
    }
}

pub fn c08(r: &mut Runner) {
    r.random("expressions", 14000, |rng, c| {
        let mut w = World::random(rng);
        tricky(&mut w, rng);
        let t = text_of(&w, rng, 14, 15, 25);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c08_one(&w, &t, 2, rng, c)
    });
    r.random("expressions full of identities", 8000, |rng, c| {
        let nv = rng.range(1, 3);
        let w = World::plain(rng, nv);
        let b = rng.range(3, 12);
        let s = w.gen(60, 10).syn(rng, b);
        let t = refmodel::gen::render(&s, Parens::Full, rng);
        c.desc = format!("{t:?}");
        c08_one(&w, &t, 2, rng, c)
    });
    r.random("many variables", 1500, |rng, c| {
        let n = rng.range(5, 40);
        let vars: Vec<String> = (0..n).map(|i| format!("{}{i}", rng.pick(&["v", "V", "w_", "x'"]))).collect();
        let mut t = String::new();
        for (i, v) in vars.iter().enumerate() {
            if i > 0 {
                t.push_str(rng.pick(&["+", "-", "*", "+2*", "-(1+", "/"]));
            }
            t.push_str(v);
        }
        let open = t.matches('(').count();
        t.push_str(&")".repeat(open));
        let w = World { names: Names { vars, ..Names::default() }, rc: RefCtx::default(), parser: Parser::default() };
        c.desc = t.clone();
        c08_one(&w, &t, 1, rng, c)
    });
    r.random("in large surroundings", 250, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 6, 20, 20);
        let t = surround(rng, &t, 400);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c08_one(&w, &t, 1, rng, c)
    });
    crate::endure::substitutions(r);
    crate::endure::special_values(r);
}

/* ---------------------------------------------------------------- C09 */

/// Identifiers of a text that are not called (nor infinities and NaN).
pub fn displayed_vars(text: &str) -> BTreeSet<String> {
    let toks = lex(text);
    let mut out = BTreeSet::new();
    for (i, t) in toks.iter().enumerate() {
        if t.tok == Tok::Ident {
            let call = toks.get(i + 1).is_some_and(|n| n.tok == Tok::Op('('));
            let name = &text[t.start..t.end];
            if !call && name != "inf" && name != "NaN" {
                out.insert(name.to_owned());
            }
        }
    }
    out
}

fn named_missing(err: &str) -> Option<&str> {
    let a = err.find('\'')?;
    let b = err.rfind('\'')?;
    (b > a).then(|| &err[a + 1..b])
}

fn c09_vars(x: &Xprs, original: &BTreeSet<String>, gone: &BTreeSet<String>, how: &str, rng: &mut Rng, c: &mut Case) -> Res {
    let listed: BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
    let shown = displayed_vars(&x.to_string());
    ensure!(listed == shown, "{how}: variables {listed:?} but it reads {x}");
    for v in &listed {
        ensure!(original.contains(v), "{how}: variable {v:?} is not in the text");
        ensure!(!gone.contains(v), "{how}: variable {v:?} was given a value");
    }
    c.obs();
    // every subset of the variables (a sample of them when there are many)
    let names: Vec<&String> = listed.iter().collect();
    let k = names.len();
    let subsets: Vec<Vec<bool>> = if k <= 4 {
        (0..1u32 << k).map(|m| (0..k).map(|i| m >> i & 1 == 1).collect()).collect()
    } else {
        let mut s: Vec<Vec<bool>> = (0..12.min(k))
            .map(|_| {
                let i = rng.below(k);
                (0..k).map(|j| i != j).collect()
            })
            .collect();
        s.push(vec![true; k]);
        s.push(vec![false; k]);
        for _ in 0..6 {
            s.push((0..k).map(|_| rng.bool()).collect());
        }
        s
    };
    for sub in subsets {
        let mut e: Env = Env::new();
        for (i, n) in names.iter().enumerate() {
            if sub[i] {
                e.insert((*n).clone(), *rng.pick(&[0.0, 1.0, 2.5, -1.0, f64::NAN, f64::INFINITY]));
            }
        }
        let missing: BTreeSet<&str> = names.iter().zip(&sub).filter(|(_, s)| !**s).map(|(n, _)| n.as_str()).collect();
        // further values do not help
        for s in lookalikes(&listed, rng) {
            e.entry(s).or_insert(1.0);
        }
        for g in gone {
            if !listed.contains(g) {
                e.insert(g.clone(), 1.0);
            }
        }
        match x.eval(&vmap(&e)) {
            Ok(_) => ensure!(missing.is_empty(), "{how}: evaluation succeeded without {missing:?} in {x}"),
            Err(err) => {
                ensure!(!missing.is_empty(), "{how}: {err} although every listed variable has a value ({e:?}, {x})");
                let s = err.to_string();
                let n = named_missing(&s).ok_or_else(|| format!("{how}: no name in {s:?}"))?;
                ensure!(missing.contains(n), "{how}: error names {n:?}, missing are {missing:?}");
                c.class("missing variable named");
            },
        }
        c.obs();
        if rng.one_in(3) {
            let ok = guard(|| x.eval_unchecked(&vmap(&e))).is_ok();
            ensure!(ok == missing.is_empty(), "{how}: unchecked evaluation {} without {missing:?}", if ok { "succeeds" } else { "panics" });
        }
    }
    let nv = x.eval_no_vars();
    match nv {
        Ok(_) => ensure!(listed.is_empty(), "{how}: evaluation without variables succeeded"),
        Err(err) => {
            let s = err.to_string();
            ensure!(named_missing(&s).is_some_and(|n| listed.contains(n)), "{how}: {s} with variables {listed:?}");
        },
    }
    Ok(())
}

fn c09_one(w: &World, t: &str, rng: &mut Rng, c: &mut Case) -> Res {
    let Some((ast, x)) = both(w, t, c) else { return Ok(()) };
    let vars = ast.vars();
    if !OPT {
        let listed: BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
        ensure!(listed == vars, "variables {listed:?} but the text has {vars:?}");
    }
    let mut gone = BTreeSet::new();
    c09_vars(&x, &vars, &gone, "parsed", rng, c)?;
    let mut y = x.clone();
    let mut order: Vec<&String> = vars.iter().collect();
    rng.shuffle(&mut order);
    if rng.one_in(3) {
        y.simplify_for_in_place(("unrelated", 1.0));
        c09_vars(&y, &vars, &gone, "simplified", rng, c)?;
    }
    for v in order.into_iter().take(3) {
        let val = *rng.pick(&[0.0, 1.0, 2.0, -1.5, 0.5, f64::INFINITY]);
        match rng.below(3) {
            0 => y = y.simplify_for((v, val)),
            1 => y.simplify_for_in_place((v, val)),
            _ => y = y.simplify_for_multiple(&[(v, val), ("zzz", 2.0)]),
        }
        gone.insert(v.clone());
        c09_vars(&y, &vars, &gone, &format!("simplified for {gone:?} (last {val:?})"), rng, c)?;
        if y.vars.len() < vars.len() - gone.len() {
            c.class("more variables eliminated than given");
        }
    }
    // a clone taken before keeps its variables
    c09_vars(&x, &vars, &BTreeSet::new(), "original", rng, c)?;
    if !vars.is_empty() {
        c.nontrivial(&c.desc.clone());
    }
    Ok(())
}

pub fn c09(r: &mut Runner) {
    r.random("expressions", 16000, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 12, 20, 25);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c09_one(&w, &t, rng, c)
    });
    r.random("expressions full of identities", 12000, |rng, c| {
        let nv = rng.range(1, 3);
        let w = World::plain(rng, nv);
        let b = rng.range(3, 10);
        let s = w.gen(65, 10).syn(rng, b);
        let t = refmodel::gen::render(&s, Parens::Full, rng);
        c.desc = format!("{t:?}");
        c09_one(&w, &t, rng, c)
    });
    r.random("a variable for each place", 4000, |rng, c| {
        let w = World::plain(rng, 2);
        let b = rng.range(3, 30);
        let calls = *rng.pick(&[10, 50, 90]);
        let mut s = w.gen(10, calls).syn(rng, b);
        let pct = *rng.pick(&[100, 60, 10, 3]);
        own_variables(&mut s, pct, &mut 0, rng);
        let t = refmodel::gen::render(&s, if rng.bool() { Parens::Full } else { Parens::Some(40) }, rng);
        c.desc = short(&t);
        c09_one(&w, &t, rng, c)
    });
    r.random("calls with many arguments", 1500, |rng, c| {
        let w = World::plain(rng, 1);
        let n = *rng.pick(&[5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 257, 700]);
        let at = if rng.bool() { rng.below(n) } else { n - 1 };
        let pct = *rng.pick(&[0, 2, 50]);
        let mut t = format!("{}(", rng.pick(&["max", "min", "sum", "mean"]));
        for i in 0..n {
            if i > 0 {
                t.push(',');
            }
            if i == at || rng.pct(pct) {
                t.push_str(rng.pick(&["", "-", "2", "2+", "abs ", "sqrt("]));
                let close = t.ends_with('(');
                if t.ends_with("abs ") {
                    t.truncate(t.len() - 4);
                }
                t.push_str(&format!("v{i}"));
                if close {
                    t.push(')');
                }
            } else {
                t.push_str(rng.pick(&["1", "2", "0.5", "pi"]));
            }
        }
        t.push(')');
        c.desc = short(&t);
        c09_one(&w, &t, rng, c)
    });
    r.random("close names", 6000, |rng, c| {
        let stem = *rng.pick(&["x", "ab", "sin", "pi", "e", "max", "Foo", "n"]);
        let mut vars: Vec<String> =
            ["", "1", "'", "_", "X", "x", "0", "_1", "''", "A"].iter().map(|s| format!("{stem}{s}")).collect();
        vars.retain(|v| RefCtx::default().resolve(v).is_none());
        rng.shuffle(&mut vars);
        vars.truncate(rng.clone().range(2, 6));
        let mut w = World::plain(rng, 0);
        w.names.vars = vars;
        let t = text_of(&w, rng, 12, 10, 20);
        c.desc = format!("{t:?}");
        c09_one(&w, &t, rng, c)
    });
    r.random("many variables", 600, |rng, c| {
        let n = *rng.pick(&[20, 60, 200, 300]);
        let mut t = String::new();
        for i in 0..n {
            if i > 0 {
                t.push_str(rng.pick(&["+", "-", "*", " "]));
            }
            t.push_str(&format!("x{}", rng.below(n)));
            let _ = i;
        }
        c.desc = short(&t);
        let w = World { names: Names::default(), rc: RefCtx::default(), parser: Parser::default() };
        c09_one(&w, &t, rng, c)
    });
    r.random("in large surroundings", 250, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 6, 20, 20);
        let t = surround(rng, &t, 400);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c09_one(&w, &t, rng, c)
    });
    r.random("very many variables", 3, |rng, c| {
        let n = rng.range(1000, 2200);
        let t = (0..n).map(|i| format!("v{i}")).collect::<Vec<_>>().join(rng.pick(&["+", "-", " "]));
        c.desc = short(&t);
        let w = World { names: Names::default(), rc: RefCtx::default(), parser: Parser::default() };
        c09_one(&w, &t, rng, c)
    });
    crate::endure::failures(r);
}

/* ---------------------------------------------------------------- C15 */

fn all_finite(x: &Xprs) -> bool {
    let d = format!("{:?}", x.root);
    // Debug of a constant that cannot be written
    !d.contains("Number(NaN") && !d.contains("Number(inf") && !d.contains("Number(-inf")
}

fn c15_shown(w: &World, x: &Xprs, how: &str, rng: &mut Rng, c: &mut Case) -> Res {
    if !all_finite(x) {
        c.class("constant not finite (not judged)");
        return Ok(());
    }
    let shown = x.to_string();
    let y = w.parser.parse(&shown).map_err(|e| format!("{how}: displays as {shown:?} which is rejected: {e}"))?;
    for v in &y.vars {
        ensure!(x.vars.contains(v), "{how}: displays as {shown:?} which needs {v:?}");
    }
    let model = parse(&shown, &w.rc, MODE);
    let vars: BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
    let mut told = false;
    for k in 0..4 {
        let e = refmodel::gen::env(rng, &vars, [0, 0, 15, 60][k]);
        let m = vmap(&e);
        let (Ok(a), Ok(b)) = (ev(x, &m), ev(&y, &m)) else {
            return Err(format!("{how}: evaluation failed for {shown:?} with {e:?}"));
        };
        if OPT {
            let Ok(model) = &model else { continue };
            if robust_eval(model, &e).is_none() {
                continue;
            }
            ensure!(zero_eq(a, b), "{how}: displays as {shown:?} with value {} instead of {} for {e:?}", fval(b), fval(a));
        } else {
            ensure!(bits_eq(a, b), "{how}: displays as {shown:?} with value {} instead of {} for {e:?}", fval(b), fval(a));
        }
        told = true;
        c.obs();
        if vars.is_empty() {
            break;
        }
    }
    // and that is stable
    let again = y.to_string();
    let z = w.parser.parse(&again).map_err(|e| format!("{how}: displays as {again:?} after re-parsing, which is rejected: {e}"))?;
    let _ = z;
    if told {
        c.class("displayed form judged");
        c.nontrivial(&shown);
    } else {
        c.class("no comparable value");
    }
    Ok(())
}

fn c15_one(w: &World, t: &str, rng: &mut Rng, c: &mut Case) -> Res {
    let Ok(x) = w.parser.parse(t) else { return Ok(()) };
    c15_shown(w, &x, "parsed", rng, c)?;
    let mut y = x;
    let mut vars: Vec<String> = y.vars.iter().map(|s| (*s).to_owned()).collect();
    vars.sort();
    rng.shuffle(&mut vars);
    if rng.one_in(2) {
        y.simplify_for_in_place(("unrelated name", 3.0));
        c15_shown(w, &y, "simplified", rng, c)?;
    }
    for v in vars.iter().take(2) {
        let val = *rng.pick(&[0.0, -1.0, 2.0, -2.5, 1e21, 1e-7, 1.0, -0.0, 1e300, -5e-324, 0.1, 3.0]);
        y.simplify_for_in_place((v, val));
        c15_shown(w, &y, &format!("simplified for {v}={val:?}"), rng, c)?;
    }
    Ok(())
}

pub fn c15(r: &mut Runner) {
    r.random("expressions", 16000, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 14, 6, 25);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c15_one(&w, &t, rng, c)
    });
    r.random("negative and odd constants", 16000, |rng, c| {
        // constants of every sign and size, reaching every operand position
        let mut w = World::plain(rng, 2);
        let vals = [-2.0, -0.0, 1e21, -1e21, 1e-7, -3.5, 5e-324, f64::MAX, -1e300, 0.1, 123456789.125, 2.0, 3.0, 1.0, 0.0];
        for n in ["ka", "kb", "kc"] {
            let v = if rng.one_in(4) { f64::from_bits(rng.u64()) } else { *rng.pick(&vals) };
            if v.is_finite() {
                w.rc.syms.insert(n.into(), Sym::Const(v));
                w.names.consts.push(n.into());
            }
        }
        for (n, a) in [("f", None), ("g'", Some(2)), ("H_1", Some(0))] {
            w.rc.syms.insert(n.into(), Sym::Func(Func { name: n.into(), body: Body::User(rng.below(9)), arity: a }));
            w.names.funcs.push((n.into(), a));
        }
        w.parser = Parser::new_with_ctx(mk_ctx(&w.rc, rng.u64()));
        let b = rng.range(2, 9);
        let mut g = w.gen(10, 20);
        g.var_leaves = 35;
        g.fact = 100;
        let s = g.syn(rng, b);
        let t = refmodel::gen::render(&s, Parens::Some(60), rng);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c15_one(&w, &t, rng, c)
    });
    // constants of every size, whole and not, however they got there
    r.each("constants of every size", 0..2200 * 2, |i, c| {
        let mut rng = Rng::new(i ^ 0x15);
        let k = (i / 2) as i32 - 1100;
        let v = match rng.below(6) {
            0 => 2f64.powi(k),
            1 => 2f64.powi(k) * 1.5,
            2 => 2f64.powi(k) * (1.0 + f64::EPSILON),
            3 => 2f64.powi(k) * (1.0 + rng.unit()),
            4 => (2f64.powi(*rng.pick(&[7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62, 63, 63, 64, 64, 65, 126, 127, 128, 129])) * { let u = rng.unit(); *rng.pick(&[1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON, 1.03, 1.0 + u * 0.1, 1.0 + u]) }).floor(),
            // whole numbers of every number of digits
            _ if rng.bool() => (10f64.powi(k.rem_euclid(40)) * (1.0 + 9.0 * rng.unit())).floor(),
            _ => 10f64.powi(k.rem_euclid(617) - 308) * if rng.bool() { 1.0 } else { rng.range(1, 9) as f64 },
        } * if i % 2 == 0 { 1.0 } else { -1.0 };
        if !v.is_finite() {
            return Ok(());
        }
        let mut w = World::plain(&mut rng, 0);
        w.rc.syms.insert("k".into(), Sym::Const(v));
        w.parser = Parser::new_with_ctx(mk_ctx(&w.rc, 0));
        let t = *rng.pick(&["k", "k*x", "x-k", "max(k,x)", "k^x", "x^k", "-k", "x%k", "x/k", "k!+x"]);
        c.desc = format!("{t:?} with k = {v:?}");
        c15_one(&w, t, &mut rng, c)
    });
    const OPS: [&str; 6] = ["+", "-", "*", "/", "%", "^"];
    const A: [&str; 16] = [
        "x", "-x", "x!", "m", "-m", "m!", "(x+y)", "-(x+y)", "(x+y)!", "(x^y)", "(-x)^m", "f(x,m)", "x!!", "(-x)!", "2", "(m+x)",
    ];
    let mut rc = RefCtx::default();
    rc.syms.insert("m".into(), Sym::Const(-2.0));
    rc.syms.insert("f".into(), Sym::Func(Func { name: "f".into(), body: Body::User(6), arity: None }));
    let w = World { names: Names::default(), parser: Parser::new_with_ctx(mk_ctx(&rc, 0)), rc };
    let seed = r.o.seed;
    r.each("every operator pair", 0..(16u64.pow(3) * 36 * 2), |i, c| {
        let mut k = i as usize;
        let mut take = |n: usize| {
            let v = k % n;
            k /= n;
            v
        };
        let (a, b, d) = (A[take(16)], A[take(16)], A[take(16)]);
        let (p, q) = (OPS[take(6)], OPS[take(6)]);
        let t = if take(2) == 0 { format!("(({a}){p}({b})){q}({d})") } else { format!("({a}){p}(({b}){q}({d}))") };
        c.desc = t.clone();
        let mut rng = Rng::new(seed ^ i << 4);
        c15_one(&w, &t, &mut rng, c)
    });
    r.random("in large surroundings", 250, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 6, 10, 20);
        let t = surround(rng, &t, 400);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c15_one(&w, &t, rng, c)
    });
    r.random("many arguments and deep", 300, |rng, c| {
        let n = rng.range(20, 150);
        let t = match rng.below(4) {
            0 => format!("max({})", vec!["-x^2"; n].join(",")),
            1 => format!("{}y{}", "-(x+".repeat(n), ")".repeat(n)),
            2 => format!("x{}", "!".repeat(n)),
            _ => format!("{}x", "-".repeat(n)),
        };
        c.desc = short(&t);
        c15_one(&w, &t, rng, c)
    });
}

/* ---------------------------------------------------------------- C19 */

/// Constants of the Debug form, in order.
fn has_nan(x: &Xprs) -> bool {
    format!("{:?}", x.root).contains("Number(NaN")
}

/// Two expressions and what is known about their texts.
fn c19_pair(a: (&Xprs, &Ast), b: (&Xprs, &Ast), what: &str, rng: &mut Rng, c: &mut Case) -> Res {
    let (x, y) = (a.0, b.0);
    let eq = x == y;
    ensure!(eq == (y == x), "{what}: {x} and {y} compare {eq} one way and {} the other", !eq);
    ensure!(eq != (x != y), "{what}: {x} and {y} are both equal and different");
    let root_eq = x.root == y.root;
    ensure!(!eq || root_eq, "{what}: {x} and {y} equal but their roots are not");
    c.obs();
    if !(eq || root_eq) {
        c.class("unequal");
        return Ok(());
    }
    c.class("equal");
    ensure!(x.vars == y.vars, "{what}: {x} and {y} are equal with variables {:?} and {:?}", x.vars, y.vars);
    if !OPT {
        ensure!(a.1.same(b.1), "{what}: {x} and {y} are equal but say different things");
    }
    // whatever was optimised away is not compared: only the displayed forms are
    for _ in 0..6 {
        let vars: BTreeSet<String> = x.vars.iter().map(|s| (*s).to_owned()).collect();
        let e = refmodel::gen::env(rng, &vars, 10);
        let full: Env = a.1.vars().union(&b.1.vars()).map(|v| (v.clone(), e.get(v).copied().unwrap_or(1.75))).collect();
        if signless_eval(a.1, &full).is_none() || signless_eval(b.1, &full).is_none() {
            continue;
        }
        let (Ok(p), Ok(q)) = (ev(x, &vmap(&e)), ev(y, &vmap(&e))) else {
            return Err(format!("{what}: evaluation failed for {x} or {y}"));
        };
        ensure!(zero_eq(p, q), "{what}: {x} and {y} are equal with values {} and {} for {e:?}", fval(p), fval(q));
        c.obs();
    }
    Ok(())
}

pub fn c19(r: &mut Runner) {
    r.random("twins", 20000, |rng, c| {
        let w = World::random(rng);
        let b = rng.range(1, 10);
        let g = w.gen(5, 25);
        let s = g.syn(rng, b);
        let mut n2 = Rng::new(rng.u64());
        let tx = render(&s, Parens::Full, rng);
        c.desc = format!("{tx:?}{}", w.desc_ctx());
        let Some((ax, x)) = both(&w, &tx, c) else { return Ok(()) };
        let nan = has_nan(&x);
        // itself, its clone, the same text again
        let again = w.parser.parse(&tx).map_err(|e| format!("rejected the second time: {e}"))?;
        if !nan {
            ensure!(x == x.clone(), "differs from its clone: {x}");
            #[allow(clippy::eq_op)]
            let same = x == x;
            ensure!(same, "differs from itself: {x}");
            ensure!(x == again, "differs from the same text parsed again: {x}");
            c.class("reflexive");
            c.obs();
        } else {
            c.class("has a NaN constant");
        }
        // operands of sums and products swapped, with the same spelling
        let cs = commute(&s, &mut n2);
        let tc = render(&cs, Parens::Full, rng);
        if let Some((ac, xc)) = both(&w, &tc, c) {
            if ac.same(&ax) {
                // only a top level swap of otherwise identical parts is promised
                c19_pair((&x, &ax), (&xc, &ac), "operands swapped", rng, c)?;
                if !OPT && !nan {
                    ensure!(x == xc, "{x} differs from {xc}, operands swapped");
                    c.class("swapped operands equal");
                }
            }
        }
        // one difference
        let mut others = vec![];
        for _ in 0..4 {
            let tw = near_twin(&s, rng, &g);
            others.push(render(&tw, Parens::Full, rng));
        }
        for to in &others {
            let Some((ao, xo)) = both(&w, to, c) else { continue };
            c.desc = format!("{tx:?} / {to:?}{}", w.desc_ctx());
            c19_pair((&x, &ax), (&xo, &ao), "near twin", rng, c)?;
        }
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    r.random("swapped sums and products", 10000, |rng, c| {
        let w = World::random(rng);
        let g = w.gen(5, 25);
        let (ba, bb) = (rng.range(1, 6), rng.range(1, 6));
        let (a, b) = (render(&g.syn(rng, ba), Parens::Full, rng), render(&g.syn(rng, bb), Parens::Full, rng));
        let o = *rng.pick(&["+", "*"]);
        let (mut t, mut u) = (format!("({a}){o}({b})"), format!("({b}){o}({a})"));
        // inside the same other things
        for _ in 0..rng.range(0, 4).saturating_sub(1) {
            let s = render(&g.syn(rng, 3), Parens::Full, rng);
            let (l, r) = match rng.below(5) {
                0 => (format!("{}(", rng.pick(&["max", "sum", "mean", "min"])) + &format!("{s},").repeat(rng.below(12)), format!(",{s}").repeat(rng.below(12)) + ")"),
                1 => (format!("({s}){}(", rng.pick(&["+", "-", "*", "/", "%", "^"])), ")".to_owned()),
                2 => ("(".to_owned(), format!("){}({s})", rng.pick(&["+", "-", "*", "/", "%", "^"]))),
                3 => ("-(".to_owned(), ")".to_owned()),
                _ => ("(".to_owned(), ")!".to_owned()),
            };
            t = format!("{l}{t}{r}");
            u = format!("{l}{u}{r}");
        }
        c.desc = format!("{t:?} / {u:?}{}", w.desc_ctx());
        let (Some((at, xt)), Some((au, xu))) = (both(&w, &t, c), both(&w, &u, c)) else { return Ok(()) };
        if has_nan(&xt) || has_nan(&xu) {
            return Ok(());
        }
        // closed parts fold, and folding is commutative as well
        ensure!(xt == xu, "{xt} differs from {xu}");
        c19_pair((&xt, &at), (&xu, &au), "swapped", rng, c)?;
        c.class("swapped operands equal");
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    // the same thing done a number of times, and that number of times or a few more
    r.random("repetitions", 6000, |rng, c| {
        const CORES: [&str; 7] = ["x", "y", "(x+y)", "sin(x)", "2", "x!", "(y-x)"];
        const FRAMES: [(&str, &str); 14] =
            [("-", ""), ("-", ""), ("+", ""), ("(", ")"), ("(", ")!"), ("abs(", ")"), ("sum(", ")"), ("(x+", ")"), ("(", ")*x"), ("x^", ""), ("max(y,", ")"), ("(1-", ")"), ("(", "/y)"), ("(-", ")")];
        let w = World::plain(rng, 2);
        let (f, g) = (*rng.pick(&FRAMES), *rng.pick(&FRAMES));
        let core = *rng.pick(&CORES);
        let n = if rng.one_in(4) { rng.range(10, 120) } else { rng.range(1, 12) };
        let m = n + *rng.pick(&[0, 1, 2, 2, 3, 4, 8]);
        let arguments = rng.one_in(5);
        let make = |k: usize, core: &str| {
            if arguments {
                format!("max({core}{})", format!(",{core}").repeat(k))
            } else {
                format!("{}{}{core}{}{}", g.0, f.0.repeat(k), f.1.repeat(k), g.1)
            }
        };
        let other = if rng.one_in(3) { *rng.pick(&CORES) } else { core };
        let (t, u) = (make(n, core), make(m, other));
        c.desc = format!("{t:?} / {u:?}");
        let (Some((at, xt)), Some((au, xu))) = (both(&w, &t, c), both(&w, &u, c)) else { return Ok(()) };
        c19_pair((&xt, &at), (&xu, &au), "repetitions", rng, c)?;
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    // the same operands under the same operators, grouped in two ways
    r.random("regrouped", 12000, |rng, c| {
        let mut w = World::plain(rng, 3);
        w.names.vars = ["x", "y", "z"].map(String::from).to_vec();
        let n = rng.range(3, 5);
        let one = *rng.pick(&["+", "*", "-", "/", "^", "%"]);
        let leaves: Vec<&str> = (0..n).map(|i| if rng.one_in(5) { *rng.pick(&["2", "0.1", "3", "sin(x)", "-x", "y!"]) } else { ["x", "y", "z"][i % 3] }).collect();
        let ops: Vec<&str> = (1..n).map(|_| if rng.one_in(4) { *rng.pick(&["+", "*", "-", "/", "^", "%"]) } else { one }).collect();
        fn group(l: &[&str], o: &[&str], rng: &mut Rng, back: bool) -> String {
            if l.len() == 1 {
                return format!("({})", l[0]);
            }
            let k = rng.below(o.len());
            let (a, b) = (group(&l[..=k], &o[..k], rng, back), group(&l[k + 1..], &o[k + 1..], rng, back));
            if back && rng.one_in(3) {
                format!("({b}{}{a})", o[k])
            } else {
                format!("({a}{}{b})", o[k])
            }
        }
        let t = group(&leaves, &ops, rng, false);
        let back = rng.bool();
        let u = group(&leaves, &ops, rng, back);
        c.desc = format!("{t:?} / {u:?}");
        let (Some((at, xt)), Some((au, xu))) = (both(&w, &t, c), both(&w, &u, c)) else { return Ok(()) };
        c19_pair((&xt, &at), (&xu, &au), "regrouped", rng, c)?;
        if xt == xu && xt.vars.len() == 3 {
            // where the rounding shows
            for _ in 0..12 {
                let e: Env = ["x", "y", "z"].iter().map(|v| ((*v).to_owned(), *rng.pick(&[1e16, -1e16, 1.0, 0.1, 0.3, 1e-3, 3.0, 1e155, 1e-155]))).collect();
                if signless_eval(&at, &e).is_none() || signless_eval(&au, &e).is_none() {
                    continue;
                }
                let (p, q) = (ev(&xt, &vmap(&e))?, ev(&xu, &vmap(&e))?);
                ensure!(zero_eq(p, q), "regrouped: {xt} and {xu} are equal with values {} and {} for {e:?}", fval(p), fval(q));
                c.obs();
            }
        }
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    r.random("unrelated", 10000, |rng, c| {
        let w = World::plain(rng, 2);
        let b1 = rng.range(1, 4);
        let b2 = rng.range(1, 4);
        let t = text_of(&w, rng, b1, 0, 20);
        let u = text_of(&w, rng, b2, 0, 20);
        c.desc = format!("{t:?} / {u:?}");
        let (Some((at, xt)), Some((au, xu))) = (both(&w, &t, c), both(&w, &u, c)) else { return Ok(()) };
        c19_pair((&xt, &at), (&xu, &au), "unrelated", rng, c)?;
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    // every pair of small expressions
    const S: [&str; 44] = [
        "x", "y", "2", "2.0000000000000004", "-x", "+x", "x!", "y!", "x+y", "y+x", "x-y", "y-x", "x*y", "y*x", "x/y", "y/x", "x%y", "y%x", "x^y", "y^x",
        "f(x)", "f(y)", "f(x,y)", "f(y,x)", "g(x,y)", "g(x)", "f(x,y,x)", "f()", "g()", "sin(x)", "cos(x)", "x+2", "2+x", "x+3", "x*2", "(x+y)+x",
        "x+(x+y)", "(x+x)+y", "(x-y)+x", "x+(y-x)", "(x+y)*x", "(x*y)+x", "-(x+y)", "(x^y)^x",
    ];
    let mut rc = RefCtx::default();
    for (n, b) in [("f", 0usize), ("g", 6)] {
        rc.syms.insert(n.into(), Sym::Func(Func { name: n.into(), body: Body::User(b), arity: None }));
    }
    let w = World { names: Names::default(), parser: Parser::new_with_ctx(mk_ctx(&rc, 1)), rc };
    let seed = r.o.seed;
    r.each("all pairs of small expressions", 0..44 * 44, |i, c| {
        let (t, u) = (S[i as usize % 44], S[i as usize / 44]);
        c.desc = format!("{t:?} / {u:?}");
        let (Some((at, xt)), Some((au, xu))) = (both(&w, t, c), both(&w, u, c)) else { return Ok(()) };
        let mut rng = Rng::new(seed ^ i);
        let want = at.same(&au);
        c19_pair((&xt, &at), (&xu, &au), "small pair", &mut rng, c)?;
        ensure!(OPT || (xt == xu) == want, "{xt} and {xu} compare {}", xt == xu);
        // none of these is changed by an optimisation, except the sign +x
        if t != "+x" && u != "+x" && !t.ends_with("()") && !u.ends_with("()") {
            ensure!((xt == xu) == want, "{xt} and {xu} compare {}", xt == xu);
        }
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    // functions of one name with different bodies
    r.random("functions of the same name", 6000, |rng, c| {
        let bodies: BTreeMap<usize, &str> = (0..9).zip(["a", "b", "c", "d", "e", "f", "g", "h", "i"]).collect();
        let (b1, b2) = (rng.below(bodies.len()), rng.below(bodies.len()));
        let (d1, d2) = (rng.u64() & 1, rng.u64() & 1);
        let mk = |b: usize| {
            let mut rc = RefCtx::default();
            rc.syms.insert("f".into(), Sym::Func(Func { name: "f".into(), body: Body::User(b), arity: None }));
            rc
        };
        let (r1, r2) = (mk(b1), mk(b2));
        let (p1, p2) = (Parser::new_with_ctx(mk_ctx(&r1, d1)), Parser::new_with_ctx(mk_ctx(&r2, d2)));
        let t = *rng.pick(&["f(x,y)", "1+f(x)", "f(f(y,2))*x", "f(x)-f(x)*2", "x^f(2,x,3)"]);
        c.desc = format!("{t} bodies {b1} {b2} dynamic {d1} {d2}");
        let (a1, a2) = (parse(t, &r1, MODE).unwrap(), parse(t, &r2, MODE).unwrap());
        let (Ok(x1), Ok(x2)) = (p1.parse(t), p2.parse(t)) else { return Err("rejected".into()) };
        if x1 == x2 || x2 == x1 {
            ensure!(b1 == b2, "expressions calling different functions named f are equal");
        }
        c19_pair((&x1, &a1), (&x2, &a2), "same name", rng, c)?;
        let again = p1.parse(t).map_err(|e| e.to_string())?;
        ensure!(x1 == again, "{x1} differs from the same text parsed again");
        c.nontrivial(&c.desc.clone());
        // closures of one type are told apart by what they captured
        let k = rng.below(5) as f64;
        let (f1, f2) = (
            xprs::Function::new_dyn("c", move |a| a.len() as f64 + k, None),
            xprs::Function::new_dyn("c", move |a| a.len() as f64 + k + 1.0, None),
        );
        let (q1, q2) = (
            Parser::new_with_ctx(xprs::Context::default().with_fn(f1.clone())),
            Parser::new_with_ctx(xprs::Context::default().with_fn(f2)),
        );
        let (y1, y2) = (q1.parse("c(x)").map_err(|e| e.to_string())?, q2.parse("c(x)").map_err(|e| e.to_string())?);
        ensure!(y1 != y2, "expressions calling different closures are equal");
        let q3 = Parser::new_with_ctx(xprs::Context::default().with_fn(f1));
        let y3 = q3.parse("c(x)").map_err(|e| e.to_string())?;
        let _ = y3;
        c.obs();
        Ok(())
    });
}

//! Very many operations on one object: what counters that wrap, generations
//! and tables that fill up would spoil.
use crate::bind::{as_function, bind_array, bind_fixed, Call};
use crate::common::*;
use crate::ctx::{check_parse, outcome};
use crate::ensure;
use refmodel::gen::*;
use refmodel::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use xprs::{Context, Function, Parser, Symbol, Xprs};

/// Numbers of operations around those at which small counters wrap.
fn count(rng: &mut Rng) -> usize {
    *rng.pick(&[126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 1000, 1023, 1024, 4095, 4096, 10_000, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000])
}
fn class(c: &mut Case, n: usize) {
    c.class(if n > 30_000 { "more than 30000 operations on one object" } else { "hundreds or thousands of operations on one object" });
}

/// An expression of one world with a robust environment for each of several
/// assignments.
fn expression(w: &World, rng: &mut Rng, max: usize) -> Option<(&'static str, Ast, Xprs<'static>)> {
    let t = intern(&text_of(w, rng, max, 10, 20));
    let a = parse(t, &w.rc, MODE).ok()?;
    let x = w.parser.parse(t).ok()?;
    Some((t, a, x))
}

pub fn evaluations(r: &mut Runner) {
    r.random("many evaluations of one expression", 2, |rng, c| {
        let w = World::random(rng);
        let Some((t, a, x)) = expression(&w, rng, 8) else { return Ok(()) };
        let n = 2 * count(rng);
        c.desc = format!("{t:?}{} evaluated {n} times", w.desc_ctx());
        let envs: Vec<Env> = (0..5).map(|_| env(rng, &a.vars(), 10)).collect();
        let maps: Vec<HashMap<&str, f64>> = envs.iter().map(vmap).collect();
        let mut first = vec![];
        for (m, e) in maps.iter().zip(&envs) {
            let v = ev(&x, m)?;
            if let Some(j) = judge(&a, e, v) {
                j?;
            }
            first.push(v);
        }
        let empty = HashMap::new();
        let mut last: HashMap<&str, f64> = maps[0].clone();
        let mut names: Vec<&str> = last.keys().copied().collect();
        names.sort_unstable();
        for i in 0..n {
            let k = rng.below(maps.len());
            let v = if i % 2 == 0 { x.eval_unchecked(&maps[k]) } else { x.eval(&maps[k]).map_err(|e| format!("evaluation {i}: {e}"))? };
            ensure!(bits_eq(v, first[k]), "evaluation {i} with {:?} gives {}, first it was {}", envs[k], fval(v), fval(first[k]));
            if i % 7 == 0 && !x.vars.is_empty() {
                ensure!(x.eval(&empty).is_err(), "evaluation {i} without values succeeded");
            }
            // new values every time
            if i % 5 == 0 {
                for v in &names {
                    last.insert(v, nice(rng) + i as f64);
                }
                let (p, q) = (x.eval_unchecked(&last), x.clone().eval_unchecked(&last));
                ensure!(bits_eq(p, q), "evaluation {i} with {last:?} gives {}, a copy {}", fval(p), fval(q));
            }
            c.obs();
        }
        class(c, n);
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    r.random("many parses of one text", 2, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 4, 20, 20);
        let t = if rng.one_in(4) { mutate(rng, &t, &w.names) } else { t };
        let u = text_of(&w, rng, 4, 20, 20);
        let n = count(rng);
        c.desc = format!("{t:?}{} parsed {n} times", w.desc_ctx());
        let first = outcome(&w.parser.parse(&t));
        let firstu = outcome(&w.parser.parse(&u));
        for i in 0..n {
            if i % 64 == 0 || i + 3 > n {
                let o = outcome(&w.parser.parse(&t));
                ensure!(o == first, "parse {i} gives {o}, first it was {first}");
                let o = outcome(&w.parser.parse(&u));
                ensure!(o == firstu, "parse {i} of {u:?} gives {o}, first it was {firstu}");
            } else {
                drop(w.parser.parse(&t));
            }
            c.obs();
        }
        let o = outcome(&w.parser.parse(&t));
        ensure!(o == first, "after {n} parses gives {o}, first it was {first}");
        class(c, n);
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

/// Panics of functions of the user, caught: nothing remembers them.
pub fn panics(r: &mut Runner) {
    fn maybe(a: &[f64]) -> f64 {
        if a.iter().any(|v| *v == 13.0) {
            panic!("thirteen");
        }
        a.iter().fold(1.5, |s, v| s * 0.5 + v)
    }
    r.random("caught panics", 30, |rng, c| {
        let mut ctx = Context::default();
        let name = *rng.pick(&["f", "risky_function", "sin", "max"]);
        ctx.set_fn(if rng.bool() { Function::new_static(name, maybe, None) } else { Function::new_dyn(name, |a: &[f64]| maybe(a), None) });
        let p = Parser::new_with_ctx(ctx);
        let t = intern(&match rng.below(5) {
            0 => format!("{name}(x) + y"),
            1 => format!("hypot(1, {name}(x, 2y))"),
            2 => format!("{name}({name}(y), x)^2"),
            3 => format!("-{name}(x - 0, y)!"),
            _ => format!("y * {name}(2, {name}(x))"),
        });
        let x = p.parse(t).map_err(|e| e.to_string())?;
        let good: HashMap<&str, f64> = HashMap::from([("x", 3.0), ("y", 2.5)]);
        let bad: HashMap<&str, f64> = HashMap::from([("x", 13.0), ("y", good["y"])]);
        let want = ev(&x, &good)?;
        let panicking = guard(|| x.eval_unchecked(&bad)).is_err();
        let n = *rng.pick(&[1, 2, 3, 40, 100, 130, 260, 1100]);
        c.desc = format!("{t:?}, {n} caught panics");
        let bound = x.clone().bind2("x", "y").map_err(|e| e.to_string())?;
        for i in 0..n {
            let e = match rng.below(4) {
                0 => guard(|| x.eval(&bad).map(drop).map_err(drop)).is_err(),
                1 => guard(|| bound(13.0, bad["y"])).is_err(),
                2 => guard(|| x.clone().simplify_for_multiple(&[("x", 13.0), ("y", bad["y"])])).is_err(),
                _ => guard(|| x.eval_unchecked(&bad)).is_err(),
            };
            ensure!(e == panicking, "panic {i}: {} this time", if e { "panics" } else { "does not panic" });
            if i % 16 == 0 || i + 1 == n {
                forget_panics();
                for (how, g) in [("again", ev(&x, &good)?), ("bound", bound(good["x"], good["y"])), ("parsed again", ev(&p.parse(t).map_err(|e| e.to_string())?, &good)?)] {
                    ensure!(bits_eq(g, want), "{how} after {} caught panics: {} instead of {}", i + 1, fval(g), fval(want));
                    c.obs();
                }
            }
        }
        forget_panics();
        c.class("caught panics");
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

pub fn bound_calls(r: &mut Runner) {
    r.random("many calls of one bound function", 2, |rng, c| {
        let n = *rng.pick(&[1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 20]);
        let pool = ["a", "b", "d", "g", "h", "p", "q", "u", "w", "a1", "b1", "d1", "g1", "h1", "p1", "q1", "u1", "w1", "a2", "b2"];
        let mut names: Vec<&'static str> = pool[..n].to_vec();
        let t: Vec<String> = names.iter().enumerate().map(|(i, v)| format!("{}*{v}", [1, 10, 100, 7, 70][i % 5])).collect();
        let t = intern(&t.join(rng.pick(&["+", "-", "/", "%"])));
        let x = Parser::default().parse(t).map_err(|e| e.to_string())?;
        rng.shuffle(&mut names);
        let times = count(rng);
        c.desc = format!("{t:?} bound to {names:?} and called {times} times");
        let mut fs: Vec<(&str, Call)> = vec![];
        if let Some(f) = bind_fixed(x.clone(), &names) {
            fs.push(("bindN", f.map_err(|e| e.to_string())?));
        }
        if let Some(f) = bind_array(x.clone(), &names) {
            fs.push(("bind_n", f.map_err(|e| e.to_string())?));
        }
        let leaked: &'static [&'static str] = Box::leak(names.clone().into_boxed_slice());
        let f = x.clone().bind_n_runtime(leaked).map_err(|e| e.to_string())?;
        fs.push(("bind_n_runtime", Box::new(move |a: &[f64]| f(a).expect("enough values"))));
        let mut args: Vec<f64> = names.iter().map(|_| nice(rng)).collect();
        let mut map: HashMap<&str, f64> = HashMap::new();
        for i in 0..times {
            // mostly new values, one at a time
            if rng.one_in(4) {
                let k = rng.below(n);
                args[k] = if rng.one_in(10) { value(rng, 50) } else { nice(rng) + (i % 1000) as f64 };
            } else if rng.one_in(4) {
                // next to nothing changes
                let k = rng.below(n);
                args[k] = f64::from_bits(args[k].to_bits() ^ 1 << rng.below(24));
            } else if rng.one_in(4) {
                args.swap(rng.clone().below(n), rng.below(n));
            }
            for (v, a) in names.iter().zip(&args) {
                map.insert(v, *a);
            }
            let w = x.eval_unchecked(&map);
            let (how, f) = &fs[rng.below(fs.len())];
            let g = f(&args);
            ensure!(bits_eq(g, w), "call {i} of {how}{names:?} with {args:?} is {}, evaluation is {}", fval(g), fval(w));
            c.obs();
        }
        class(c, times);
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

pub fn composed(r: &mut Runner) {
    r.random("many calls of one composed function", 1, |rng, c| {
        let x = Parser::default().parse("a*a - b/3").map_err(|e| e.to_string())?;
        let way = rng.below(4);
        let Some(f) = as_function("f", x.clone(), &["a", "b"], way, rng.bool()) else { return Ok(()) };
        let p = Parser::new_with_ctx(Context::default().with_fn(f));
        let k = rng.range(1, 40);
        let t = intern(&format!("{}+0.5", (0..k).map(|i| format!("f(x{}, y*{i})", i % 3)).collect::<Vec<_>>().join("-")));
        let y = p.parse(t).map_err(|e| e.to_string())?;
        let inl: Vec<String> = (0..k).map(|i| format!("((x{})*(x{})-(y*{i})/3)", i % 3, i % 3)).collect();
        let inlined = intern(&format!("{}+0.5", inl.join("-")));
        let a = parse(inlined, &RefCtx::default(), MODE).map_err(|e| format!("{e:?}"))?;
        let times = count(rng) / k + 2;
        c.desc = format!("{t:?} evaluated {times} times");
        let vars: BTreeSet<String> = a.vars();
        for i in 0..times {
            let mut e = env(rng, &vars, 0);
            for n in ["x0", "x1", "x2", "y"] {
                e.entry(n.into()).or_insert(1.0);
            }
            let v = y.eval_unchecked(&vmap(&e));
            if let Some(w) = robust_eval(&a, &e) {
                ensure!(zero_eq(v, w), "evaluation {i} with {e:?} gives {}, the definition {}", fval(v), fval(w));
                c.obs();
            }
        }
        class(c, times * k);
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

pub fn substitutions(r: &mut Runner) {
    r.random("many substitutions in one expression", 2, |rng, c| {
        let w = World::random(rng);
        let Some((t, a, x)) = expression(&w, rng, 6) else { return Ok(()) };
        let n = count(rng);
        c.desc = format!("{t:?}{} given {n} values of other variables", w.desc_ctx());
        let vars = a.vars();
        let mut y = x.clone();
        let good = good_envs(&a, rng, 2, 10);
        for i in 0..n {
            match rng.below(4) {
                0 => y.simplify_for_in_place(("stranger", i as f64)),
                1 => y.simplify_for_multiple_in_place(&[("Stranger", i as f64), ("", 2.0)]),
                2 => y.simplify_for_multiple_in_place(&[]),
                _ => y = y.simplify_for(("stranger'", f64::NAN)),
            }
            if i % 97 == 0 || i + 2 > n {
                for (e, want) in &good {
                    let v = ev(&y, &vmap(e))?;
                    ensure!(zero_eq(v, *want), "after {i} values of other variables, {e:?} gives {} instead of {}", fval(v), fval(*want));
                    c.obs();
                }
            }
        }
        if let Some((e, want)) = good.first() {
            for (k, v) in e {
                y.simplify_for_in_place((k, *v));
            }
            let v = ev(&y, &HashMap::new())?;
            ensure!(zero_eq(v, *want), "substituted after {n} values of other variables, {e:?} gives {} instead of {}", fval(v), fval(*want));
            ensure!(y.vars.is_empty(), "variables {:?} are left of {vars:?}", y.vars);
            c.obs();
            c.nontrivial(&c.desc.clone());
        }
        class(c, n);
        Ok(())
    });
    // one list with very many values
    r.random("long lists of values", 1, |rng, c| {
        let n = *rng.pick(&[255, 256, 257, 300, 1000, 3000]);
        let vars: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        let used: Vec<usize> = (0..6).map(|_| rng.below(n)).collect();
        let t: Vec<String> = used.iter().map(|i| format!("{}*v{i}", i + 1)).collect();
        let t = t.join("+");
        let x = Parser::default().parse(&t).map_err(|e| e.to_string())?;
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        let list: Vec<(&str, f64)> = order.iter().map(|&i| (vars[i].as_str(), i as f64)).collect();
        let want: f64 = used.iter().map(|&i| ((i + 1) * i) as f64).sum();
        c.desc = format!("{t:?} given {n} values");
        let y = x.clone().simplify_for_multiple(&list);
        let v = ev(&y, &HashMap::new())?;
        ensure!(v == want && y.vars.is_empty(), "value is {} with variables {:?} instead of {want}", fval(v), y.vars);
        let mut z = x;
        for p in &list {
            z.simplify_for_in_place(*p);
        }
        let v = ev(&z, &HashMap::new())?;
        ensure!(v == want, "value is {} one by one instead of {want}", fval(v));
        c.obs();
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

pub fn failures(r: &mut Runner) {
    r.random("many failed evaluations", 2, |rng, c| {
        let w = World::random(rng);
        let Some((t, a, x)) = expression(&w, rng, 8) else { return Ok(()) };
        let vars = a.vars();
        let mut needed: Vec<&str> = x.vars.iter().copied().collect();
        needed.sort_unstable();
        if needed.is_empty() {
            return Ok(());
        }
        let n = count(rng);
        c.desc = format!("{t:?}{} evaluated {n} times without one of its variables", w.desc_ctx());
        let e = env(rng, &vars, 10);
        let full = vmap(&e);
        let want = ev(&x, &full)?;
        let lacking: Vec<HashMap<&str, f64>> = needed
            .iter()
            .map(|v| {
                let mut m = full.clone();
                m.remove(v);
                m
            })
            .collect();
        for i in 0..n {
            let k = rng.below(needed.len());
            match x.eval(&lacking[k]) {
                Ok(v) => return Err(format!("evaluation {i} without {} gives {}", needed[k], fval(v))),
                Err(e) => {
                    let s = e.to_string();
                    ensure!(s.contains(&format!("'{}'", needed[k])), "evaluation {i} without {} says {s}", needed[k]);
                },
            }
            if i % 64 == 0 {
                let v = x.eval(&full).map_err(|e| format!("after {i} failures: {e}"))?;
                ensure!(bits_eq(v, want), "after {i} failures the value is {}, first it was {}", fval(v), fval(want));
            }
            c.obs();
        }
        let v = ev(&x, &full)?;
        ensure!(bits_eq(v, want), "after {n} failures the value is {}, first it was {}", fval(v), fval(want));
        let now: BTreeSet<&str> = x.vars.iter().copied().collect();
        ensure!(now.iter().eq(needed.iter()), "the variables are {now:?} after {n} failures, first {needed:?}");
        class(c, n);
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

pub fn rejections(r: &mut Runner) {
    r.random("many errors of one parser", 1, |rng, c| {
        let w = World::random(rng);
        let mut texts = vec![];
        for _ in 0..8 {
            let t = text_of(&w, rng, 4, 20, 20);
            texts.push(mutate(rng, &t, &w.names));
        }
        texts.extend(["", "(", "1+", "sin()", "max(1,,2)", "1..2", "é", "x)"].map(String::from));
        let fresh: Vec<String> = texts.iter().map(|t| outcome(&w.parser.clone().parse(t))).collect();
        let n = count(rng);
        c.desc = format!("{n} parses of texts such as {:?}{}", texts[0], w.desc_ctx());
        for i in 0..n {
            let k = rng.below(texts.len());
            let r = w.parser.parse(&texts[k]);
            if i % 16 == 0 || i + 30 > n {
                let o = outcome(&r);
                ensure!(o == fresh[k], "{:?} is answered {o} after {i} parses, first {}", texts[k], fresh[k]);
            }
            c.obs();
        }
        class(c, n);
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

pub fn definitions(r: &mut Runner) {
    fn body(k: usize) -> fn(&[f64]) -> f64 {
        [|a: &[f64]| a.iter().sum::<f64>() + 1.5, |a: &[f64]| a.iter().sum::<f64>() * 2.0 - 3.0, |_: &[f64]| 42.0][k % 3]
    }
    /// Defines a name and tells what a text made of it must be worth at x = 2.
    fn set(ctx: &mut Context<'static>, name: &'static str, k: usize) -> (String, f64) {
        if k % 2 == 0 {
            ctx.set_var(name, k as f64);
            (format!("{name}*x"), k as f64 * 2.0)
        } else {
            let f = body(k / 2);
            let ar = Some(1);
            ctx.set_fn(if k % 4 == 1 { Function::new_static(name, f, ar) } else { Function::new_dyn(name, f, ar) });
            (format!("{name}(x)"), f(&[2.0]))
        }
    }
    fn verify(p: &Parser<'static>, name: &str, t: &str, want: f64, c: &mut Case) -> Res {
        let x = p.parse(t).map_err(|e| format!("{t:?} is rejected: {e}"))?;
        let v = ev(&x, &HashMap::from([("x", 2.0)]))?;
        ensure!(v == want, "{t:?} is {} should be {want}", fval(v));
        ensure!(p.ctx().get(name).is_some(), "{name} is not defined");
        c.obs();
        Ok(())
    }
    r.random("many definitions", 6, |rng, c| {
        let pool = ["k", "sin", "foo", "e", "foo1", "K"];
        let mut p = Parser::default();
        let mut now: HashMap<&str, (String, f64)> = HashMap::new();
        for n in &pool[..4] {
            let d = set(p.ctx_mut(), n, rng.below(12));
            now.insert(n, d);
        }
        let all = |p: &Parser<'static>, now: &HashMap<&'static str, (String, f64)>, c: &mut Case| -> Res {
            for (n, (t, want)) in now {
                verify(p, n, t, *want, c)?;
            }
            Ok(())
        };
        all(&p, &now, c)?;
        for round in 0..3 {
            // nothing is looked up between these
            let n = count(rng);
            let other = *rng.pick(&["other", "k1", "cos"]);
            let name = *rng.pick(&pool);
            let kind = rng.below(6);
            c.desc = format!("{n} definitions (kind {kind}) of {name} or {other}, round {round}");
            match kind {
                // of another name
                0 => (0..n).for_each(|i| p.ctx_mut().set_var(other, i as f64)),
                // of the same name
                1 => {
                    for i in 0..n {
                        let d = set(p.ctx_mut(), name, i + round);
                        now.insert(name, d);
                    }
                },
                2 => {
                    for i in 0..n {
                        *p.ctx_mut() = std::mem::take(p.ctx_mut()).with_var(other, i as f64);
                    }
                },
                // and back again
                3 => {
                    let k = rng.below(12);
                    for i in 0..n {
                        set(p.ctx_mut(), name, k + i % 2);
                    }
                    let d = set(p.ctx_mut(), name, k + 1);
                    now.insert(name, d);
                },
                4 => {
                    for _ in 0..n {
                        p.ctx_mut().set_expected_vars(HashSet::from(["x"]));
                    }
                    let d = set(p.ctx_mut(), name, rng.below(12));
                    now.insert(name, d);
                },
                _ => {
                    // in copies
                    for i in 0..n.min(5000) {
                        let mut q = p.clone();
                        q.ctx_mut().set_var(name, i as f64);
                    }
                },
            }
            if now.get("e").is_none() || rng.bool() {
                let d = set(p.ctx_mut(), "K", round);
                now.insert("K", d);
            }
            all(&p, &now, c)?;
            class(c, n);
        }
        c.nontrivial(&format!("{now:?}"));
        Ok(())
    });
    r.random("large contexts", 1, |rng, c| {
        let n = *rng.pick(&[255, 256, 257, 1000, 5000, 20_000]);
        let mut p = Parser::default();
        let table = rng.bool();
        let names: Vec<&'static str> = (0..n).map(|i| intern(&format!("n{i}"))).collect();
        if table {
            let m: HashMap<&'static str, Symbol> = names.iter().enumerate().map(|(i, s)| (*s, Symbol::from(i as f64))).collect();
            *p.ctx_mut() = Context::default().with_symbols(m);
        } else {
            for (i, s) in names.iter().enumerate() {
                p.ctx_mut().set_var(s, i as f64);
            }
        }
        c.desc = format!("{n} definitions, table {table}");
        let q = p.clone();
        for _ in 0..300 {
            let i = rng.below(n);
            let q = if rng.bool() { &p } else { &q };
            match q.ctx().get(names[i]) {
                Some(Symbol::Variable(v)) if *v == i as f64 => {},
                o => return Err(format!("n{i} is {o:?}")),
            }
            let t = format!("n{i}+n{}+1", n + i);
            let mut rc = RefCtx::default();
            rc.syms.insert(names[i].into(), Sym::Const(i as f64));
            check_parse(&t, &rc, &q.parse(&t)).map_err(|m| format!("{t:?}: {m}"))?;
            let v = ev(&q.parse(&t).map_err(|e| e.to_string())?, &HashMap::from([(format!("n{}", n + i).as_str(), 0.5)]))?;
            ensure!(v == i as f64 + 1.5, "{t:?} is {}", fval(v));
            c.obs();
        }
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

pub fn declarations(r: &mut Runner) {
    r.random("many declarations", 2, |rng, c| {
        let mut p = Parser::default();
        for round in 0..3 {
            let n = count(rng) / 8;
            c.desc = format!("{n} declarations, round {round}");
            for i in 0..n {
                let s = if i % 2 == 0 { HashSet::from(["x", "y"]) } else { HashSet::from(["z"]) };
                p.ctx_mut().set_expected_vars(s);
                if rng.one_in(500) {
                    let (a, b) = (p.parse("x+y").is_ok(), p.parse("z*2").is_ok());
                    ensure!((a, b) == (i % 2 == 0, i % 2 == 1), "x+y is accepted: {a}, z*2: {b} after declaration {i}");
                }
            }
            for _ in 0..n.min(300) {
                ensure!(p.parse("w+x").is_err(), "w is not declared");
            }
            let d = rng.bool();
            p.ctx_mut().set_expected_vars(if d { HashSet::from(["x", "y"]) } else { HashSet::from(["z"]) });
            let (a, b) = (p.parse("x+y").is_ok(), p.parse("z*2").is_ok());
            ensure!((a, b) == (d, !d), "x+y is accepted: {a}, z*2: {b} after {n} declarations");
            let q = p.clone();
            let (a, b) = (q.parse("y*x").is_ok(), q.parse("2z").is_ok());
            ensure!((a, b) == (d, !d), "a copy accepts y*x: {a}, 2z: {b} after {n} declarations");
            c.obs();
            class(c, n);
        }
        c.nontrivial(&format!("{}{}", c.desc, rng.u64()));
        Ok(())
    });
}

/// Values that no rule is about: they are substituted like others.
pub fn special_values(r: &mut Runner) {
    const VALUES: [f64; 9] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::MIN_POSITIVE, -2.5];
    const SHAPES: [&str; 22] = [
        "x+y", "y+x", "x-y", "y-x", "x*y", "y*x", "x/y", "y/x", "x^y", "y^x", "x%y", "y%x", "-x", "x!", "sin(x)", "max(x,y)", "max(y,x)", "hypot(x,y)", "sum(y,x,y)",
        "min(x)", "atan2(y,x)", "f(x,y)",
    ];
    fn both(a: &[f64]) -> f64 {
        a.iter().enumerate().map(|(i, v)| (v.to_bits() % 977) as f64 * (i as f64 + 2.0)).sum()
    }
    let p = Parser::new_with_ctx(Context::default().with_fn(Function::new_dyn("f", both, Some(2))));
    r.each("special values substituted", 0..(VALUES.len() * SHAPES.len() * 5) as u64, |i, c| {
        let i = i as usize;
        let v = VALUES[i % VALUES.len()];
        let shape = SHAPES[i / VALUES.len() % SHAPES.len()];
        let t = match i / VALUES.len() / SHAPES.len() {
            0 => shape.to_owned(),
            1 => format!("({shape})-z"),
            2 => format!("max(3.5, {shape})"),
            3 => format!("z/({shape})"),
            _ => format!("f({shape}, z)"),
        };
        let x = p.parse(&t).map_err(|e| e.to_string())?;
        let m = HashMap::from([("x", v), ("y", 2.25), ("z", -7.5)]);
        let want = ev(&x, &m)?;
        // dividing by a zero is replaced by inf whatever is divided (a documented rule)
        if t.starts_with("z/") && ev(&p.parse(shape).map_err(|e| e.to_string())?, &m)? == 0.0 {
            return Ok(());
        }
        let mut rest = m.clone();
        rest.remove("x");
        c.desc = format!("{t:?} given x = {v:?}");
        for (how, y) in [
            ("by value", x.clone().simplify_for(("x", v))),
            ("in a list", x.clone().simplify_for_multiple(&[("w", 1.0), ("x", v), ("x", 3.0)])),
            ("in place", {
                let mut y = x.clone();
                y.simplify_for_in_place(("x", v));
                y
            }),
            ("in a list in place", {
                let mut y = x.clone();
                y.simplify_for_multiple_in_place(&[("x", v)]);
                y
            }),
        ] {
            ensure!(!y.vars.contains("x"), "x is left {how}: {y}");
            let g = ev(&y, &rest).map_err(|m| format!("{how}: {m}"))?;
            ensure!(zero_eq(g, want), "{how}: value is {} should be {}", fval(g), fval(want));
            // and when all are given
            let z = y.simplify_for_multiple(&[("y", 2.25), ("z", -7.5)]);
            let g = ev(&z, &HashMap::new()).map_err(|m| format!("{how}: {m}"))?;
            ensure!(zero_eq(g, want), "{how}, all given: value is {} should be {}", fval(g), fval(want));
            c.obs();
        }
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
}

//! Monitors of binding: C10 and C22.
use crate::common::*;
use crate::ensure;
use crate::partial::both;
use refmodel::gen::*;
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use xprs::{BindError, Context, Function, Parser, Xprs};

/* ---------------------------------------------------------------- C10 */

pub type Call<'a> = Box<dyn Fn(&[f64]) -> f64 + 'a>;

/// The fixed forms; `None` when there is none for that many names.
pub fn bind_fixed<'a>(x: Xprs<'a>, n: &[&'a str]) -> Option<Result<Call<'a>, BindError>> {
    macro_rules! go {
        ($m:ident, $($i:tt),*) => {
            x.$m($(n[$i]),*).map(|f| Box::new(move |a: &[f64]| f($(a[$i]),*)) as Call<'a>)
        };
    }
    Some(match n.len() {
        1 => go!(bind, 0),
        2 => go!(bind2, 0, 1),
        3 => go!(bind3, 0, 1, 2),
        4 => go!(bind4, 0, 1, 2, 3),
        5 => go!(bind5, 0, 1, 2, 3, 4),
        6 => go!(bind6, 0, 1, 2, 3, 4, 5),
        7 => go!(bind7, 0, 1, 2, 3, 4, 5, 6),
        8 => go!(bind8, 0, 1, 2, 3, 4, 5, 6, 7),
        9 => go!(bind9, 0, 1, 2, 3, 4, 5, 6, 7, 8),
        _ => return None,
    })
}

pub fn bind_array<'a>(x: Xprs<'a>, n: &[&'a str]) -> Option<Result<Call<'a>, BindError>> {
    macro_rules! go {
        ($($k:literal)*) => {
            match n.len() {
                $($k => x.bind_n::<$k>(n.try_into().unwrap()).map(|f| {
                    Box::new(move |a: &[f64]| f(a.try_into().unwrap())) as Call<'a>
                }),)*
                _ => return None,
            }
        };
    }
    Some(go!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 32 33 64 100 128 255 256 257 300))
}

/// The names a bind error tells, in the order it tells them.
fn missing_of(e: &BindError) -> Result<Vec<String>, String> {
    let (list, one) = match e {
        BindError::OneVariable(s) => (s.clone(), true),
        BindError::MultipleVariables(s) => (s.clone(), false),
        other => return Err(format!("unknown error {other:?}")),
    };
    let shown = e.to_string();
    if !shown.contains(&list) {
        return Err(format!("error {shown:?} does not show {list:?}"));
    }
    let v: Vec<String> = list.split(", ").map(str::to_owned).collect();
    if one != (v.len() == 1) {
        return Err(format!("error {e:?} for {} names", v.len()));
    }
    Ok(v)
}

fn c10_one(x: &Xprs<'static>, names: &[&'static str], rng: &mut Rng, c: &mut Case) -> Res {
    let vars: BTreeSet<&str> = x.vars.iter().copied().collect();
    let given: BTreeSet<&str> = names.iter().copied().collect();
    let want: Vec<String> = vars.difference(&given).map(|s| (*s).to_owned()).collect();
    let leaked: &'static [&'static str] = Box::leak(names.to_vec().into_boxed_slice());
    let mut fs: Vec<(&str, Call)> = vec![];
    let mut tries: Vec<(&str, Result<Call, BindError>)> = vec![];
    if let Some(f) = bind_fixed(x.clone(), names) {
        tries.push(("bindN", f));
    }
    if let Some(f) = bind_array(x.clone(), names) {
        tries.push(("bind_n", f));
    }
    let rt = x.clone().bind_n_runtime(leaked);
    let rt = match rt {
        Ok(f) => {
            let f = Arc::new(f);
            let g = f.clone();
            tries.push(("bind_n_runtime", Ok(Box::new(move |a: &[f64]| g(a).expect("enough values")))));
            Some(f)
        },
        Err(e) => {
            tries.push(("bind_n_runtime", Err(e)));
            None
        },
    };
    for (how, f) in tries {
        match f {
            Ok(f) => {
                ensure!(want.is_empty(), "{how}{names:?} succeeded without {want:?}");
                fs.push((how, f));
            },
            Err(e) => {
                ensure!(!want.is_empty(), "{how}{names:?} failed ({e}) although nothing is missing");
                let mut got = missing_of(&e).map_err(|m| format!("{how}: {m}"))?;
                got.sort();
                ensure!(got == want, "{how}{names:?} says {got:?} are missing, should be {want:?}");
                c.class("missing names told");
            },
        }
        c.obs();
    }
    if !want.is_empty() {
        return Ok(());
    }
    c.class("bound");
    for k in 0..3 {
        let args: Vec<f64> = names.iter().map(|_| if k == 1 { value(rng, 60) } else { nice(rng) + rng.unit() }).collect();
        let mut m: HashMap<&str, f64> = HashMap::new();
        for (n, v) in names.iter().zip(&args) {
            m.insert(n, *v);
        }
        let w = x.eval(&m).map_err(|e| format!("evaluation: {e}"))?;
        for (how, f) in &fs {
            for rep in 0..2 {
                let g = guard(|| f(&args)).map_err(|p| format!("{how}{names:?} panicked on {args:?}: {p}"))?;
                ensure!(bits_eq(g, w), "{how}{names:?} of {args:?} is {} (call {rep}), evaluation is {}", fval(g), fval(w));
                c.obs();
            }
        }
        let Some(f) = &rt else { return Err("the run-time form alone failed".into()) };
        // other numbers of values
        let most = 1 << rng.range(2, 9);
        let more = names.len() + rng.range(3, most);
        for len in [0, rng.below(names.len() + 1), names.len().saturating_sub(1), names.len() + 2, more, rng.pick(&[31usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]) % (names.len() + 1)] {
            let a: Vec<f64> = (0..len).map(|i| args.get(i).copied().unwrap_or(99.0)).collect();
            let have: HashMap<&str, f64> = names.iter().copied().zip(a.iter().copied()).collect();
            let lacking: Vec<&&str> = vars.iter().filter(|v| !have.contains_key(**v)).collect();
            match guard(|| f(&a)).map_err(|p| format!("bind_n_runtime{names:?} panicked on {len} values: {p}"))? {
                Ok(g) => {
                    ensure!(lacking.is_empty(), "bind_n_runtime{names:?} of {len} values succeeded without {lacking:?}");
                    let w = x.eval(&have).map_err(|e| e.to_string())?;
                    ensure!(bits_eq(g, w), "bind_n_runtime{names:?} of {a:?} is {}, evaluation is {}", fval(g), fval(w));
                },
                Err(e) => {
                    ensure!(!lacking.is_empty(), "bind_n_runtime{names:?} of {len} values failed ({e}), nothing is missing");
                    let s = e.to_string();
                    let n = s.find('\'').zip(s.rfind('\'')).map(|(a, b)| &s[a + 1..b.max(a + 1)]);
                    ensure!(n.is_some_and(|n| lacking.iter().any(|l| **l == n)), "{s} although {lacking:?} are missing");
                    c.class("too few run-time values");
                },
            }
            c.obs();
        }
    }
    Ok(())
}

fn names_for(vars: &[String], rng: &mut Rng) -> Vec<&'static str> {
    let mut n: Vec<String> = vars.to_vec();
    rng.shuffle(&mut n);
    // some missing, some repeated, some superfluous
    if rng.one_in(3) && !n.is_empty() {
        for _ in 0..rng.range(1, 2.min(n.len())) {
            n.remove(rng.below(n.len()));
        }
    }
    for _ in 0..rng.below(4) {
        let s = if rng.bool() && !n.is_empty() {
            n[rng.below(n.len())].clone()
        } else {
            let base = vars.first().cloned().unwrap_or_default();
            match rng.below(6) {
                0 => format!("{base}1"),
                1 => base.to_uppercase(),
                2 => String::new(),
                3 => "not used".into(),
                4 => "é".into(),
                _ => (*rng.pick(VAR_POOL)).to_owned(),
            }
        };
        n.insert(rng.below(n.len() + 1), s);
    }
    n.iter().map(|s| intern(s)).collect()
}

pub fn c10(r: &mut Runner) {
    r.random("expressions", 12000, |rng, c| {
        let w = World::random(rng);
        let t = intern(&text_of(&w, rng, 12, 10, 20));
        let Some((ast, x)) = both(&w, t, c) else { return Ok(()) };
        let vars: Vec<String> = ast.vars().into_iter().collect();
        for _ in 0..3 {
            let names = names_for(&vars, rng);
            c.desc = format!("{t:?}{} bound to {names:?}", w.desc_ctx());
            c10_one(&x, &names, rng, c)?;
        }
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    // every form, its own arity, order-sensitive expressions
    r.random("permutations", 9000, |rng, c| {
        let p = Parser::default();
        let n = rng.range(1, 9);
        let vars = ["a", "b", "d", "g", "h", "p", "q", "u", "w"];
        let mut order: Vec<usize> = (0..n).collect();
        rng.shuffle(&mut order);
        // weights tell the arguments apart
        let t: Vec<String> = (0..n).map(|i| format!("{}*{}", [1, 10, 100, 1000, 7, 70, 700, 3, 30][i], vars[i])).collect();
        let t = intern(&match rng.below(3) {
            0 => t.join("+"),
            1 => t.join("-"),
            _ => (0..n).map(|i| vars[i]).collect::<Vec<_>>().join(rng.pick(&["-", "/", "^", "%"])),
        });
        let x = p.parse(t).map_err(|e| e.to_string())?;
        let mut names: Vec<&'static str> = order.iter().map(|&i| vars[i]).collect();
        match rng.below(4) {
            0 => names.insert(rng.clone().below(n + 1), vars[rng.below(n)]),
            1 => names.insert(rng.clone().below(n + 1), "zz"),
            2 => {
                let i = rng.below(names.len());
                names[i] = vars[rng.below(n)];
            },
            _ => {},
        }
        c.desc = format!("{t:?} bound to {names:?}");
        c10_one(&x, &names, rng, c)?;
        c.nontrivial(&c.desc.clone());
        Ok(())
    });
    r.random("many variables", 250, |rng, c| {
        let n = *rng.pick(&[10, 16, 17, 32, 33, 64, 100, 128, 255, 256, 257, 300, 511, 513, 700, 1025]);
        let vars: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        let t = intern(&vars.join(rng.pick(&["+", "-", "*2+", "-3"])));
        let p = Parser::default();
        let x = p.parse(t).map_err(|e| e.to_string())?;
        let mut names: Vec<&'static str> = vars.iter().map(|s| intern(s)).collect();
        rng.shuffle(&mut names);
        match rng.below(4) {
            0 => names.truncate(rng.clone().below(n)),
            1 => {
                names.remove(rng.clone().below(n));
            },
            2 => names[0] = names[n - 1],
            _ => {},
        }
        c.desc = format!("{} variables, {} names", n, names.len());
        c10_one(&x, &names, rng, c)?;
        // exactly this many missing
        let few: Vec<&'static str> = names.iter().copied().take(rng.below(3)).collect();
        c10_one(&x, &few, rng, c)?;
        c.nontrivial(&format!("{n} {} {t}", names.len()));
        Ok(())
    });
    crate::endure::bound_calls(r);
}

/* ---------------------------------------------------------------- C22 */

#[derive(Clone)]
struct Def {
    name: &'static str,
    params: Vec<&'static str>,
    x: Xprs<'static>,
    ast: Ast,
    function: Function,
}

/// Binds an expression and wraps it as a function, in one of several ways.
pub fn as_function(name: &'static str, x: Xprs<'static>, params: &[&'static str], way: usize, declared: bool) -> Option<Function> {
    let n = params.len();
    let ar = declared.then(|| n as u8);
    if way == 0 && n <= 9 {
        macro_rules! go {
            ($m:ident, $($i:tt),*) => {{
                let f = x.$m($(params[$i]),*).ok()?;
                return Some(Function::new_dyn(name, move |a: &[f64]| f($(a[$i]),*), ar));
            }};
        }
        match n {
            1 => go!(bind, 0),
            2 => go!(bind2, 0, 1),
            3 => go!(bind3, 0, 1, 2),
            4 => go!(bind4, 0, 1, 2, 3),
            5 => go!(bind5, 0, 1, 2, 3, 4),
            _ => {},
        }
    }
    if way == 1 {
        match n {
            1 => {
                let f = x.bind(params[0]).ok()?;
                return Some(xprs::xprs_fn!(name, dyn f, 1));
            },
            2 => {
                let f = x.bind2(params[0], params[1]).ok()?;
                return Some(xprs::xprs_fn!(name, dyn f, 2));
            },
            3 => {
                let f = x.bind3(params[0], params[1], params[2]).ok()?;
                return Some(xprs::xprs_fn!(name, dyn f, 3));
            },
            _ => {},
        }
    }
    let leaked: &'static [&'static str] = Box::leak(params.to_vec().into_boxed_slice());
    let f = x.bind_n_runtime(leaked).ok()?;
    Some(Function::new_dyn(name, move |a: &[f64]| f(a).unwrap_or(f64::NAN), ar))
}

pub fn c22(r: &mut Runner) {
    r.random("layers of definitions", 3500, |rng, c| {
        let mut ctx: Context<'static> = Context::default();
        let mut rc = RefCtx::default();
        // every definition ever made, its index being its body in the model
        let mut defs: Vec<Def> = vec![];
        let mut current: BTreeMap<&'static str, usize> = BTreeMap::new();
        let mut names = Names::plain(0, rng);
        names.funcs.retain(|f| ["sin", "max", "hypot", "abs"].contains(&f.0.as_str()));
        let mut desc = String::new();
        let mut olds: Vec<(Xprs<'static>, Ast)> = vec![];
        let layers = rng.range(2, 6);
        for layer in 0..layers {
            let k = rng.range(1, 4);
            let params: Vec<&'static str> = {
                let mut p = ["x", "y", "z", "t"].to_vec();
                rng.shuffle(&mut p);
                p.truncate(k);
                p
            };
            let name = if rng.one_in(12) { intern(&format!("{}_d", word(rng))) } else { *rng.pick(&["f", "g", "h", "F", "k'", "sin", "a_longer_name", "another_long_name", "max"]) };
            // the definition may use what is defined so far, itself included
            let mut n2 = names.clone();
            n2.vars = params.iter().map(|s| (*s).to_owned()).collect();
            if rng.one_in(5) {
                n2.vars.pop();
            }
            let b = rng.range(2, 8);
            let g = Gen { names: &n2, shapes: 5, calls: 45, fact: 10, var_leaves: 75 };
            let t = intern(&render(&g.syn(rng, b), Parens::Some(50), rng));
            let (ast, x, function) = {
                let parser = Parser::new_with_ctx(ctx.clone());
                let (Ok(ast), Ok(x)) = (parse(t, &rc, MODE), parser.parse(t)) else { return Ok(()) };
                let way = rng.below(3);
                let declared = way == 1 || rng.one_in(2);
                let Some(f) = as_function(name, x.clone(), &params, way, declared) else {
                    return Err(format!("binding {t:?} to {params:?} failed"));
                };
                (ast, x, f)
                // the parser is dropped here
            };
            desc.push_str(&format!("{name}{params:?} = {t:?}; "));
            c.desc = desc.clone();
            let i = defs.len();
            if rng.bool() {
                ctx.set_fn(function.clone());
            } else {
                ctx = ctx.with_fn(function.clone());
            }
            let f = Func { name: name.into(), body: Body::Ext(i), arity: function.nb_args.map(usize::from) };
            rc.syms.insert(name.into(), Sym::Func(f));
            current.insert(name, i);
            names.funcs.retain(|f| f.0 != name);
            for _ in 0..3 {
                names.funcs.push((name.to_owned(), Some(k)));
            }
            defs.push(Def { name, params, x, ast, function });

            // calls with literals, variables and other calls
            let parser = Parser::new_with_ctx(if rng.bool() { ctx.clone() } else { Context::default().with_fn(defs[i].function.clone()) });
            let mut vals: Vec<f64> = vec![];
            for (d, k) in defs.iter().flat_map(|d| (0..3).map(move |k| (d, k))) {
                if parser.ctx().get(d.name) != Some(&d.function.clone().into()) {
                    continue;
                }
                                // plain values, then special ones, then those of the other sign
                if k < 2 {
                    vals = d.params.iter().map(|_| if k == 0 { nice(rng) } else { *rng.pick(&[0.0, -0.0, 5e-324, 1.0, 1e300, f64::INFINITY, f64::NAN]) }).collect();
                } else {
                    vals.iter_mut().for_each(|v| *v = -*v);
                }
                let m: HashMap<&str, f64> = d.params.iter().copied().zip(vals.iter().copied()).collect();
                let want = d.x.eval(&m).map_err(|e| e.to_string())?;
                if vals.iter().all(|v| v.is_finite()) {
                    let lits: Vec<String> =
                        vals.iter().map(|v| if v.is_sign_negative() { format!("-{:?}", -v) } else { format!("{v:?}") }).collect();
                    let t = format!("{}({})", d.name, lits.join(","));
                    let got = parser.parse(&t).map_err(|e| format!("{t}: {e}"))?.eval_no_vars().map_err(|e| e.to_string())?;
                    ensure!(bits_eq(got, want), "{t} is {}, its definition {}", fval(got), fval(want));
                }
                let vs: Vec<String> = (0..vals.len()).map(|i| format!("v{i}")).collect();
                let t = format!("{}({})", d.name, vs.join(", "));
                let x = parser.parse(&t).map_err(|e| format!("{t}: {e}"))?;
                let m: HashMap<&str, f64> = vs.iter().map(String::as_str).zip(vals.iter().copied()).collect();
                let got = x.eval(&m).map_err(|e| e.to_string())?;
                ensure!(bits_eq(got, want), "{t} is {} for {vals:?}, its definition {}", fval(got), fval(want));
                let list: Vec<(&str, f64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
                let got = x.simplify_for_multiple(&list).eval_no_vars().map_err(|e| e.to_string())?;
                ensure!(bits_eq(got, want), "{t} is {} simplified for {vals:?}, its definition {}", fval(got), fval(want));
                c.obs();
            }
            // expressions using the definitions, against the model
            let parser = Parser::new_with_ctx(ctx.clone());
            n2 = names.clone();
            n2.vars = vec!["x".into(), "y".into()];
            let g = Gen { names: &n2, shapes: 0, calls: 60, fact: 10, var_leaves: 50 };
            let b = rng.range(2, 8);
            let t = intern(&render(&g.syn(rng, b), Parens::Some(50), rng));
            if let (Ok(ast), Ok(x)) = (parse(t, &rc, MODE), parser.parse(t)) {
                olds.push((x, ast));
            }
            drop(parser);
            // all the expressions so far, the older ones made with definitions
            // that may have been replaced since
            for (x, ast) in &olds {
                let defs2 = defs.clone();
                for _ in 0..2 {
                    let e = refmodel::gen::env(rng, &ast.vars(), 0);
                    if budget(ast, &defs2, 0) > 3000 {
                        c.class("too large");
                        continue;
                    }
                    let Some(want) = robust_inline(ast, &e, &defs2, rng) else {
                        c.class("no finite value");
                        continue;
                    };
                    let got = x.eval(&vmap(&e)).map_err(|m| m.to_string())?;
                    ensure!(zero_eq(got, want), "{x} is {} for {e:?}, inlined definitions give {}", fval(got), fval(want));
                    c.obs();
                    c.class("composition judged");
                }
            }
            c.class(["1 layer", "2 layers", "3 layers", "4 layers", "5 layers", "6 layers"][layer.min(5)]);
        }
        c.nontrivial(&desc);
        Ok(())
    });
    crate::endure::composed(r);
}

/// Size of the expression with definitions inlined.
fn budget(a: &Ast, defs: &[Def], depth: usize) -> usize {
    let mut n = 0usize;
    a.visit(&mut |k| {
        n += 1;
        if let Ast::Call(Func { body: Body::Ext(i), .. }, _) = k {
            n = n.saturating_add(if depth > 8 { 100_000 } else { budget(&defs[*i].ast, defs, depth + 1) });
        }
    });
    n
}

/// Value with every definition inlined, when everything on the way is finite
/// and independent of the signs of zeros.
fn robust_inline(a: &Ast, e: &Env, defs: &[Def], rng: &mut Rng) -> Option<f64> {
    fn go(a: &Ast, e: &Env, defs: &[Def], flip: &mut dyn FnMut() -> bool) -> Option<f64> {
        let v = match a {
            Ast::Num(v) => *v,
            Ast::Var(n) => *e.get(n)?,
            Ast::Un(o, a) => un(*o, go(a, e, defs, flip)?),
            Ast::Bin(o, a, b) => {
                let x = go(a, e, defs, flip)?;
                bin(*o, x, go(b, e, defs, flip)?)
            },
            Ast::Call(f, args) => {
                let mut vs = vec![];
                for a in args {
                    vs.push(go(a, e, defs, flip)?);
                }
                match f.body {
                    Body::Builtin(n) => call_builtin(n, &vs),
                    Body::User(i) => USER[i](&vs),
                    Body::Ext(i) => {
                        let d = &defs[i];
                        let env: Env = d.params.iter().map(|p| (*p).to_owned()).zip(vs).collect();
                        go(&d.ast, &env, defs, flip)?
                    },
                }
            },
        };
        if !v.is_finite() {
            return None;
        }
        Some(if v == 0.0 && !matches!(a, Ast::Num(_) | Ast::Var(_)) && flip() { -v } else { v })
    }
    let v = go(a, e, defs, &mut || false)?;
    for _ in 0..4 {
        let w = go(a, e, defs, &mut || rng.bool())?;
        if !zero_eq(v, w) {
            return None;
        }
    }
    Some(v)
}

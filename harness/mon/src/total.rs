//! Monitors of totality and of errors: C01 and C14.
use crate::common::*;
use crate::ensure;
use miette::{Diagnostic, SourceCode};
use refmodel::gen::*;
use refmodel::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use xprs::{Context, ParseError, Parser, Symbol, Xprs};

/* Using what a parse returned, in every way */

fn utf8(s: &str, what: &str) -> Res {
    ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "{what} is not UTF-8");
    Ok(())
}

/// All the renderings of an error: (name, text).
pub fn renderings(e: &ParseError, all: bool) -> Result<Vec<(&'static str, String)>, String> {
    use miette::{DebugReportHandler, GraphicalReportHandler, GraphicalTheme, JSONReportHandler, NarratableReportHandler};
    let mut out = vec![];
    let mut put = |n: &'static str, f: &dyn Fn(&mut String) -> std::fmt::Result| -> Res {
        let mut s = String::new();
        f(&mut s).map_err(|_| format!("the {n} rendering fails"))?;
        utf8(&s, n)?;
        out.push((n, s));
        Ok(())
    };
    let wide = |t: GraphicalTheme| GraphicalReportHandler::new_themed(t).with_width(1 << 20).with_wrap_lines(false);
    // miette pads to the column of the location, and cannot beyond 65535 (a finding of C18)
    let far = e.labels().into_iter().flatten().any(|l| l.offset() + l.len() > 60_000);
    let all = all && !far;
    if !far {
        put("graphical", &|s| wide(GraphicalTheme::unicode_nocolor()).render_report(s, e))?;
    }
    put("narrated", &|s| NarratableReportHandler::new().render_report(s, e))?;
    put("plain", &|s| {
        use std::fmt::Write;
        write!(s, "{e}")
    })?;
    if all {
        put("graphical (ASCII, narrow)", &|s| GraphicalReportHandler::new_themed(GraphicalTheme::none()).with_width(20).render_report(s, e))?;
        put("graphical (colours)", &|s| wide(GraphicalTheme::unicode()).with_context_lines(3).tab_width(7).render_report(s, e))?;
        put("debug report", &|s| {
            struct D<'a>(&'a ParseError);
            impl std::fmt::Display for D<'_> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    DebugReportHandler::new().render_report(f, self.0)
                }
            }
            use std::fmt::Write;
            write!(s, "{}", D(e))
        })?;
        put("json", &|s| JSONReportHandler::new().render_report(s, e))?;
        put("debug", &|s| {
            use std::fmt::Write;
            write!(s, "{e:?} {e:#?}")
        })?;
    }
    Ok(out)
}

fn use_error(e: &ParseError, render: usize) -> Res {
    utf8(&e.to_string(), "error message")?;
    if let Some(h) = e.help() {
        utf8(&h.to_string(), "help")?;
    }
    let f = e.clone();
    ensure!(f == *e, "an error differs from its clone");
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    for l in e.labels().into_iter().flatten() {
        let _ = (l.label().map(str::len), l.offset(), l.len());
    }
    let _ = (e.code().is_some(), e.severity(), e.url().is_some(), e.related().is_some(), e.diagnostic_source().is_some());
    if render > 0 {
        renderings(e, render > 1)?;
    }
    if render > 1 {
        // as the REPL does
        let r = miette::Report::new(f);
        utf8(&format!("{r:?} {r} {r:#}"), "report")?;
    }
    Ok(())
}

fn use_xprs(x: &Xprs<'static>, others: &mut Vec<Xprs<'static>>, rng: &mut Rng) -> Res {
    utf8(&format!("{x}"), "displayed expression")?;
    let d = format!("{x:?}");
    utf8(&d, "debug form")?;
    if d.len() < 3000 {
        utf8(&format!("{x:#?}"), "debug form")?;
    }
    let y = x.clone();
    let _ = (*x == y, y == *x, x.root.partial_cmp(&y.root), y.root < x.root, x.root >= y.root);
    for o in others.iter() {
        let _ = (x == o, o == x, x.root.partial_cmp(&o.root), o.root.partial_cmp(&x.root));
    }
    let mut vars: Vec<&'static str> = x.vars.iter().copied().collect();
    vars.sort_unstable();
    for v in &vars {
        utf8(v, "variable")?;
    }
    let none = HashMap::new();
    let r = x.eval(&none);
    if vars.is_empty() {
        let _ = (r.is_ok(), x.eval_no_vars().is_ok(), x.eval_no_vars_unchecked(), x.eval_unchecked(&none));
    } else if let Err(e) = r {
        utf8(&format!("{e} {e:?}"), "evaluation error")?;
        let _ = x.eval_no_vars().is_err();
    }
    let small = vars.len() < 40;
    for k in 0..3 {
        let m: HashMap<&str, f64> = vars.iter().map(|v| (*v, value(rng, if k == 0 { 0 } else { 80 }))).collect();
        let _ = (x.eval(&m).is_ok(), x.eval_unchecked(&m));
        if !vars.is_empty() {
            let mut less = m.clone();
            less.remove(rng.pick(&vars));
            if let Err(e) = x.eval(&less) {
                utf8(&e.to_string(), "evaluation error")?;
            }
            let v = *rng.pick(&vars);
            let z = x.clone().simplify_for((v, m[v]));
            utf8(&format!("{z}"), "displayed simplified expression")?;
            let list: Vec<(&str, f64)> = m.iter().map(|(n, v)| (*n, *v)).collect();
            let mut z = x.clone();
            if small {
                z.simplify_for_multiple_in_place(&list);
            }
            z.simplify_for_in_place(("not there", f64::NAN));
            let _ = (z.eval(&m).is_ok(), z == *x, *x == z);
            utf8(&format!("{z} {z:?}"), "displayed simplified expression")?;
        }
    }
    // binding, with enough and with too few names
    let some: Vec<&'static str> = vars.iter().copied().filter(|_| rng.bool()).collect();
    for names in [&vars, &some] {
        let l: &[&'static str] = names;
        let vals: Vec<f64> = l.iter().map(|_| value(rng, 30)).collect();
        match x.clone().bind_n_runtime(l) {
            Ok(f) => {
                let _ = f(&vals).is_ok();
                let _ = f(&[]).is_ok();
                let _ = f(&vec![1.0; vals.len() + 3]).is_ok();
            },
            Err(e) => utf8(&format!("{e} {e:?}"), "binding error")?,
        }
        let n = |i: usize| l.get(i).copied().unwrap_or("spare");
        match rng.below(6) {
            0 => drop(x.clone().bind(n(0)).map(|f| f(1.5)).map_err(|e| e.to_string())),
            1 => drop(x.clone().bind2(n(0), n(1)).map(|f| f(1.5, f64::NAN)).map_err(|e| e.to_string())),
            2 => drop(x.clone().bind3(n(0), n(1), n(2)).map(|f| f(1.5, -0.0, 1e308)).map_err(|e| e.to_string())),
            3 => drop(x.clone().bind4(n(0), n(1), n(2), n(3)).map(|f| f(0.0, 1.0, 2.0, 3.0)).map_err(|e| e.to_string())),
            4 => drop(x.clone().bind_n([n(0), n(1), n(2), n(3), n(4)]).map(|f| f([0.5; 5])).map_err(|e| e.to_string())),
            _ => drop(x.clone().bind_n([]).map(|f| f([])).map_err(|e| e.to_string())),
        }
    }
    if others.len() < 12 {
        others.push(y);
    } else {
        let k = rng.below(others.len());
        others[k] = y;
    }
    Ok(())
}

/// Texts are kept in an arena that outlives the expressions compared together.
pub struct Session {
    others: Vec<Xprs<'static>>,
    count: usize,
}
impl Session {
    pub fn new() -> Self {
        Session { others: vec![], count: 0 }
    }
    pub fn one(&mut self, p: &Parser, text: &str, rng: &mut Rng, c: &mut Case) -> Res {
        let t: &'static str = Box::leak(text.to_owned().into_boxed_str());
        self.count += 1;
        c.obs();
        match p.parse(t) {
            Ok(x) => {
                c.class("accepted");
                use_xprs(&x, &mut self.others, rng)?;
            },
            Err(e) => {
                c.class("rejected");
                let render = if self.count % 16 == 0 { 2 } else { usize::from(self.count % 4 == 0) };
                use_error(&e, if t.len() > 20000 { 0 } else { render })?;
            },
        }
        Ok(())
    }
}

/// Contexts nobody would write.
fn odd_ctx(rng: &mut Rng) -> Context<'static> {
    let mut c = Context::default();
    for _ in 0..rng.below(6) {
        let n = *rng.pick(&["", " ", "é", "1", "x y", "+", "(", "x", "y", "e", "sin", "pi", "max", "é1", "\u{0}", "f", "g"]);
        match rng.below(3) {
            0 => c.set_var(n, value(rng, 90)),
            1 => {
                let a = *rng.pick(&[None, Some(0), Some(1), Some(2), Some(255)]);
                c.set_fn(mk_fn(n, Body::User(rng.below(USER.len())), a, rng.bool()));
            },
            _ => {
                let mut m: HashMap<&'static str, Symbol> = HashMap::new();
                m.insert(n, mk_fn("another", Body::User(0), Some(1), rng.bool()).into());
                if rng.bool() {
                    m.insert("x", f64::NAN.into());
                }
                c = c.with_symbols(m);
            },
        }
    }
    if rng.one_in(3) {
        let d = ["x", "y", "", "é", "e", "sin", "`", "x, y"];
        c.set_expected_vars(d.into_iter().filter(|_| rng.bool()).collect());
    }
    c
}

const SIZES: &[usize] = &[1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000];

/// Texts made of one construct many times (little nesting).
fn wide_text(kind: usize, n: usize) -> String {
    let r = |s: &str| s.repeat(n);
    match kind {
        0 => format!("max({})", vec!["1"; n].join(",")),
        1 => format!("max({})", vec!["x"; n].join(",")),
        2 => format!("sin({})", vec!["x"; n].join(",")),
        3 => r("9"),
        4 => format!("0.{}", r("3")),
        5 => format!("1e{}", r("0")),
        6 => format!("1e{}", r("9")),
        7 => format!("1e-{}", r("9")),
        8 => format!("{}1", r(" ")),
        9 => format!("1{}", r("\n")),
        10 => r("a"),
        11 => format!("x{}", r("'")),
        12 => format!("1{}", r("_")),
        13 => format!("1{}", r(".")),
        14 => format!("2^{}", r("9")),
        15 => r(","),
        16 => format!("max({}", r(",")),
        17 => format!("x {}", r("é")),
        18 => (0..n).map(|i| format!("v{i}")).collect::<Vec<_>>().join(","),
        19 => format!("hypot({})", vec!["x"; n].join(",")),
        20 => format!("sum({})", (0..n).map(|i| format!("v{i}")).collect::<Vec<_>>().join(",")),
        21 => format!("{}.5", r("1_")),
        22 => format!("max({})", vec!["x!"; n].join(" , ")),
        23 => format!("{})", r("x")),
        24 => format!("sum({})", vec!["-x*2"; n].join(",")),
        25 => format!("{}é", r("1 + ")),
        _ => format!("x{}", r("😀")),
    }
}
const FAR: &[(&str, &str, &str)] = &[("max(", "x,", "1"), ("", " ", "x+y"), ("v", "w", "-2"), ("1", "0", "*x"), ("min(", "é ,", ")"), ("(", "\n", "z")];
const TAILS: &[&str] = &["", ")", "))", "$", " é", "😀", " 1.2.3", " sin(1,2)", " atan2(1)", " sin", " 2", "+", "+(", ",", "^", " 1e", "*max", "*$", "+ é", "^(😀", "-)", "+,"];
/// A long harmless start (mostly) and what is wrong far away from it.
fn far_text(i: usize) -> String {
    let tail = TAILS[i % TAILS.len()];
    let (a, b, end) = FAR[i / TAILS.len() % FAR.len()];
    let n = [250, 5_000, 65_600, 140_000][i / TAILS.len() / FAR.len()] / b.len();
    format!("{a}{}{end}{tail}", b.repeat(n))
}
/// Texts nested or chained `n` deep.
pub fn deep_text(kind: usize, n: usize) -> Option<String> {
    let r = |s: &str| s.repeat(n);
    Some(match kind {
        0 => format!("{}x{}", r("("), r(")")),
        1 => format!("{}x", r("(")),
        2 => format!("{}x", r("-")),
        3 => format!("{}x", r("+-")),
        4 => format!("{}x", r("x+")),
        5 => format!("{}x", r("x^")),
        6 => format!("{}x{}", r("sin("), r(")")),
        7 => format!("{}x{}", r("x+("), r(")")),
        8 => format!("x{}", r("!")),
        9 => r("x "),
        10 => format!("{}x{}", r("max(x,"), r(")")),
        11 => format!("{}2", r("2-")),
        12 => format!("{}x", r("x/")),
        13 => r("(x)"),
        14 => r(")"),
        15 => r("("),
        16 => r("sin("),
        17 => format!("{}x{}", r("2("), r(")")),
        18 => format!("{}x{}", r("-("), r(")!")),
        _ => return None,
    })
}

pub fn c01(r: &mut Runner) {
    let p = Parser::default();
    let mut s = Session::new();
    const TOK: &[&str] = &["1", "x", "sin", "max", "(", ")", ",", "+", "-", "*", "/", "^", "!", "%", " ", ".", "2.5", "y", "é", "e", "e3", "_"];
    let seed = r.o.seed;
    let k = TOK.len() as u64;
    let mut toks = |stream: &str, len: u32, from: u64, to: u64, r: &mut Runner, s: &mut Session| {
        r.each(stream, from..to, |i, c| {
            let mut t = String::new();
            let mut j = i;
            for _ in 0..len {
                t.push_str(TOK[(j % k) as usize]);
                j /= k;
            }
            c.desc = t.clone();
            c.nontrivial(&t);
            let mut rng = Rng::new(seed ^ i);
            s.one(&p, &t, &mut rng, c)
        });
    };
    r.each("empty", 0..6, |i, c| {
        let t = ["", " ", "\n", "\t\r\n ", "\u{c}", "\u{a0}"][i as usize];
        c.desc = format!("{t:?}");
        s.one(&p, t, &mut Rng::new(i), c)
    });
    for len in 1..=3 {
        toks(&format!("all sequences of {len} tokens"), len, 0, k.pow(len), r, &mut s);
    }
    // a different eighth of them per configuration and seed, all of them at scale 8
    let part = (k.pow(4) as f64 * (r.o.scale / 8.0).min(1.0)) as u64;
    let off = refmodel::rng::hash_bytes(0, format!("{seed}{}", r.o.config).as_bytes()) % (k.pow(4) - part + 1);
    toks("sequences of 4 tokens", 4, off, off + part, r, &mut s);

    r.each("pairs of characters", 0..128 * 128, |i, c| {
        let t: String = [(i % 128) as u8 as char, (i / 128) as u8 as char].iter().collect();
        c.desc = format!("{t:?}");
        c.nontrivial(&t);
        s.one(&p, &t, &mut Rng::new(i), c)
    });
    r.random("any character", 2500, |rng, c| {
        let mut ch = || loop {
            let v = match rng.below(4) {
                0 => rng.below(0x80),
                1 => rng.below(0x800),
                2 => rng.below(0x1_0000),
                _ => rng.below(0x11_0000),
            };
            if let Some(x) = char::from_u32(v as u32) {
                return x;
            }
        };
        let (a, b) = (ch(), ch());
        for t in [format!("{a}"), format!("x{a}"), format!("2{a}{b}"), format!("sin(x{a})"), format!("({a}"), format!("1.{a}"), format!("{a}\n{b}+")] {
            c.desc = format!("{t:?}");
            c.nontrivial(&t);
            s.one(&p, &t, &mut Rng::new(1), c)?;
        }
        Ok(())
    });
    let mut cases = |stream: &str, n: usize, r: &mut Runner, s: &mut Session, f: &dyn Fn(&World, &mut Rng) -> String| {
        r.random(stream, n, |rng, c| {
            let w = World::random(rng);
            let odd;
            let p = if rng.one_in(3) {
                odd = Parser::new_with_ctx(odd_ctx(rng));
                &odd
            } else {
                &w.parser
            };
            let t = f(&w, rng);
            c.desc = format!("{t:?}{}", w.desc_ctx());
            c.nontrivial(&t);
            s.one(p, &t, rng, c)
        });
    };
    cases("expressions", 6000, r, &mut s, &|w, rng| text_of(w, rng, 30, 25, 30));
    cases("damaged expressions", 6000, r, &mut s, &|w, rng| {
        let t = text_of(w, rng, 14, 25, 30);
        mutate(rng, &t, &w.names)
    });
    cases("soup", 8000, r, &mut s, &|w, rng| soup(rng, &w.names, 25));
    cases("cut expressions", 3000, r, &mut s, &|w, rng| {
        let t = text_of(w, rng, 20, 25, 40);
        let mut at = rng.below(t.len() + 1);
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        if rng.bool() {
            t[..at].to_owned()
        } else {
            t[at..].to_owned()
        }
    });
    cases("random characters", 4000, r, &mut s, &|_, rng| {
        let n = rng.range(0, 40);
        (0..n)
            .map(|_| match rng.below(5) {
                0 => char::from_u32(rng.below(0x3000) as u32).unwrap_or('x'),
                1 => *rng.pick(&['(', ')', ',', '!', '^', '.', '_', 'e', 'E', '-']),
                _ => (32 + rng.below(95)) as u8 as char,
            })
            .collect()
    });
    // large expressions
    cases("large expressions", 40, r, &mut s, &|w, rng| text_of(w, rng, 600, 15, 20));

    r.each("wide", 0..27 * SIZES.len() as u64, |i, c| {
        let (kind, n) = (i as usize % 27, SIZES[i as usize / 27]);
        let t = wide_text(kind, n);
        c.desc = format!("{} … of {n}", short(&t));
        c.nontrivial(&t);
        s.one(&p, &t, &mut Rng::new(i), c)
    });
    r.each("very wide", 0..27 * 4, |i, c| {
        let (kind, n) = (i as usize % 27, [4096, 65535, 65536, 70001][i as usize / 27]);
        // chains of these are deep trees, a known finding
        if matches!(kind, 23 | 25) && n > 5000 {
            return Ok(());
        }
        let t = wide_text(kind, n.min(if matches!(kind, 20 | 22 | 24) { 5000 } else { n }));
        c.desc = format!("{} … of {n}", short(&t));
        c.nontrivial(&t);
        let mut alone = Session::new();
        alone.one(&p, &t, &mut Rng::new(i), c)
    });
    r.each("far errors", 0..FAR.len() as u64 * TAILS.len() as u64 * 4, |i, c| {
        let t = far_text(i as usize);
        c.desc = format!("… {} of {} bytes", TAILS[i as usize % TAILS.len()], t.len());
        c.nontrivial(&t);
        let mut alone = Session::new();
        alone.one(&p, &t, &mut Rng::new(i), c)
    });
    r.each("deep", 0..19 * 12, |i, c| {
        let (kind, n) = (i as usize % 19, SIZES[i as usize / 19 + 4]);
        let Some(t) = deep_text(kind, n.min(150)) else { return Ok(()) };
        c.desc = format!("{} … {n} deep", short(&t));
        c.nontrivial(&t);
        s.one(&p, &t, &mut Rng::new(i), c)
    });
    r.random("contexts", 1500, |rng, c| {
        let a = odd_ctx(rng);
        let b = a.clone();
        let _ = (a == b, format!("{a:?} {b:#?}"));
        let q = Parser::new_with_ctx(a);
        let q2 = q.clone();
        let _ = (q == q2, format!("{q:?}"));
        let w = World { names: Names::plain(3, rng), rc: RefCtx::default(), parser: Parser::default() };
        for _ in 0..4 {
            let t = if rng.bool() { soup(rng, &w.names, 8) } else { text_of(&w, rng, 10, 20, 20) };
            c.desc = format!("{t:?} with {q:?}");
            c.nontrivial(&c.desc.clone());
            s.one(&q, &t, rng, c)?;
        }
        Ok(())
    });
    r.notes.insert("sessions".into(), "each accepted expression was displayed, compared with up to 12 others, evaluated, simplified and bound".into());
}

/// Uses one deep text in every way; run in a process of its own.
pub fn deep_probe(kind: usize, n: usize) -> i32 {
    let Some(t) = deep_text(kind, n) else { return 3 };
    let t: &'static str = Box::leak(t.into_boxed_str());
    match Parser::default().parse(t) {
        Ok(x) => {
            let y = x.clone();
            let m: HashMap<&str, f64> = x.vars.iter().map(|v| (*v, 1.5)).collect();
            let _ = (x == y, x.eval(&m).is_ok(), format!("{x}").len(), format!("{x:?}").len());
            let list: Vec<(&str, f64)> = m.iter().map(|(n, v)| (*n, *v)).collect();
            drop(y.simplify_for_multiple(&list));
        },
        Err(e) => drop(e.to_string()),
    }
    0
}

/* ---------------------------------------------------------------- C14 */

fn quoted(s: &str) -> Vec<String> {
    s.split('`').skip(1).step_by(2).map(str::to_owned).collect()
}
fn numbers_in(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|w| !w.is_empty()).filter_map(|w| w.parse().ok()).collect()
}

fn c14_one(p: &Parser, rc: &RefCtx, t: &str, full: bool, c: &mut Case) -> Res {
    let e = match p.parse(t) {
        Ok(_) => {
            c.class("accepted (not judged here)");
            return Ok(());
        },
        Err(e) => e,
    };
    let m = e.to_string();
    let low = m.to_lowercase();
    let help = e.help().map(|h| h.to_string()).unwrap_or_default();
    let labels: Vec<_> = e.labels().into_iter().flatten().collect();
    ensure!(labels.len() == 1, "{m}: {} locations", labels.len());
    let (at, len) = (labels[0].offset(), labels[0].len());
    // the text is carried whole
    let src = e.source_code().ok_or_else(|| format!("{m}: no source"))?;
    let whole = src.read_span(&(0, t.len()).into(), 0, 0).map_err(|x| format!("{m}: source unreadable: {x:?}"))?;
    ensure!(whole.data() == t.as_bytes(), "{m}: the source carried is {:?}", String::from_utf8_lossy(whole.data()));
    ensure!(src.read_span(&(t.len() + 1, 1).into(), 0, 0).is_err(), "{m}: the source carried is longer than the text");
    // the location is in it
    ensure!(at.checked_add(len).is_some_and(|end| end <= t.len()), "{m}: location {at}+{len} is outside of the {} bytes", t.len());
    ensure!(t.is_char_boundary(at) && t.is_char_boundary(at + len), "{m}: location {at}+{len} splits a character");
    src.read_span(&(at, len).into(), 1, 1).map_err(|x| format!("{m}: location unreadable: {x:?}"))?;
    c.obs();
    // and at the right place
    match parse(t, rc, MODE) {
        Ok(a) => {
            // an undeclared variable
            let Some(d) = &rc.expected else { return Err(format!("{m}: nothing is wrong with the text")) };
            c.class("undeclared variable");
            let q = quoted(&m);
            ensure!(q.len() == 1 && a.vars().contains(&q[0]) && !d.contains(&q[0]), "{m}: not an undeclared variable of the text, declared are {d:?}");
            ensure!((at, len) == (0, t.len()), "{m}: location {at}+{len} is not the whole text");
            let mut l = quoted(&help);
            l.retain(|s| !s.is_empty());
            l.sort();
            ensure!(l.iter().eq(d.iter()), "{m}: help is {help:?}, declared are {d:?}");
        },
        Err(RefErr::End) => {
            c.class("unexpected end");
            let last = t.len().saturating_sub(1);
            if low.contains("end of") {
                ensure!(at == last && at + len <= t.len(), "{m}: location {at}+{len} is not the last character, at {last}");
            } else {
                // what is missing is told, where it is missing
                ensure!(at == t.len() || at == last, "{m}: location {at}+{len} is not the end, at {}", t.len());
                expected_token(&m, t, at)?;
            }
        },
        Err(RefErr::Token { at: w }) => {
            ensure!(!low.contains("end of"), "{m}: the text does not end there, {:?} is at {w}", &t[w..]);
            ensure!(!low.contains("malformed") && !low.contains("few") && !low.contains("many") && !low.contains("declared"), "{m}: not what is wrong, {:?} is at {w}", &t[w..]);
            ensure!(at <= w && w < at + len.max(1), "{m}: location {at}+{len} is not where it goes wrong, at {w}");
            let ch = t[w..].chars().next().map(String::from).unwrap_or_default();
            let q = quoted_char(&m);
            if low.starts_with("expected") {
                c.class("expected token");
                ensure!(q != Some(ch.clone()), "{m}: that character is there");
                expected_token(&m, t, w)?;
            } else if low.contains("missing") {
                c.class("missing argument");
                ensure!(ch == ")", "{m}: {ch:?} is there");
            } else {
                c.class("unexpected or illegal character");
                ensure!(q == Some(ch.clone()), "{m}: the character there is {ch:?}");
            }
        },
        Err(RefErr::Malformed { start, end }) => {
            c.class("malformed number");
            ensure!(low.contains("number"), "{m}: but the number {:?} is malformed", &t[start..end]);
            ensure!((at, at + len) == (start, end), "{m}: location {at}+{len} is not the number's, {start}..{end}");
            ensure!(quoted(&m) == [&t[start..end]], "{m}: the number there is {:?}", &t[start..end]);
        },
        Err(RefErr::Arity { declared, written, start, end, name }) => {
            c.class("wrong number of arguments");
            ensure!(numbers_in(&m) == [declared, written], "{m}: {name} is declared with {declared} and called with {written} arguments");
            ensure!((at, at + len) == (start, end), "{m}: location {at}+{len} is not the call's, {start}..{end}");
            ensure!(low.contains(if written < declared { "few" } else { "many" }), "{m}: {written} arguments of {declared}");
            let diff = declared.abs_diff(written);
            ensure!(numbers_in(&help) == [diff], "{m}: help is {help:?}, off by {diff}");
            let hl = help.to_lowercase();
            ensure!(hl.contains(if written < declared { "add" } else { "remov" }), "{m}: help is {help:?}");
            ensure!(hl.contains("arguments") == (diff > 1), "{m}: help is {help:?}");
        },
    }
    c.obs();
    for (n, s) in renderings(&e, full)? {
        if matches!(n, "graphical" | "narrated" | "plain") {
            // messages with control characters or line ends are laid out
            let plain = !m.contains(['\n', '\r', '\t']) && m.chars().all(|c| c as u32 >= 32);
            ensure!(!plain || s.contains(&m), "{m}: the {n} rendering lacks the message: {s:?}");
            ensure!(n == "plain" || help.is_empty() || s.contains(&help), "{m}: the {n} rendering lacks the help: {s:?}");
        }
    }
    c.obs();
    Ok(())
}
/// The character between the quotes, which may be a quote itself.
fn quoted_char(m: &str) -> Option<String> {
    let i = m.find('`')?;
    let rest = &m[i + 1..];
    let ch = rest.chars().next()?;
    rest[ch.len_utf8()..].starts_with('`').then(|| ch.to_string())
}
/// `Expected token: …` must tell something that could be there.
fn expected_token(m: &str, t: &str, at: usize) -> Res {
    let q = quoted_char(m);
    let before = t[..at].trim_end_matches(|c: char| c.is_ascii() && is_space(c as u8));
    let word: String = before.chars().rev().take_while(|c| c.is_ascii_alphanumeric() || "_'".contains(*c)).collect();
    match q.as_deref() {
        Some("(") => ensure!(!word.is_empty(), "{m}: no function is named there"),
        Some(")") => {
            let open = before.matches('(').count();
            let close = before.matches(')').count();
            ensure!(open > close, "{m}: no parenthesis is open there");
        },
        other => return Err(format!("{m}: {other:?} is expected nowhere")),
    }
    Ok(())
}

pub fn c14(r: &mut Runner) {
    let p = Parser::default();
    let def = RefCtx::default();
    let seed = r.o.seed;
    const TOK: &[&str] = &["1", "x", "sin", "max", "(", ")", ",", "+", "-", "^", "!", " ", ".", "1.2.", "hypot(", "é", "sin(", "*", "\n", "ab'"];
    let k = TOK.len() as u64;
    for len in 1..=3u32 {
        r.each(&format!("all sequences of {len} tokens"), 0..k.pow(len), |i, c| {
            let mut t = String::new();
            let mut j = i;
            for _ in 0..len {
                t.push_str(TOK[(j % k) as usize]);
                j /= k;
            }
            c.desc = format!("{t:?}");
            c.nontrivial(&t);
            c14_one(&p, &def, &t, false, c)
        });
    }
    r.random("sequences of tokens", 30000, |rng, c| {
        let n = rng.range(4, 9);
        let t: String = (0..n).map(|_| *rng.pick(TOK)).collect();
        c.desc = format!("{t:?}");
        c.nontrivial(&t);
        c14_one(&p, &def, &t, rng.one_in(20), c)
    });
    // every character where a character can be wrong
    const FRAMES: &[(&str, &str)] =
        &[("", ""), ("x", ""), ("2", ""), ("2 ", " 3"), ("sin(x", ")"), ("(1", ""), ("max(1,", ")"), ("é", ""), ("x+", "+é"), ("\t", "\n"), ("sin", "(x)"), ("1\n+2\n", "\né")];
    let spread = 0x11_0000 / 3000;
    r.each("characters", 0..(0x500 + 3000), |i, c| {
        let v = if i < 0x500 { i as u32 } else { ((i as u32 - 0x500) * spread) + (seed as u32 * 7919 + i as u32 * 31) % spread };
        let Some(ch) = char::from_u32(v) else { return Ok(()) };
        for (a, b) in FRAMES {
            let t = format!("{a}{ch}{b}");
            c.desc = format!("{t:?}");
            c.nontrivial(&t);
            c14_one(&p, &def, &t, i % 50 == 0, c)?;
        }
        Ok(())
    });
    let undeclared = |w: &mut World, rng: &mut Rng| {
        if rng.bool() {
            let mut d: BTreeSet<String> = w.names.vars.iter().filter(|_| rng.pct(60)).cloned().collect();
            if rng.pct(80) {
                d.insert("other".into());
            }
            w.parser.ctx_mut().set_expected_vars(d.iter().map(|n| intern(n)).collect());
            w.rc.expected = Some(d);
        }
    };
    r.random("damaged expressions", 25000, |rng, c| {
        let mut w = World::random(rng);
        undeclared(&mut w, rng);
        let t = text_of(&w, rng, 16, 10, 40);
        let t = if rng.one_in(5) { t } else { mutate(rng, &t, &w.names) };
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c.nontrivial(&c.desc.clone());
        c14_one(&w.parser, &w.rc, &t, rng.one_in(20), c)
    });
    r.random("cut expressions", 6000, |rng, c| {
        let w = World::random(rng);
        let t = text_of(&w, rng, 16, 10, 40);
        let at = rng.below(t.len() + 1);
        let t = format!("{}{}", &t[..at], rng.pick(&["", " ", "\n", "  \t"]));
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c.nontrivial(&c.desc.clone());
        c14_one(&w.parser, &w.rc, &t, rng.one_in(20), c)
    });
    r.random("soup", 15000, |rng, c| {
        let mut w = World::random(rng);
        undeclared(&mut w, rng);
        let t = soup(rng, &w.names, 14);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c.nontrivial(&c.desc.clone());
        c14_one(&w.parser, &w.rc, &t, rng.one_in(20), c)
    });
    r.random("in large surroundings", 1200, |rng, c| {
        let mut w = World::random(rng);
        undeclared(&mut w, rng);
        let t = text_of(&w, rng, 6, 10, 40);
        let t = mutate(rng, &t, &w.names);
        let mut t = surround(rng, &t, 2500);
        if rng.one_in(4) {
            t = mutate(rng, &t, &w.names);
        }
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c.nontrivial(&c.desc.clone());
        c14_one(&w.parser, &w.rc, &t, rng.one_in(20), c)
    });
    // calls with wrong numbers of arguments anywhere
    r.random("calls", 12000, |rng, c| {
        let mut w = World::random(rng);
        for f in &mut w.names.funcs {
            if rng.one_in(12) {
                f.1 = Some(rng.below(6));
            }
        }
        let t = text_of(&w, rng, 14, 0, 75);
        c.desc = format!("{t:?}{}", w.desc_ctx());
        c.nontrivial(&c.desc.clone());
        c14_one(&w.parser, &w.rc, &t, rng.one_in(20), c)
    });
    r.random("many arguments", 60, |rng, c| {
        let n = *rng.pick(&[3usize, 9, 254, 255, 256, 257, 258, 400, 1000, 65536, 65537]);
        let f = *rng.pick(&["sin", "hypot", "atan2", "abs"]);
        let t = format!("1 + {f}({}) é", vec!["x"; n].join(", "));
        c.desc = format!("{f} of {n} arguments");
        c.nontrivial(&t);
        c14_one(&p, &def, &t, false, c)
    });
    {
        let (p, rc) = (Parser::default(), RefCtx::default());
        r.each("far errors", 0..FAR.len() as u64 * TAILS.len() as u64 * 4, |i, c| {
            let t = far_text(i as usize);
            c.desc = format!("… {} of {} bytes", TAILS[i as usize % TAILS.len()], t.len());
            c14_one(&p, &rc, &t, t.len() < 10_000, c)
        });
    }
    r.random("several lines", 4000, |rng, c| {
        let w = World::plain(rng, 3);
        let mut t = String::new();
        for _ in 0..rng.range(1, 6) {
            t.push_str(&text_of(&w, rng, 5, 0, 20));
            t.push_str(rng.pick(&["\n", "\r\n", " +\n", "\n* ", "\t", "é\n", "😀", "\n\n", ")\n", " (", "\u{2028}", "\u{feff}", "\0"]));
        }
        c.desc = format!("{t:?}");
        c.nontrivial(&t);
        c14_one(&w.parser, &w.rc, &t, true, c)
    });
    crate::endure::rejections(r);
}

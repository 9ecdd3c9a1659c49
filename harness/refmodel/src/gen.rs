//! Workload generation: expressions, texts, names, contexts and values.
use crate::ast::*;
use crate::eval::Env;
use crate::rng::Rng;

/// Concrete syntax of a generated expression.
#[derive(Clone, Debug)]
pub enum Syn {
    Lit(String),
    Id(String),
    Un(Un, Box<Syn>),
    Bin(Bin, Box<Syn>, Box<Syn>, bool),
    Call(String, Vec<Syn>),
}

#[derive(Clone, Debug, Default)]
pub struct Names {
    pub vars: Vec<String>,
    pub consts: Vec<String>,
    pub funcs: Vec<(String, Option<usize>)>,
}

pub const VAR_POOL: &[&str] = &[
    "x", "y", "z", "a", "b", "c", "X", "Y", "A", "n", "t", "foo", "x1", "x_1", "x'", "x''", "Q7", "e1", "E", "E2",
    "e_", "ee", "Pi", "PI", "pi2", "sinx", "Sin", "SIN", "sinn", "si", "maxx", "mi", "ma", "mean2", "velocity",
    "aVeryLongVariableName_with_underscores", "i", "in", "l", "o", "O", "Z", "zz", "Zz", "T'", "r2d2", "lo", "logn2",
    "atan3", "expo", "absx", "q", "Q", "_x", "nan", "infinity", "mod", "pow", "sign", "log2", "log10", "ans", "aNameOf19Characters", "NaN2", "notNaN", "inf_", "infx",
];
pub const CONST_POOL: &[&str] = &["k", "K", "c0", "tau", "TAU", "phi", "half", "neg", "big", "tiny", "zero", "one", "m'", "W_1", "nan", "deg", "a_constant_with_a_long_name"];
pub const FUN_POOL: &[&str] = &["f", "g", "h", "F", "G1", "fn_2", "weigh", "f'", "hof", "sinc", "ff", "fx", "sgn", "pow", "mod", "log2", "log10", "if", "clamp", "average", "a_function_with_a_long_name", "interpolate"];
pub const CONST_VALUES: &[f64] = &[
    2.0, -3.0, 0.0, 1.0, -1.0, 0.5, -0.5, 6.25, 1e10, -1e-3, 4.0, 10.0, -0.0, 170.0, 3.0, 5e-324, 1.7976931348623157e308,
    -2.5, 7.0, 1e-300, 123456.789, -1e15, 0.1, 0.3333333333333333,
];

impl Names {
    /// Variables only, all built-ins callable.
    pub fn plain(nvars: usize, rng: &mut Rng) -> Self {
        let mut pool: Vec<&str> = VAR_POOL.iter().copied().filter(|n| !n.starts_with('_')).collect();
        rng.shuffle(&mut pool);
        if rng.pct(60) {
            // mostly single letters
            pool.sort_by_key(|n| n.len().min(3));
        }
        Names {
            vars: pool.iter().take(nvars).map(|s| (*s).to_owned()).collect(),
            consts: vec!["pi".into(), "e".into()],
            funcs: BUILTINS.iter().map(|(n, a)| ((*n).to_owned(), *a)).collect(),
        }
    }
}

/// A random identifier, now and then a long one, that means nothing yet.
pub fn word(rng: &mut Rng) -> String {
    const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    const REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'";
    loop {
        let n = match rng.below(10) {
            0..=5 => rng.range(0, 4),
            6..=8 => rng.range(5, 40),
            _ => *rng.pick(&[31, 32, 63, 64, 127, 128, 254, 255, 256, 300]),
        };
        let mut s = String::from(*rng.pick(FIRST) as char);
        for _ in 0..n {
            s.push(*rng.pick(REST) as char);
        }
        if RefCtx::default().resolve(&s).is_none() {
            return s;
        }
    }
}

/// A random context (constants and functions, possibly shadowing built-ins) and
/// the names usable with it.
pub fn gen_ctx(rng: &mut Rng, names: &mut Names) -> RefCtx {
    let mut ctx = RefCtx::default();
    let large = rng.one_in(12);
    for _ in 0..if large { rng.range(4, 40) } else { rng.below(4) } {
        let n = if large && rng.bool() {
            word(rng)
        } else if rng.one_in(8) {
            if rng.bool() { (*rng.pick(BUILTINS)).0.to_owned() } else { (*rng.pick(&["pi", "e"])).to_owned() }
        } else {
            (*rng.pick(CONST_POOL)).to_owned()
        };
        let v = if rng.one_in(4) { (rng.unit() - 0.5) * 100.0 } else { *rng.pick(CONST_VALUES) };
        ctx.syms.insert(n, Sym::Const(v));
    }
    for _ in 0..if large { rng.range(4, 30) } else { rng.below(4) } {
        let mut own = None;
        let n = if large && rng.bool() {
            word(rng)
        } else if rng.one_in(4) {
            // another meaning for a built-in function
            let b = *rng.pick(BUILTINS);
            own = Some(b.1);
            if rng.one_in(12) { (*rng.pick(&["e", "pi"])).to_owned() } else { b.0.to_owned() }
        } else {
            (*rng.pick(FUN_POOL)).to_owned()
        };
        let arity = match rng.below(12) {
            0..=5 if own.is_some() => own.flatten(),
            0..=3 => None,
            4 => Some(rng.range(5, 20)),
            _ => Some(rng.below(5)),
        };
        let body = Body::User(rng.below(crate::eval::USER.len()));
        ctx.syms.insert(n.clone(), Sym::Func(Func { name: n, body, arity }));
    }
    for (n, s) in &ctx.syms {
        names.funcs.retain(|(f, _)| f != n);
        names.consts.retain(|c| c != n);
        names.vars.retain(|v| v != n);
        match s {
            Sym::Const(_) => names.consts.push(n.clone()),
            Sym::Func(f) => {
                for _ in 0..6 {
                    names.funcs.push((n.clone(), f.arity));
                }
            },
        }
    }
    ctx
}

pub fn literal(rng: &mut Rng) -> String {
    match rng.below(14) {
        0..=5 => (*rng.pick(&["0", "1", "2", "3", "4", "5", "10"])).to_owned(),
        6 => (*rng.pick(&["0.5", "2.5", ".5", "3.", "0.25", "1.5", "0.1", "0.0", "00", "1.0", "0_1", "1_0.0"])).to_owned(),
        7 => (*rng.pick(&["1e3", "1e-3", "2E2", "1E+1", "1.5e2", ".5e1", "1_000", "1_0.5_0", "1__2", "1_", "12.5E-1"])).to_owned(),
        8 => (*rng.pick(&["170", "171", "20", "25", "100", "1e300", "1e308", "1e-308", "5e-324", "1e309", "255", "257", "65537", "2147483647", "4294967297", "1000000000000001", "9007199254740991", "9007199254740993", "0.3333333333333333"])).to_owned(),
        9 | 10 => format!("{}", rng.below(1000)),
        11 | 12 => format!("{}.{}", rng.below(100), rng.below(1000)),
        _ => format!("{}", (rng.unit() * 20.0 * 1000.0).round() / 1000.0),
    }
}

pub struct Gen<'a> {
    pub names: &'a Names,
    /// Percentage of inner nodes that are instances of the shapes optimisation
    /// rules look for (twins, neutral and absorbing constants).
    pub shapes: usize,
    /// Percentage of function calls among inner nodes.
    pub calls: usize,
    pub fact: usize,
    /// Percentage of leaves that are variables.
    pub var_leaves: usize,
}

impl Gen<'_> {
    pub fn leaf(&self, rng: &mut Rng) -> Syn {
        if !self.names.vars.is_empty() && rng.pct(self.var_leaves) {
            Syn::Id(rng.pick(&self.names.vars).clone())
        } else if !self.names.consts.is_empty() && rng.one_in(5) {
            Syn::Id(rng.pick(&self.names.consts).clone())
        } else {
            Syn::Lit(literal(rng))
        }
    }
    pub fn syn(&self, rng: &mut Rng, budget: usize) -> Syn {
        if budget <= 1 {
            return self.leaf(rng);
        }
        if rng.pct(self.shapes) {
            return self.shape(rng, budget);
        }
        if rng.pct(self.calls) && !self.names.funcs.is_empty() {
            let (n, ar) = rng.pick(&self.names.funcs).clone();
            let k = match ar {
                Some(k) => k,
                None if rng.one_in(30) => rng.range(5, 80),
                None => rng.below(5),
            };
            let args = (0..k).map(|_| {
                let b = rng.below(budget / k.max(1) + 1);
                self.syn(rng, b)
            });
            return Syn::Call(n, args.collect());
        }
        match rng.below(12) {
            0 => Syn::Un(Un::Minus, Box::new(self.syn(rng, budget - 1))),
            1 if rng.one_in(2) => Syn::Un(Un::Plus, Box::new(self.syn(rng, budget - 1))),
            2 if rng.pct(self.fact) => Syn::Un(Un::Fact, Box::new(self.syn(rng, budget - 1))),
            _ => {
                let l = rng.range(1, budget - 1);
                let a = self.syn(rng, l);
                let b = self.syn(rng, budget - l);
                let o = *rng.pick(&[
                    Bin::Add,
                    Bin::Add,
                    Bin::Sub,
                    Bin::Sub,
                    Bin::Mul,
                    Bin::Mul,
                    Bin::Mul,
                    Bin::Div,
                    Bin::Div,
                    Bin::Rem,
                    Bin::Pow,
                ]);
                Syn::Bin(o, Box::new(a), Box::new(b), rng.one_in(2))
            },
        }
    }
    /// Instances of the left-hand sides of algebraic identities, and lookalikes.
    fn shape(&self, rng: &mut Rng, budget: usize) -> Syn {
        let k = rng.range(1, budget.max(2) / 2);
        let a = self.syn(rng, k);
        let twin = match rng.below(6) {
            0 | 1 => a.clone(),
            2 | 3 => near_twin(&a, rng, self),
            4 => commute(&a, rng),
            _ => self.syn(rng, k),
        };
        let neg = |s: Syn| Syn::Un(Un::Minus, Box::new(s));
        let mut l = a;
        let mut r = twin;
        match rng.below(8) {
            0 => l = neg(l),
            1 => r = neg(r),
            2 | 3 => {
                l = neg(l);
                r = neg(r);
            },
            4 | 5 => {
                let c = Syn::Lit(
                    (*rng.pick(&["0", "1", "0.0", "1.0", "2", "0.5", "00", "1e0", "0e5", "1e-320", "1.0000000000000002"])).to_owned(),
                );
                if rng.bool() {
                    l = c;
                } else {
                    r = c;
                }
                if rng.one_in(6) {
                    l = neg(l);
                }
                if rng.one_in(6) {
                    r = neg(r);
                }
            },
            _ => {},
        }
        let o = *rng.pick(&[Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Rem, Bin::Pow]);
        Syn::Bin(o, Box::new(l), Box::new(r), false)
    }
}

/// Gives each leaf, with the given odds, a variable of its own.
pub fn own_variables(s: &mut Syn, pct: usize, next: &mut usize, rng: &mut Rng) {
    match s {
        Syn::Lit(_) | Syn::Id(_) => {
            if rng.pct(pct) {
                *next += 1;
                *s = Syn::Id(format!("v{next}"));
            }
        },
        Syn::Un(_, a) => own_variables(a, pct, next, rng),
        Syn::Bin(_, a, b, _) => {
            own_variables(a, pct, next, rng);
            own_variables(b, pct, next, rng);
        },
        Syn::Call(_, v) => {
            for a in v {
                own_variables(a, pct, next, rng);
            }
        },
    }
}

/// A copy differing in one place.
pub fn near_twin(s: &Syn, rng: &mut Rng, g: &Gen) -> Syn {
    let mut c = s.clone();
    let n = count(&c);
    let at = rng.below(n);
    let mut i = 0;
    change(&mut c, at, &mut i, rng, g);
    c
}
fn count(s: &Syn) -> usize {
    1 + match s {
        Syn::Lit(_) | Syn::Id(_) => 0,
        Syn::Un(_, a) => count(a),
        Syn::Bin(_, a, b, _) => count(a) + count(b),
        Syn::Call(_, v) => v.iter().map(count).sum(),
    }
}
fn change(s: &mut Syn, at: usize, i: &mut usize, rng: &mut Rng, g: &Gen) {
    let me = *i;
    *i += 1;
    if me == at {
        let new = match s {
            Syn::Lit(l) => match rng.below(3) {
                0 => Syn::Lit(literal(rng)),
                1 => Syn::Lit(format!("{l}1")),
                _ => Syn::Un(Un::Minus, Box::new(s.clone())),
            },
            Syn::Id(_) => match rng.below(3) {
                0 => Syn::Un(Un::Minus, Box::new(s.clone())),
                _ => g.leaf(rng),
            },
            Syn::Un(o, a) => match rng.below(3) {
                0 => (**a).clone(),
                1 => Syn::Un(if *o == Un::Minus { Un::Plus } else { Un::Minus }, a.clone()),
                _ => Syn::Un(if *o == Un::Fact { Un::Minus } else { Un::Fact }, a.clone()),
            },
            Syn::Bin(o, a, b, im) => match rng.below(3) {
                0 => Syn::Bin(*o, b.clone(), a.clone(), *im),
                _ => Syn::Bin(
                    *rng.pick(&[Bin::Add, Bin::Sub, Bin::Mul, Bin::Div, Bin::Rem, Bin::Pow]),
                    a.clone(),
                    b.clone(),
                    *im,
                ),
            },
            Syn::Call(f, args) => {
                let mut args = args.clone();
                let mut name = f.clone();
                if args.len() > 1 && rng.bool() {
                    let k = rng.below(args.len() - 1);
                    args.swap(k, k + 1);
                } else {
                    let same: Vec<_> = g
                        .names
                        .funcs
                        .iter()
                        .filter(|(n, a)| n != f && (a.is_none() || *a == Some(args.len())))
                        .collect();
                    if !same.is_empty() {
                        name.clone_from(&rng.pick(&same).0);
                    }
                }
                Syn::Call(name, args)
            },
        };
        *s = new;
        return;
    }
    match s {
        Syn::Lit(_) | Syn::Id(_) => {},
        Syn::Un(_, a) => change(a, at, i, rng, g),
        Syn::Bin(_, a, b, _) => {
            change(a, at, i, rng, g);
            change(b, at, i, rng, g);
        },
        Syn::Call(_, v) => {
            for a in v {
                change(a, at, i, rng, g);
            }
        },
    }
}
/// A copy with the operands of some sums and products swapped.
pub fn commute(s: &Syn, rng: &mut Rng) -> Syn {
    match s {
        Syn::Lit(_) | Syn::Id(_) => s.clone(),
        Syn::Un(o, a) => Syn::Un(*o, Box::new(commute(a, rng))),
        Syn::Call(f, v) => Syn::Call(f.clone(), v.iter().map(|a| commute(a, rng)).collect()),
        Syn::Bin(o, a, b, im) => {
            let (a, b) = (Box::new(commute(a, rng)), Box::new(commute(b, rng)));
            if matches!(o, Bin::Add | Bin::Mul) && rng.pct(60) {
                Syn::Bin(*o, b, a, *im)
            } else {
                Syn::Bin(*o, a, b, *im)
            }
        },
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Parens {
    /// Keep the tree.
    Full,
    /// Percentage of inner nodes put in parentheses (the text then means
    /// whatever the grammar says).
    Some(usize),
}

pub fn tokens(s: &Syn, p: Parens, rng: &mut Rng, out: &mut Vec<String>) {
    let start = out.len();
    match s {
        Syn::Lit(l) => out.push(l.clone()),
        Syn::Id(n) => out.push(n.clone()),
        Syn::Un(o, a) => match o {
            Un::Fact => {
                sub(a, p, rng, out);
                out.push("!".into());
            },
            Un::Plus => {
                out.push("+".into());
                sub(a, p, rng, out);
            },
            Un::Minus => {
                out.push("-".into());
                sub(a, p, rng, out);
            },
        },
        Syn::Bin(o, a, b, im) => {
            sub(a, p, rng, out);
            let mut right = Vec::new();
            sub(b, p, rng, &mut right);
            let implicit = *o == Bin::Mul && *im && {
                let f = right[0].as_bytes()[0];
                let prev_num = {
                    let l = out.last().unwrap().as_bytes()[0];
                    l.is_ascii_digit() || l == b'.'
                };
                f.is_ascii_alphabetic() || f == b'(' || (f.is_ascii_digit() && !prev_num)
            };
            if !implicit {
                out.push(
                    match o {
                        Bin::Add => "+",
                        Bin::Sub => "-",
                        Bin::Mul => "*",
                        Bin::Div => "/",
                        Bin::Rem => "%",
                        Bin::Pow => "^",
                    }
                    .into(),
                );
            }
            out.append(&mut right);
        },
        Syn::Call(f, args) => {
            out.push(f.clone());
            out.push("(".into());
            for (i, a) in args.iter().enumerate() {
                if i > 0 {
                    out.push(",".into());
                }
                tokens(a, p, rng, out);
            }
            out.push(")".into());
        },
    }
    let _ = start;
}
fn sub(s: &Syn, p: Parens, rng: &mut Rng, out: &mut Vec<String>) {
    let wrap = match (p, s) {
        (_, Syn::Lit(_) | Syn::Id(_) | Syn::Call(..)) => rng.one_in(25),
        (Parens::Full, _) => true,
        (Parens::Some(k), _) => rng.pct(k),
    };
    if wrap {
        out.push("(".into());
        tokens(s, p, rng, out);
        out.push(")".into());
    } else {
        tokens(s, p, rng, out);
    }
}

pub const SPACES: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\x0c", " \t\n "];

/// Joins tokens; whitespace is put wherever gluing would merge two of them.
pub fn join(toks: &[String], style: usize, rng: &mut Rng) -> String {
    let mut s = String::new();
    let mut prev: Option<&str> = None;
    for t in toks {
        let need = prev.is_some_and(|p: &str| {
            let a = p.as_bytes()[0];
            let last = p.as_bytes()[p.len() - 1];
            let b = t.as_bytes()[0];
            let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'\'';
            if a.is_ascii_alphabetic() {
                word(b) && word(last)
            } else if a.is_ascii_digit() || a == b'.' {
                b.is_ascii_digit() || b == b'.' || b == b'_' || (b | 32) == b'e'
            } else {
                false
            }
        });
        match style {
            0 => {
                if need {
                    s.push(' ');
                }
            },
            1 => {
                if prev.is_some() {
                    s.push(' ');
                }
            },
            _ => {
                if need || rng.one_in(3) {
                    s.push_str(rng.pick(SPACES));
                    if rng.one_in(400) {
                        let n = rng.range(5, 300);
                        s.push_str(&rng.pick(&[" ", "\n", "\t "]).repeat(n));
                    }
                }
            },
        }
        s.push_str(t);
        prev = Some(t);
    }
    if style == 2 && rng.one_in(3) {
        s.push_str(rng.pick(SPACES));
    }
    if style == 2 && rng.one_in(3) {
        s.insert_str(0, rng.pick(SPACES));
    }
    s
}

pub fn render(s: &Syn, p: Parens, rng: &mut Rng) -> String {
    let mut t = Vec::new();
    tokens(s, p, rng, &mut t);
    let style = rng.below(3);
    join(&t, style, rng)
}

/* Texts that are not necessarily expressions */

pub fn soup_token(rng: &mut Rng, names: &Names) -> String {
    match rng.below(30) {
        0..=3 => literal(rng),
        4..=7 if !names.vars.is_empty() => rng.pick(&names.vars).clone(),
        8 if !names.consts.is_empty() => rng.pick(&names.consts).clone(),
        9 | 10 if !names.funcs.is_empty() => format!("{}(", rng.pick(&names.funcs).0),
        11 if !names.funcs.is_empty() => rng.pick(&names.funcs).0.clone(),
        12 | 13 => "(".into(),
        14..=16 => ")".into(),
        17 => ",".into(),
        18 => "!".into(),
        19 => "^".into(),
        20 | 21 => "-".into(),
        22 => "+".into(),
        23 => "*".into(),
        24 => "/".into(),
        25 => "%".into(),
        26 => (*rng.pick(&[
            "1.2.3", ".", "..", "1..2", "._1", ".e5", "1e", "1e+", "1e5e5", "2e3x", "1_e5", "_", "'", "1.e1", "0x10", "1e-", ".5.", "1e5.5",
        ]))
        .to_owned(),
        27 => (*rng.pick(&[
            "é", "π", "²", "∞", "😀", "\u{a0}", "\u{0b}", "\0", "\u{7f}", "\u{80}", "ﬀ", "\u{202e}", "\u{feff}", "a\u{301}", "１", "ｘ", "×", "÷", "−",
        ]))
        .to_owned(),
        28 => (*rng.pick(&["$", "#", "@", "=", "==", "&", "|", "[", "]", "{", "}", ";", ":", "\"", "\\", "?", "<", ">", "~", "`", "**", "//"])).to_owned(),
        _ => (*rng.pick(SPACES)).to_owned(),
    }
}

pub fn soup(rng: &mut Rng, names: &Names, max: usize) -> String {
    let n = rng.range(1, max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&soup_token(rng, names));
        if rng.one_in(4) {
            s.push_str(rng.pick(SPACES));
        }
    }
    s
}

/// Small edits of a text.
pub fn mutate(rng: &mut Rng, text: &str, names: &Names) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let at = rng.below(cs.len() + 1);
        match rng.below(8) {
            0 | 1 if at < cs.len() => {
                cs.remove(at);
            },
            2 | 3 => {
                let t: Vec<char> = soup_token(rng, names).chars().collect();
                cs.splice(at..at, t);
            },
            4 if at < cs.len() => {
                let t: Vec<char> = soup_token(rng, names).chars().collect();
                cs.splice(at..=at, t);
            },
            5 if at < cs.len() => {
                let o = rng.below(cs.len());
                cs.swap(at, o);
            },
            6 => cs.truncate(at),
            7 if at < cs.len() => {
                let to = rng.range(at, cs.len().min(at + 6));
                let dup: Vec<char> = cs[at..to].to_vec();
                let p = rng.below(cs.len() + 1);
                cs.splice(p..p, dup);
            },
            _ => {},
        }
    }
    cs.into_iter().collect()
}

/* Values */

pub const SPECIAL: &[f64] = &[
    0.0,
    -0.0,
    1.0,
    -1.0,
    2.0,
    -2.0,
    0.5,
    -0.5,
    1.5,
    3.0,
    -3.0,
    170.0,
    171.0,
    1e308,
    -1e308,
    5e-324,
    -5e-324,
    f64::MIN_POSITIVE,
    f64::MAX,
    f64::EPSILON,
    9007199254740992.0,
    9007199254740993.0,
    f64::INFINITY,
    f64::NEG_INFINITY,
    f64::NAN,
    4294967296.0,
    -2147483649.0,
    0.1,
    std::f64::consts::PI,
    0.999_999_999_999_999_9,
];

pub fn nice(rng: &mut Rng) -> f64 {
    match rng.below(8) {
        0 => (rng.below(11) as f64) - 5.0,
        1 => (rng.below(41) as f64 - 20.0) / 4.0,
        2 => rng.range(1, 9) as f64,
        _ => {
            let v = (rng.unit() - 0.4) * 12.0;
            if rng.bool() {
                (v * 1000.0).round() / 1000.0
            } else {
                v
            }
        },
    }
}
pub fn value(rng: &mut Rng, specials: usize) -> f64 {
    if rng.pct(specials) {
        if rng.one_in(6) {
            f64::from_bits(rng.u64())
        } else {
            *rng.pick(SPECIAL)
        }
    } else {
        nice(rng)
    }
}
pub fn env(rng: &mut Rng, vars: &std::collections::BTreeSet<String>, specials: usize) -> Env {
    vars.iter().map(|v| (v.clone(), value(rng, specials))).collect()
}

/// A text inside a large other one: what comes before and after it, and what
/// it is nested in, is up to about `cap` long, wide or deep.
pub fn surround(rng: &mut Rng, t: &str, cap: usize) -> String {
    let most = 1 << rng.range(1, 12);
    let n = if rng.one_in(4) {
        // where a narrow counter wraps
        let edge = 1usize << rng.range(4, 12);
        (edge + rng.below(3)).saturating_sub(1).min(cap).max(1)
    } else {
        rng.range(1, most.min(cap).max(1))
    };
    let d = n.min(520);
    let k = *rng.pick(&["0", "1", "2.5", "x", "y", "z"]);
    let sep = *rng.pick(&["+", "-", "*"]);
    match rng.below(16) {
        0 => format!("{}{t}", rng.pick(&[" ", "\n", "\t", " \r\n"]).repeat(n)),
        1 => format!("{t}{}", rng.pick(&[" ", "\n", "\t", " \r\n"]).repeat(n)),
        2 => format!("{}{t}{}", "(".repeat(d), ")".repeat(d)),
        3 => format!("{}({t})", format!("{k}{sep}").repeat(n)),
        4 => format!("({t}){}", format!("{sep}{k}").repeat(n)),
        5 => format!("max({}{t})", format!("{k},").repeat(n)),
        6 => format!("sum({t}{})", format!(",{k}").repeat(n)),
        7 => format!("{}({t})", rng.pick(&["-", "+", "- ", "-+"]).repeat(d)),
        8 => format!("({t}){}", (0..n.min(100)).map(|i| format!("{sep}v{i}")).collect::<String>()),
        9 => format!("{}({t})", (0..n.min(100)).map(|i| format!("v{i}{sep}")).collect::<String>()),
        10 => format!("{}{t}{}", "abs(".repeat(d), ")".repeat(d)),
        11 => format!("{}{t}{}", format!("({k}{sep}").repeat(d), ")".repeat(d)),
        12 => format!("{}{t}{}", "(".repeat(d), format!("{sep}{k})").repeat(d)),
        13 => format!("{}{sep}({t})", "n".repeat(n)),
        14 => format!("({t}){sep}{}", "w".repeat(n)),
        _ => format!("({t}){}", "!".repeat(if rng.bool() { d.min(12) } else { d })),
    }
}

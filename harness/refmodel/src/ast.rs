//! Abstract syntax of the reference model.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un {
    Plus,
    Minus,
    Fact,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Pow,
}

/// The body of a function: a built-in or an entry of [`USER`].
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Body {
    Builtin(&'static str),
    User(usize),
    /// Body supplied by the monitor (an index it understands).
    Ext(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Func {
    pub name: String,
    pub body: Body,
    pub arity: Option<usize>,
}

#[derive(Clone, Debug)]
pub enum Ast {
    Num(f64),
    Var(String),
    Un(Un, Box<Ast>),
    Bin(Bin, Box<Ast>, Box<Ast>),
    Call(Func, Vec<Ast>),
}

#[derive(Clone, Debug)]
pub enum Sym {
    Const(f64),
    Func(Func),
}

/// What a context defines.
#[derive(Clone, Debug, Default)]
pub struct RefCtx {
    pub syms: BTreeMap<String, Sym>,
    pub expected: Option<BTreeSet<String>>,
}

/// Built-in functions and their arities.
pub const BUILTINS: &[(&str, Option<usize>)] = &[
    ("sin", Some(1)),
    ("sinh", Some(1)),
    ("asin", Some(1)),
    ("asinh", Some(1)),
    ("cos", Some(1)),
    ("cosh", Some(1)),
    ("acos", Some(1)),
    ("acosh", Some(1)),
    ("tan", Some(1)),
    ("tanh", Some(1)),
    ("atan", Some(1)),
    ("atan2", Some(2)),
    ("atanh", Some(1)),
    ("ln", Some(1)),
    ("log", Some(1)),
    ("logn", Some(2)),
    ("sqrt", Some(1)),
    ("cbrt", Some(1)),
    ("exp", Some(1)),
    ("abs", Some(1)),
    ("floor", Some(1)),
    ("ceil", Some(1)),
    ("round", Some(1)),
    ("trunc", Some(1)),
    ("sum", None),
    ("mean", None),
    ("invert", Some(1)),
    ("recip", Some(1)),
    ("min", None),
    ("max", None),
    ("hypot", Some(2)),
    ("fract", Some(1)),
    ("gamma", Some(1)),
    ("factorial", Some(1)),
];

pub fn builtin(name: &str) -> Option<Func> {
    BUILTINS.iter().find(|(n, _)| *n == name).map(|&(n, a)| Func {
        name: n.to_owned(),
        // two names of one function
        body: Body::Builtin(if n == "invert" { "recip" } else { n }),
        arity: a,
    })
}

impl RefCtx {
    /// Context first, then built-ins; `None` is a variable.
    pub fn resolve(&self, name: &str) -> Option<Sym> {
        if let Some(s) = self.syms.get(name) {
            return Some(s.clone());
        }
        match name {
            "pi" => Some(Sym::Const(std::f64::consts::PI)),
            "e" => Some(Sym::Const(std::f64::consts::E)),
            _ => builtin(name).map(Sym::Func),
        }
    }
}

impl Ast {
    pub fn vars(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        self.visit(&mut |a| {
            if let Ast::Var(v) = a {
                s.insert(v.clone());
            }
        });
        s
    }
    pub fn visit(&self, f: &mut dyn FnMut(&Ast)) {
        f(self);
        match self {
            Ast::Num(_) | Ast::Var(_) => {},
            Ast::Un(_, a) => a.visit(f),
            Ast::Bin(_, a, b) => {
                a.visit(f);
                b.visit(f);
            },
            Ast::Call(_, args) => args.iter().for_each(|a| a.visit(f)),
        }
    }
    pub fn size(&self) -> usize {
        let mut n = 0;
        self.visit(&mut |_| n += 1);
        n
    }
    pub fn closed(&self) -> bool {
        let mut c = true;
        self.visit(&mut |a| c &= !matches!(a, Ast::Var(_)));
        c
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            Ast::Num(_) | Ast::Var(_) => 0,
            Ast::Un(_, a) => a.depth(),
            Ast::Bin(_, a, b) => a.depth().max(b.depth()),
            Ast::Call(_, args) => args.iter().map(Ast::depth).max().unwrap_or(0),
        }
    }
    /// Structural equality, sums and products being commutative, constants
    /// compared as doubles (NaN is never equal).
    pub fn same(&self, o: &Ast) -> bool {
        match (self, o) {
            (Ast::Num(a), Ast::Num(b)) => a == b,
            (Ast::Var(a), Ast::Var(b)) => a == b,
            (Ast::Un(p, a), Ast::Un(q, b)) => p == q && a.same(b),
            (Ast::Bin(p, a, b), Ast::Bin(q, c, d)) => {
                p == q
                    && ((a.same(c) && b.same(d))
                        || (matches!(p, Bin::Add | Bin::Mul) && a.same(d) && b.same(c)))
            },
            (Ast::Call(f, a), Ast::Call(g, b)) => {
                let same = match (f.body, g.body) {
                    (Body::Builtin(p), Body::Builtin(q)) => p == q,
                    _ => f == g,
                };
                same && a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
            },
            _ => false,
        }
    }
    pub fn num(v: f64) -> Ast {
        Ast::Num(v)
    }
    pub fn var(v: &str) -> Ast {
        Ast::Var(v.to_owned())
    }
    pub fn un(o: Un, a: Ast) -> Ast {
        Ast::Un(o, Box::new(a))
    }
    pub fn bin(o: Bin, a: Ast, b: Ast) -> Ast {
        Ast::Bin(o, Box::new(a), Box::new(b))
    }
}

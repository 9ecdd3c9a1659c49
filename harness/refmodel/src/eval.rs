//! Reference evaluation.
use crate::ast::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub type Env = BTreeMap<String, f64>;

extern "C" {
    fn tgamma(x: f64) -> f64;
}

static FACT: OnceLock<Vec<f64>> = OnceLock::new();
fn factorial_table() -> Vec<f64> {
    (0..=170).scan(1.0, |p, i| { *p *= if i == 0 { 1.0 } else { f64::from(i) }; Some(*p) }).collect()
}
/// Is `v` an acceptable value of n!, n being at most 170? Exact as long as n! is
/// a double, to within 1e-14 beyond.
pub fn factorial_ok(n: u32, v: f64) -> bool {
    let want = crate::big::factorial_exact(n);
    if n <= 22 { v == want } else { (v / want - 1.0).abs() <= 1e-14 }
}
/// Factorials beyond 22! are not correctly rounded: the values of the
/// implementation are the reference where they are close enough.
pub fn calibrate_factorials(of: impl Fn(f64) -> f64) {
    let mut t = factorial_table();
    for (n, p) in t.iter_mut().enumerate() {
        let v = of(n as f64);
        if factorial_ok(n as u32, v) {
            *p = v;
        }
    }
    let _ = FACT.set(t);
}

pub fn factorial(x: f64) -> f64 {
    let t = FACT.get_or_init(factorial_table);
    if x.is_nan() || x < 0.0 || (x.is_finite() && x != x.trunc()) {
        f64::NAN
    } else if x > 170.0 {
        f64::INFINITY
    } else {
        t[x as usize]
    }
}

pub fn call_builtin(name: &str, a: &[f64]) -> f64 {
    match name {
        "sin" => a[0].sin(),
        "sinh" => a[0].sinh(),
        "asin" => a[0].asin(),
        "asinh" => a[0].asinh(),
        "cos" => a[0].cos(),
        "cosh" => a[0].cosh(),
        "acos" => a[0].acos(),
        "acosh" => a[0].acosh(),
        "tan" => a[0].tan(),
        "tanh" => a[0].tanh(),
        "atan" => a[0].atan(),
        "atan2" => a[0].atan2(a[1]),
        "atanh" => a[0].atanh(),
        "ln" => a[0].ln(),
        "log" => a[0].log10(),
        "logn" => a[0].log(a[1]),
        "sqrt" => a[0].sqrt(),
        "cbrt" => a[0].cbrt(),
        "exp" => a[0].exp(),
        "abs" => a[0].abs(),
        "floor" => a[0].floor(),
        "ceil" => a[0].ceil(),
        "round" => a[0].round(),
        "trunc" => a[0].trunc(),
        "sum" => a.iter().fold(0.0, |s, x| s + x),
        "mean" => a.iter().fold(0.0, |s, x| s + x) / a.len() as f64,
        "invert" | "recip" => 1.0 / a[0],
        "min" => a.iter().fold(f64::INFINITY, |m, &x| if x < m { x } else { m }),
        "max" => a.iter().fold(f64::NEG_INFINITY, |m, &x| if x > m { x } else { m }),
        "hypot" => a[0].hypot(a[1]),
        "fract" => a[0] - a[0].trunc(),
        "gamma" => unsafe { tgamma(a[0]) },
        "factorial" => factorial(a[0]),
        _ => panic!("unknown built-in {name}"),
    }
}

/* Pure user functions, each telling its arguments and their positions apart. */
fn u_weigh(a: &[f64]) -> f64 {
    a.iter().enumerate().fold(0.5, |s, (i, x)| s + (i as f64 + 1.0) * 1.25 * x)
}
fn u_last(a: &[f64]) -> f64 {
    a.last().copied().unwrap_or(-7.5)
}
fn u_first(a: &[f64]) -> f64 {
    a.first().copied().unwrap_or(8.25)
}
fn u_count(a: &[f64]) -> f64 {
    a.len() as f64
}
fn u_horner(a: &[f64]) -> f64 {
    a.iter().fold(1.0, |s, x| s * 0.75 - x)
}
fn u_const(_: &[f64]) -> f64 {
    42.125
}
fn u_diff(a: &[f64]) -> f64 {
    a.iter().skip(1).fold(a.first().copied().unwrap_or(0.0), |s, x| s - x)
}
fn u_alt(a: &[f64]) -> f64 {
    a.iter().enumerate().fold(-0.375, |s, (i, x)| if i % 2 == 0 { s + x } else { s - 3.0 * x })
}
fn u_step(a: &[f64]) -> f64 {
    a.iter().fold(0.25, |s, x| s * 2.0 + if *x >= 0.5 { 1.0 } else { 0.0 })
}
fn u_hash(a: &[f64]) -> f64 {
    // depends on every bit of every argument (NaN payloads aside)
    let mut h = 0x1234_5678_9abc_def0u64 ^ a.len() as u64;
    for x in a {
        let b = if x.is_nan() { 0x7ff8 << 48 } else { x.to_bits() };
        h = (h ^ b).wrapping_mul(0xff51_afd7_ed55_8ccd);
        h ^= h >> 32;
    }
    (h >> 12) as f64 / (1u64 << 40) as f64
}

pub const USER: &[fn(&[f64]) -> f64] = &[
    u_weigh, u_last, u_first, u_count, u_horner, u_const, u_diff, u_alt, u_step, u_hash,
];

pub fn un(o: Un, v: f64) -> f64 {
    match o {
        Un::Plus => v,
        Un::Minus => -v,
        Un::Fact => factorial(v),
    }
}
pub fn bin(o: Bin, a: f64, b: f64) -> f64 {
    match o {
        Bin::Add => a + b,
        Bin::Sub => a - b,
        Bin::Mul => a * b,
        Bin::Div => a / b,
        Bin::Rem => a % b,
        Bin::Pow => a.powf(b),
    }
}

pub struct Ev<'a> {
    pub env: &'a Env,
    /// Every (sub)value was finite so far.
    pub finite: bool,
    /// Zero results of inner nodes met so far.
    pub zeros: usize,
    /// Signs to flip on those zeros (bit i % 64 for the i-th).
    pub flips: u64,
    /// Only count (and flip) zeros whose sign the documentation leaves open:
    /// results of min, max, sum and mean.
    pub sloppy_only: bool,
    pub ext: Option<&'a dyn Fn(usize, &[f64]) -> f64>,
    /// Positive and negative zeros met among constants and variables.
    pub leaf_zeros: [bool; 2],
    /// Sign to give to those zeros.
    pub leaf_sign: Option<bool>,
}

impl<'a> Ev<'a> {
    pub fn new(env: &'a Env, ext: Option<&'a dyn Fn(usize, &[f64]) -> f64>) -> Self {
        Ev { env, finite: true, zeros: 0, flips: 0, sloppy_only: false, ext, leaf_zeros: [false; 2], leaf_sign: None }
    }
    fn leaf(&mut self, v: f64) -> f64 {
        self.finite &= v.is_finite();
        if v == 0.0 {
            self.leaf_zeros[usize::from(v.is_sign_negative())] = true;
            if let Some(minus) = self.leaf_sign {
                return if minus { -0.0 } else { 0.0 };
            }
        }
        v
    }
}

impl Ev<'_> {
    pub fn go(&mut self, a: &Ast) -> Option<f64> {
        let v = match a {
            Ast::Num(n) => return Some(self.leaf(*n)),
            Ast::Var(n) => {
                let v = *self.env.get(n)?;
                return Some(self.leaf(v));
            },
            Ast::Un(o, a) => un(*o, self.go(a)?),
            Ast::Bin(o, a, b) => {
                let x = self.go(a)?;
                let y = self.go(b)?;
                bin(*o, x, y)
            },
            Ast::Call(f, args) => {
                let mut vs = Vec::with_capacity(args.len());
                for a in args {
                    vs.push(self.go(a)?);
                }
                match f.body {
                    Body::Builtin(n) => call_builtin(n, &vs),
                    Body::User(i) => USER[i](&vs),
                    Body::Ext(i) => (self.ext.expect("no external bodies"))(i, &vs),
                }
            },
        };
        self.finite &= v.is_finite();
        if v == 0.0 && (!self.sloppy_only || sloppy(a)) {
            let i = self.zeros;
            self.zeros += 1;
            if self.flips >> (i % 64) & 1 == 1 {
                return Some(-v);
            }
        }
        Some(v)
    }
}

pub fn eval(a: &Ast, env: &Env) -> Option<f64> {
    eval_ext(a, env, None)
}
pub fn eval_ext(a: &Ast, env: &Env, ext: Option<&dyn Fn(usize, &[f64]) -> f64>) -> Option<f64> {
    Ev::new(env, ext).go(a)
}

fn sloppy(a: &Ast) -> bool {
    matches!(a, Ast::Call(Func { body: Body::Builtin("min" | "max" | "sum" | "mean"), .. }, _))
}

/// Is `got` the exact value of the expression (zeros told apart, except where
/// the documentation of min, max, sum and mean leaves their sign open)?
pub fn exact_ok(a: &Ast, env: &Env, got: f64) -> bool {
    exact_ok_ext(a, env, got, None)
}
pub fn exact_ok_ext(
    a: &Ast,
    env: &Env,
    got: f64,
    ext: Option<&dyn Fn(usize, &[f64]) -> f64>,
) -> bool {
    let mut e = Ev { sloppy_only: true, ..Ev::new(env, ext) };
    let Some(v) = e.go(a) else { return false };
    if bits_eq(v, got) {
        return true;
    }
    let k = e.zeros.min(8);
    (1..1u64 << k).any(|flips| {
        let mut f = Ev { flips, sloppy_only: true, ..Ev::new(env, ext) };
        f.go(a).is_some_and(|w| bits_eq(w, got))
    })
}

/// Same double (NaN equal to NaN, zeros told apart).
pub fn bits_eq(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// Same double up to the sign of a zero.
pub fn zero_eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// The value of the expression when every subexpression is finite and the value
/// does not depend on the signs of zero intermediate results; `None` otherwise.
pub fn robust_eval(a: &Ast, env: &Env) -> Option<f64> {
    robust_eval_ext(a, env, None)
}
pub fn robust_eval_ext(
    a: &Ast,
    env: &Env,
    ext: Option<&dyn Fn(usize, &[f64]) -> f64>,
) -> Option<f64> {
    robust(a, env, ext, false)
}
/// The same for expressions in which the signs of zero constants and values do
/// not matter either.
pub fn signless_eval(a: &Ast, env: &Env) -> Option<f64> {
    robust(a, env, None, true)
}
fn robust(
    a: &Ast,
    env: &Env,
    ext: Option<&dyn Fn(usize, &[f64]) -> f64>,
    all_zeros: bool,
) -> Option<f64> {
    let mut e = Ev::new(env, ext);
    let v = e.go(a)?;
    if !e.finite {
        return None;
    }
    let k = e.zeros;
    if k > 0 {
        let tries: Vec<u64> = if k <= 4 {
            (1..1u64 << k).collect()
        } else {
            let mut s = 0x5eed ^ k as u64;
            let mut t: Vec<u64> = (0..14).map(|_| crate::rng::splitmix(&mut s)).collect();
            t.push(u64::MAX);
            t.push(1);
            t
        };
        for flips in tries {
            let mut f = Ev { flips, ..Ev::new(env, ext) };
            let w = f.go(a)?;
            if !f.finite || !zero_eq(v, w) {
                return None;
            }
        }
    }
    // zeros of both signs are equal constants
    if e.leaf_zeros == [true; 2] || (all_zeros && e.leaf_zeros != [false; 2]) {
        for (minus, flips) in [(false, 0), (true, 0), (false, u64::MAX), (true, u64::MAX)] {
            let mut f = Ev { flips, leaf_sign: Some(minus), ..Ev::new(env, ext) };
            let w = f.go(a)?;
            if !f.finite || !zero_eq(v, w) {
                return None;
            }
        }
    }
    Some(v)
}

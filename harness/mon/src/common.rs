//! Machinery shared by the monitors: case runner, contexts, instrumentation.
use refmodel::gen::*;
use refmodel::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;
use xprs::{Context, Function, Parser, Xprs};

pub const MODE: Mode = if cfg!(feature = "pejmdas") { Mode::Pejmdas } else { Mode::Pemdas };
pub const OPT: bool = cfg!(feature = "opt");

/* Counting allocator */

pub struct Counting;
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE_BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        ALLOCS.fetch_add(1, Relaxed);
        System.realloc(p, l, n)
    }
}

/* Panics are observations, not output */

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
/// Payload of the panics injected by monitors.
pub struct Injected;

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(Cell::get) {
            if info.payload().is::<Injected>() {
                return;
            }
            let s = info.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = s);
        } else {
            default(info);
        }
    }));
}
/// Runs `f`; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|p| {
        if p.is::<Injected>() {
            "injected panic".to_owned()
        } else {
            LAST_PANIC.with(|l| l.borrow().replace('\n', " "))
        }
    })
}

/// Releases what is remembered of the last panic.
pub fn forget_panics() {
    LAST_PANIC.with(|l| *l.borrow_mut() = String::new());
}

/* Runner */

#[derive(Clone)]
pub struct Opts {
    pub seed: u64,
    pub config: String,
    pub scale: f64,
    pub only: Option<(String, u64)>,
    pub trace: Option<String>,
    pub budget_s: f64,
    /// Only every n-th item of fixed ranges (for slow interpreters).
    pub stride: u64,
}

pub struct Violation {
    pub stream: String,
    pub idx: u64,
    pub msg: String,
}

pub struct Runner {
    pub o: Opts,
    pub prop: &'static str,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub truncated: bool,
    pub start: Instant,
    pub notes: BTreeMap<String, String>,
    trace_file: Option<std::fs::File>,
}

/* Watchdog: a case that makes no progress */

pub static CASE_SEQ: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: Mutex<(String, u64)> = Mutex::new((String::new(), 0));

pub fn cpu_seconds() -> f64 {
    // CLOCK_PROCESS_CPUTIME_ID
    clock(2)
}
/// Processor time of this thread.
pub fn thread_cpu() -> f64 {
    // CLOCK_THREAD_CPUTIME_ID
    clock(3)
}
fn clock(id: i32) -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(id, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}
/// Ends the process with a report when one case used `cpu_limit` seconds of
/// processor time, or when nothing at all happens for a long time.
pub fn watchdog(prop: String, config: String, seed: u64, cpu_limit: f64, out: Option<String>) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let (mut cpu0, mut wall0) = (0.0, Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(300));
            let now = CASE_SEQ.load(Relaxed);
            let cpu = cpu_seconds();
            if now != last {
                last = now;
                cpu0 = cpu;
                wall0 = Instant::now();
                continue;
            }
            let used = cpu - cpu0;
            let stuck = wall0.elapsed().as_secs_f64() > 100.0 && used < 2.0;
            if used < cpu_limit && !stuck {
                continue;
            }
            let (stream, idx) = CURRENT.lock().unwrap_or_else(std::sync::PoisonError::into_inner).clone();
            let msg = if stuck { "blocked: no progress and no processor use for 100 s".to_owned() } else { format!("still running after {used:.0} s of processor time") };
            let rep = format!(
                "{{\"property\":{},\"config\":{},\"seed\":{seed},\"evaluations\":{now},\"distinct\":0,\"truncated\":true,\"seconds\":0,\"classes\":{{}},\"notes\":{{}},\"samples\":[],\"violations\":[{{\"stream\":{},\"idx\":{idx},\"msg\":{}}}]}}",
                json_str(&prop),
                json_str(&config),
                json_str(&stream),
                json_str(&msg)
            );
            match &out {
                Some(p) => std::fs::write(p, rep).expect("report"),
                None => println!("{rep}"),
            }
            std::process::exit(1);
        }
    });
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Case {
    pub desc: String,
    pub hashes: Vec<u64>,
    pub classes: Vec<&'static str>,
    pub observed: u64,
}
impl Case {
    /// The case was non-trivial; `key` identifies it.
    pub fn nontrivial(&mut self, key: &str) {
        self.hashes.push(refmodel::rng::hash_bytes(0, key.as_bytes()));
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    /// One comparison of an observation with the oracle.
    pub fn obs(&mut self) {
        self.observed += 1;
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

impl Runner {
    pub fn new(prop: &'static str, o: Opts) -> Self {
        let trace_file = o.trace.as_ref().map(|p| std::fs::File::create(p).expect("trace file"));
        Self {
            o,
            prop,
            evals: 0,
            distinct: HashSet::new(),
            classes: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            truncated: false,
            start: Instant::now(),
            notes: BTreeMap::new(),
            trace_file,
        }
    }
    pub fn class(&mut self, c: &str, n: u64) {
        *self.classes.entry(c.to_owned()).or_default() += n;
    }
    fn stop(&mut self) -> bool {
        if self.violations.len() >= 5 {
            return true;
        }
        if self.start.elapsed().as_secs_f64() > self.o.budget_s {
            self.truncated = true;
            return true;
        }
        false
    }
    /// Runs `n` (scaled) random cases; each case has its own generator, so it
    /// can be replayed alone.
    pub fn random(&mut self, stream: &str, n: usize, mut f: impl FnMut(&mut Rng, &mut Case) -> Res) {
        let n = ((n as f64 * self.o.scale).ceil() as u64).max(1);
        let salt = format!("{}|{}|{}|{}", self.o.seed, self.prop, stream, self.o.config);
        let base = refmodel::rng::hash_bytes(0, salt.as_bytes());
        self.all(stream, 0..n, 1, |i, c| {
            let mut rng = Rng::new(base ^ i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
            f(&mut rng, c)
        });
    }
    /// Runs every item of a fixed range.
    pub fn each(&mut self, stream: &str, range: std::ops::Range<u64>, f: impl FnMut(u64, &mut Case) -> Res) {
        self.all(stream, range, self.o.stride, f);
    }
    fn all(&mut self, stream: &str, range: std::ops::Range<u64>, stride: u64, mut f: impl FnMut(u64, &mut Case) -> Res) {
        if let Some((s, i)) = &self.o.only {
            if s == stream {
                let i = *i;
                self.one(stream, i, &mut f);
            }
            return;
        }
        // to work on the monitors: only the streams whose name holds this
        if std::env::var("MON_STREAM").is_ok_and(|f| !stream.contains(&f)) {
            return;
        }
        let from = range.start + if stride > 1 { self.o.seed % stride.min(range.end - range.start).max(1) } else { 0 };
        for i in (from..range.end).step_by(stride as usize) {
            if (i % 64 == 0 || cfg!(miri)) && self.stop() {
                return;
            }
            self.one(stream, i, &mut f);
            if self.violations.len() >= 5 {
                return;
            }
        }
    }
    fn one(&mut self, stream: &str, i: u64, f: &mut dyn FnMut(u64, &mut Case) -> Res) {
        CASE_SEQ.fetch_add(1, Relaxed);
        if let Ok(mut g) = CURRENT.lock() {
            if g.0 != stream {
                stream.clone_into(&mut g.0);
            }
            g.1 = i;
        }
        if let Some(t) = &mut self.trace_file {
            use std::os::unix::fs::FileExt;
            let line = format!("{stream}#{i}\n                                                        \n");
            let _ = t.write_all_at(line.as_bytes(), 0);
        }
        let mut c = Case::default();
        let r = guard(|| f(i, &mut c));
        self.evals += 1;
        self.class(stream, 1);
        self.class("observations", c.observed);
        for k in &c.classes {
            self.class(k, 1);
        }
        let fresh = !c.hashes.is_empty();
        for h in c.hashes {
            self.distinct.insert(h);
        }
        if fresh && !c.desc.is_empty() && self.samples.len() < 40 && (self.evals % 97 == 1 || self.samples.len() < 4) {
            self.samples.push(format!("[{stream} {i}] {}", short(&c.desc)));
        }
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => format!("panic: {p}"),
        };
        self.violations.push(Violation {
            stream: stream.to_owned(),
            idx: i,
            msg: format!("{msg} | case: {}", c.desc),
        });
    }
    /// The hashes of the distinct non-trivial cases, as little-endian words.
    pub fn hash_file(&self) -> Vec<u8> {
        self.distinct.iter().flat_map(|h| h.to_le_bytes()).collect()
    }
    pub fn report(&self) -> String {
        let mut s = String::new();
        let j = json_str;
        s.push_str(&format!(
            "{{\"property\":{},\"config\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"truncated\":{},\"seconds\":{:.2},\"classes\":{{",
            j(self.prop),
            j(&self.o.config),
            self.o.seed,
            self.evals,
            self.distinct.len(),
            self.truncated,
            self.start.elapsed().as_secs_f64()
        ));
        s.push_str(&self.classes.iter().map(|(k, v)| format!("{}:{v}", j(k))).collect::<Vec<_>>().join(","));
        s.push_str("},\"notes\":{");
        s.push_str(&self.notes.iter().map(|(k, v)| format!("{}:{}", j(k), j(v))).collect::<Vec<_>>().join(","));
        s.push_str("},\"samples\":[");
        s.push_str(&self.samples.iter().map(|x| j(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"violations\":[");
        s.push_str(
            &self
                .violations
                .iter()
                .map(|v| {
                    format!("{{\"stream\":{},\"idx\":{},\"msg\":{}}}", j(&v.stream), v.idx, j(&long(&v.msg)))
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("]}");
        s
    }
}

fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_owned();
    }
    let mut t: String = s.chars().take(n).collect();
    t.push_str(&format!("… ({} bytes)", s.len()));
    t
}
pub fn short(s: &str) -> String {
    cut(s, 160)
}
pub fn long(s: &str) -> String {
    cut(s, 3000)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/* Names with static lifetime */

pub fn intern(s: &str) -> &'static str {
    static T: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut g = T.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_owned().into_boxed_str());
    m.insert(s.to_owned(), l);
    l
}

/* Contexts of the crate under test, built from the model's */

pub fn mk_fn(name: &str, body: Body, arity: Option<usize>, dynamic: bool) -> Function {
    let Body::User(i) = body else { panic!("no such body here") };
    let name = intern(name);
    let ar = arity.map(|a| u8::try_from(a).expect("arity fits"));
    if dynamic {
        Function::new_dyn(name, move |a: &[f64]| USER[i](a), ar)
    } else {
        Function::new_static(name, USER[i], ar)
    }
}

pub fn mk_ctx(rc: &RefCtx, dyn_bits: u64) -> Context<'static> {
    let mut ctx = Context::default();
    for (i, (n, s)) in rc.syms.iter().enumerate() {
        match s {
            Sym::Const(v) => ctx.set_var(intern(n), *v),
            Sym::Func(f) => ctx.set_fn(mk_fn(&f.name, f.body, f.arity, dyn_bits >> (i % 64) & 1 == 1)),
        }
    }
    if let Some(e) = &rc.expected {
        ctx.set_expected_vars(e.iter().map(|n| intern(n)).collect());
    }
    ctx
}

pub struct World {
    pub names: Names,
    pub rc: RefCtx,
    pub parser: Parser<'static>,
}

impl World {
    pub fn plain(rng: &mut Rng, nvars: usize) -> Self {
        World { names: Names::plain(nvars, rng), rc: RefCtx::default(), parser: Parser::default() }
    }
    /// Default context half of the time, random definitions otherwise.
    pub fn random(rng: &mut Rng) -> Self {
        let nvars = if rng.one_in(15) { rng.range(5, 40) } else { rng.range(0, 4) };
        let mut names = Names::plain(nvars, rng);
        for _ in 0..if rng.one_in(10) { rng.range(1, 4) } else { 0 } {
            let n = word(rng);
            if rng.bool() {
                // and one that differs in one place
                let mut b = n.clone().into_bytes();
                let at = if rng.bool() { b.len() - 1 } else { rng.below(b.len()) };
                b[at] = *rng.pick(b"xyzXYZ");
                let twin = String::from_utf8(b).expect("ascii");
                if twin != n && RefCtx::default().resolve(&twin).is_none() {
                    names.vars.push(twin);
                }
            }
            names.vars.push(n);
        }
        if rng.bool() {
            return World { names, rc: RefCtx::default(), parser: Parser::default() };
        }
        let rc = gen_ctx(rng, &mut names);
        let ctx = mk_ctx(&rc, rng.u64());
        World { names, rc, parser: Parser::new_with_ctx(ctx) }
    }
    pub fn gen(&self, shapes: usize, calls: usize) -> Gen<'_> {
        Gen { names: &self.names, shapes, calls, fact: 40, var_leaves: 60 }
    }
    pub fn desc_ctx(&self) -> String {
        if self.rc.syms.is_empty() && self.rc.expected.is_none() {
            return String::new();
        }
        let mut s = String::from(" with ");
        for (n, v) in &self.rc.syms {
            match v {
                Sym::Const(c) => s.push_str(&format!("{n}={c:?} ")),
                Sym::Func(f) => s.push_str(&format!("{n}/{:?}={:?} ", f.arity, f.body)),
            }
        }
        if let Some(e) = &self.rc.expected {
            s.push_str(&format!("expecting {e:?}"));
        }
        s
    }
}

pub fn vmap(env: &Env) -> HashMap<&str, f64> {
    env.iter().map(|(k, v)| (k.as_str(), *v)).collect()
}

/* Every way to ask for the value of an expression */

pub const FORMS: [&str; 6] = ["evaluation", "unchecked evaluation", "runtime binding", "binding", "evaluation without variables", "evaluation of a clone"];

/// The value by one of [`FORMS`].
pub fn value_in(form: usize, x: &Xprs<'_>, m: &HashMap<&str, f64>) -> Result<f64, String> {
    let err = |e: &dyn std::fmt::Display| format!("{}: {e}", FORMS[form]);
    let mut vars: Vec<&str> = x.vars.iter().copied().collect();
    vars.sort_unstable();
    if m.len() % 2 == 1 {
        vars.reverse();
    }
    let get = || -> Result<Vec<f64>, String> { vars.iter().map(|v| m.get(v).copied().ok_or_else(|| format!("{v} has no value"))).collect() };
    Ok(match form {
        0 => x.eval(m).map_err(|e| err(&e))?,
        1 => x.eval_unchecked(m),
        2 => {
            let a = get()?;
            let f = x.clone().bind_n_runtime(&vars).map_err(|e| err(&e))?;
            let v = f(&a).map_err(|e| err(&e))?;
            v
        },
        3 => {
            let a = get()?;
            let y = x.clone();
            let b = |e: xprs::BindError| err(&e);
            match vars[..] {
                [p] => y.bind(p).map_err(b)?(a[0]),
                [p, q] => y.bind2(p, q).map_err(b)?(a[0], a[1]),
                [p, q, r] => y.bind3(p, q, r).map_err(b)?(a[0], a[1], a[2]),
                [p, q, r, s] => y.bind_n([p, q, r, s]).map_err(b)?([a[0], a[1], a[2], a[3]]),
                [p, q, r, s, t] => y.bind5(p, q, r, s, t).map_err(b)?(a[0], a[1], a[2], a[3], a[4]),
                _ => x.eval(m).map_err(|e| err(&e))?,
            }
        },
        4 if vars.is_empty() => {
            let v = x.eval_no_vars().map_err(|e| err(&e))?;
            let w = x.eval_no_vars_unchecked();
            if !bits_eq(v, w) {
                return Err(format!("evaluation without variables gives {} checked and {} unchecked", fval(v), fval(w)));
            }
            v
        },
        _ => x.clone().eval(m).map_err(|e| err(&e))?,
    })
}

/// The value by evaluation, with which the other forms have to agree (binding
/// is tried for part of the values only).
pub fn ev(x: &Xprs<'_>, m: &HashMap<&str, f64>) -> Result<f64, String> {
    let v = value_in(0, x, m)?;
    let mut h = v.to_bits();
    h = (h ^ (h >> 29)).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 61;
    for form in 1..FORMS.len() {
        if form == 1 || (form == 4 && x.vars.is_empty()) || h as usize == form {
            let w = value_in(form, x, m)?;
            if !bits_eq(v, w) {
                return Err(format!("{} gives {} but evaluation {}", FORMS[form], fval(w), fval(v)));
            }
        }
    }
    Ok(v)
}

pub fn fval(v: f64) -> String {
    format!("{v:e} ({:#018x})", v.to_bits())
}

/// Is `got` right for this expression? In configurations that optimise, closed
/// expressions must be exact, others only where optimisations promise it.
/// `None`: nothing to compare with.
pub fn judge(ast: &Ast, env: &Env, got: f64) -> Option<Res> {
    if !OPT || ast.closed() {
        if exact_ok(ast, env, got) {
            return Some(Ok(()));
        }
        let want = eval(ast, env).unwrap_or(f64::NAN);
        return Some(Err(format!("value is {} but should be {} for {env:?}", fval(got), fval(want))));
    }
    let want = robust_eval(ast, env)?;
    Some(if zero_eq(want, got) {
        Ok(())
    } else {
        Err(format!("value is {} but should be {} for {env:?}", fval(got), fval(want)))
    })
}

/// Environments in which the expression is robustly finite, if any are found.
pub fn good_envs(ast: &Ast, rng: &mut Rng, want: usize, tries: usize) -> Vec<(Env, f64)> {
    let vars = ast.vars();
    let mut out: Vec<(Env, f64)> = vec![];
    for t in 0..tries {
        let e = refmodel::gen::env(rng, &vars, if t % 3 == 2 { 20 } else { 0 });
        if let Some(v) = robust_eval(ast, &e) {
            out.push((e, v));
            if out.len() >= want || vars.is_empty() {
                break;
            }
        }
    }
    out
}

/// Debug form of an expression, independent of the order of its variable set.
pub fn dbg_of(x: &Xprs) -> String {
    let mut v: Vec<_> = x.vars.iter().copied().collect();
    v.sort_unstable();
    format!("{:?} {v:?}", x.root)
}

/// A random expression text: random tree, random parentheses and spacing.
pub fn text_of(w: &World, rng: &mut Rng, max: usize, shapes: usize, calls: usize) -> String {
    let b = if rng.one_in(60) { rng.range(max, max * 8) } else { rng.range(1, max) };
    let g = w.gen(shapes, calls);
    let mut s = g.syn(rng, b);
    if rng.one_in(80) {
        // deep as well
        for _ in 0..rng.range(8, 90) {
            let f = rng.pick(&["abs", "sin", "cos", "atan"]).to_string();
            let known = w.names.funcs.iter().any(|(n, a)| *n == f && *a == Some(1));
            s = match rng.below(5) {
                0 => Syn::Un(Un::Minus, Box::new(s)),
                1 if known => Syn::Call(f, vec![s]),
                2 => Syn::Bin(Bin::Add, Box::new(g.leaf(rng)), Box::new(s), false),
                3 => Syn::Bin(Bin::Sub, Box::new(s), Box::new(g.leaf(rng)), false),
                _ => Syn::Bin(Bin::Mul, Box::new(s), Box::new(g.leaf(rng)), true),
            };
        }
    }
    let p = match rng.below(3) {
        0 => Parens::Full,
        1 => Parens::Some(50),
        _ => Parens::Some(12),
    };
    refmodel::gen::render(&s, p, rng)
}

/* Command line of the monitor programs */

pub type Monitor = (&'static str, fn(&mut Runner));

pub fn run_main(monitors: &[Monitor], prepare: Option<&dyn Fn()>) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let mut o = Opts { seed: 1, config: "none".into(), scale: 1.0, only: None, trace: None, budget_s: 1e9, stride: 1 };
    let mut out = None;
    let mut hashes: Option<String> = None;
    let mut cpu_limit = 40.0;
    let mut i = 2;
    while i + 1 < args.len() {
        let v = args[i + 1].clone();
        match args[i].as_str() {
            "--seed" => o.seed = v.parse().expect("seed"),
            "--config" => o.config = v,
            "--scale" => o.scale = v.parse().expect("scale"),
            "--budget" => o.budget_s = v.parse().expect("budget"),
            "--stride" => o.stride = v.parse().expect("stride"),
            "--trace" => o.trace = Some(v),
            "--out" => out = Some(v),
            "--hashes" => hashes = Some(v),
            "--case-cpu" => cpu_limit = v.parse().expect("seconds"),
            "--only" => {
                let (s, k) = v.rsplit_once('#').expect("stream#index");
                o.only = Some((s.to_owned(), k.parse().expect("index")));
            },
            other => panic!("unknown option {other}"),
        }
        i += 2;
    }
    install_hook();
    if !cfg!(miri) {
        // takes an interpreter half a minute
        if let Some(f) = prepare {
            f();
        }
        watchdog(prop.clone(), o.config.clone(), o.seed, cpu_limit, out.clone());
    }
    let (name, f) = *monitors.iter().find(|m| m.0 == prop).unwrap_or_else(|| panic!("unknown property {prop}"));
    // deep enough that only the families recorded as findings can exhaust it
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut r = Runner::new(name, o);
        f(&mut r);
        let rep = r.report();
        if let Some(p) = hashes {
            std::fs::write(p, r.hash_file()).expect("hashes");
        }
        match out {
            Some(p) => std::fs::write(p, rep).expect("report"),
            None => println!("{rep}"),
        }
        r.violations.len()
    });
    let n = t.expect("thread").join().expect("monitor failed");
    i32::from(n > 0)
}

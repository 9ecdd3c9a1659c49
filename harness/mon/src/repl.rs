//! Monitor of REPL sessions: C18. Drives the program named by XPRS_REPL over
//! pipes, as a user would.
use crate::common::*;
use crate::ensure;
use miette::Diagnostic;
use refmodel::gen::*;
use refmodel::*;
use std::collections::{BTreeSet, HashMap};
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, Command, ExitStatus, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};
use xprs::Parser;

const PATIENCE: Duration = Duration::from_secs(30);
const PROMPT: &str = ">> ";

struct Repl {
    child: Child,
    input: Option<ChildStdin>,
    out: Receiver<Vec<u8>>,
    /// Output not consumed yet.
    buf: Vec<u8>,
    ended: bool,
}
impl Drop for Repl {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Repl {
    fn start() -> Result<Self, String> {
        let bin = std::env::var("XPRS_REPL").map_err(|_| "XPRS_REPL is not set")?;
        let mut child = Command::new(bin)
            .env_clear()
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("cannot start the REPL: {e}"))?;
        let mut o = child.stdout.take().ok_or("no output")?;
        let (tx, out) = channel();
        std::thread::spawn(move || {
            let mut b = vec![0; 1 << 16];
            let mut all = 0;
            while let Ok(n) = o.read(&mut b) {
                all += n;
                // a REPL that floods its output is stopped
                if n == 0 || all > 100 << 20 || tx.send(b[..n].to_vec()).is_err() {
                    break;
                }
            }
        });
        let input = child.stdin.take();
        Ok(Repl { child, input, out, buf: vec![], ended: false })
    }
    fn send(&mut self, s: &str) {
        if let Some(i) = &mut self.input {
            // a REPL that is gone is noticed by what it does not answer
            let _ = i.write_all(s.as_bytes());
            let _ = i.flush();
        }
    }
    fn close(&mut self) {
        self.input = None;
    }
    /// Reads until the last line of the output satisfies `f`, or its end.
    fn until(&mut self, f: &dyn Fn(&str) -> bool) -> Result<(), String> {
        let t = Instant::now();
        loop {
            let last = self.buf.iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
            if std::str::from_utf8(&self.buf[last..]).is_ok_and(f) {
                return Ok(());
            }
            if self.ended {
                return Err(format!("the session ended instead of going on; last output {:?}", self.tail()));
            }
            match self.out.recv_timeout(PATIENCE.saturating_sub(t.elapsed())) {
                Ok(b) => self.buf.extend(b),
                Err(RecvTimeoutError::Timeout) => return Err(format!("no answer in {PATIENCE:?}; last output {:?}", self.tail())),
                Err(RecvTimeoutError::Disconnected) => self.ended = true,
            }
            if self.buf.len() > 50 << 20 {
                return Err(format!("endless output: {:?}", self.tail()));
            }
        }
    }
    fn take(&mut self) -> Result<String, String> {
        String::from_utf8(std::mem::take(&mut self.buf)).map_err(|_| "the output is not UTF-8".into())
    }
    fn tail(&self) -> String {
        let s = String::from_utf8_lossy(&self.buf);
        s.chars().rev().take(120).collect::<Vec<_>>().into_iter().rev().collect()
    }
    /// The rest of the output and how it ended.
    fn finish(&mut self) -> Result<(String, ExitStatus), String> {
        let t = Instant::now();
        while !self.ended {
            match self.out.recv_timeout(PATIENCE.saturating_sub(t.elapsed())) {
                Ok(b) => self.buf.extend(b),
                Err(RecvTimeoutError::Timeout) => return Err(format!("the session does not end; last output {:?}", self.tail())),
                Err(RecvTimeoutError::Disconnected) => self.ended = true,
            }
        }
        let t = Instant::now();
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return Ok((self.take()?, s));
            }
            if self.buf.len() > 50 << 20 || t.elapsed() > PATIENCE {
                return Err(format!("the session does not end; last output {:?}", self.tail()));
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
}

/* What is expected */

fn letters(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect()
}
struct Asked {
    rng: Rng,
}
impl Asked {
    fn answer(&mut self) -> (String, f64) {
        let v = match self.rng.below(8) {
            0 => value(&mut self.rng, 30),
            1 => self.rng.below(10) as f64,
            _ => nice(&mut self.rng),
        };
        let s = match self.rng.below(5) {
            0 => format!("{v:e}"),
            1 => format!("  {v} \t"),
            2 if v.is_sign_positive() && !v.is_nan() => format!("+{v}"),
            3 => format!("{v:?}"),
            _ => format!("{v}"),
        };
        let v = s.trim().parse().unwrap_or(f64::NAN);
        (s, v)
    }
}
fn after<'a>(reply: &'a str, label: &str) -> Result<&'a str, String> {
    // labels start a line, or follow the questions
    let at = reply.find(label).ok_or_else(|| format!("no {label:?} in {:?}", short(reply)))?;
    reply[at + label.len()..].split('\n').next().ok_or_else(|| "no line".to_owned())
}
fn same_value(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// The answer to an accepted line, up to the questions.
fn head(reply: &str, x: &xprs::Xprs) -> Res {
    let shown = after(reply, "Interpreted as: ")?;
    ensure!(shown == x.to_string(), "interpreted as {shown:?} instead of {x}");
    let listed = after(reply, "Variables: ")?;
    let inner = listed.trim().strip_prefix('{').and_then(|l| l.strip_suffix('}')).ok_or_else(|| format!("variables are listed as {listed:?}"))?;
    let names: Vec<&str> = inner.split(", ").filter(|s| !s.is_empty()).map(|s| s.trim_matches('"')).collect();
    let set: BTreeSet<&str> = names.iter().copied().collect();
    ensure!(set.len() == names.len() && set == x.vars.iter().copied().collect(), "variables {listed} instead of {:?}", x.vars);
    Ok(())
}
fn diagnostic(reply: &str, e: &xprs::ParseError, line: &str) -> Res {
    let got = letters(reply);
    for (what, s) in [("message", e.to_string()), ("help", e.help().map(|h| h.to_string()).unwrap_or_default())] {
        ensure!(got.contains(&letters(&s)), "the {what} of the error is {s:?} but the answer is {:?}", short(reply));
    }
    // the text is shown, unless it is too long for the width
    if line.len() < 60 && !line.contains(['\u{b}', '\u{c}', '\0', '\r']) && line.chars().all(|c| c.is_ascii()) {
        ensure!(got.contains(&letters(line)), "the diagnostic does not show the line: {:?}", short(reply));
    }
    ensure!(!reply.contains("Interpreted as") && !reply.contains("Evaluated"), "a rejected line is evaluated: {:?}", short(reply));
    Ok(())
}

fn value_of(line: &str, x: &xprs::Xprs, env: &HashMap<&str, f64>, reply: &str, c: &mut Case) -> Res {
    let shown = after(reply, "Evaluated: ")?;
    let got: f64 = shown.trim().parse().map_err(|_| format!("evaluated as {shown:?}"))?;
    let want = x.eval(env).map_err(|e| e.to_string())?;
    ensure!(same_value(got, want), "evaluated as {shown} instead of {want:?} for {env:?}");
    ensure!(reply.matches("Evaluated: ").count() == 1, "evaluated several times");
    // and by the reference
    if let Ok(ast) = parse(line.trim_end_matches(['\n', '\r']), &RefCtx::default(), MODE) {
        let e: Env = env.iter().map(|(k, v)| ((*k).to_owned(), *v)).collect();
        if let Some(r) = judge(&ast, &e, got) {
            r?;
            c.class("values compared with the reference");
        }
    }
    Ok(())
}

fn line(rng: &mut Rng, names: &Names) -> String {
    let g = Gen { names, shapes: 15, calls: 25, fact: 20, var_leaves: 60 };
    let b = rng.range(1, 12);
    let s = g.syn(rng, b);
    let t = render(&s, if rng.bool() { Parens::Full } else { Parens::Some(20) }, rng);
    let t = match rng.below(12) {
        0..=2 => mutate(rng, &t, names),
        3 => soup(rng, names, 8),
        4 => (*rng.pick(&["", " ", "\t", "exit+1", "exits", "Exit", "EXIT", "e xit", "(exit)", "exit x", "x", "é", "2é", "😀+1", "quit", "1/0", "0/0", "x/y", "1e999", "-0", "e", "max()", "sin", "x!!y"])).to_owned(),
        5 if rng.bool() => {
            // what other programs take for commands or definitions
            const WORDS: &[&str] = &[
                "help", "quit", "q", "bye", "stop", "end", "clear", "cls", "reset", "vars", "ls", "list", "history", "ans", "last", "it", "_", "debug", "tree", "ast", "load", "save", "set", "unset", "let", "var", "const", "def",
                "fn", "print", "eval", "mode", "pemdas", "pejmdas", "version", "about", "h", "x", "undo", "redo", "exit", "true", "false", "nan", "inf", "none", "null", "test", "simplify", "bind", "run", "import", "info", "functions", "constants", "rad", "deg", "hex", "bin", "precision",
            ];
            let (w, v) = (*rng.pick(WORDS), *rng.pick(WORDS));
            match rng.below(8) {
                0..=2 => w.to_owned(),
                3 => format!("{}{w}", rng.pick(&[":", ".", "/", "\\", "!", "%", "?", "#", "//", "--", "@", "$", "-", "+", ">> ", "> "])),
                4 => format!("{w} {}", rng.pick(&["x", "2", v, "-h", "--help", "on"])),
                5 => format!("{}{}{}{}", rng.pick(&["let ", "", "def ", "set ", "const "]), rng.pick(&["x", "f(x)", w]), rng.pick(&[" = ", "=", " := ", "==", " -> ", ": "]), rng.pick(&["2", &t, v])),
                6 => format!("{t}{}{v}", rng.pick(&[";", " # ", " // ", " = ", "?", " to ", " in ", " | ", " && "])),
                _ => format!("{w}{}", rng.pick(&["()", "!", "?", ";", ".", " ", ":", "(x)", " x = 1"])),
            }
        },
        5 => format!("{t}é"),
        6 => format!("  {t}\t "),
        _ => t,
    };
    // one line, and not the end of the session
    let t = t.replace(['\n', '\r'], " ");
    if t.trim() == "exit" {
        return "exit+0".into();
    }
    t
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Exit,
    ExitSpaced,
    ExitThenMore,
    ExitNoNewline,
    Eof,
    EofAfterText,
}
const ENDS: [End; 6] = [End::Exit, End::ExitSpaced, End::ExitThenMore, End::ExitNoNewline, End::Eof, End::EofAfterText];

fn bye(r: &mut Repl, end: End) -> Res {
    match end {
        End::Exit => r.send("exit\n"),
        End::ExitSpaced => r.send("  exit \t\r\n"),
        End::ExitThenMore => r.send("exit\n1+1\nx\n3\n"),
        End::ExitNoNewline => r.send("exit"),
        End::Eof | End::EofAfterText => {},
    }
    if matches!(end, End::ExitNoNewline | End::Eof | End::EofAfterText) {
        r.close();
    }
    let (rest, status) = r.finish()?;
    ensure!(status.success(), "the session ended with {status}");
    for w in ["Interpreted as", "Evaluated", "Unexpected", "Please"] {
        ensure!(!rest.contains(w), "after the end of the session: {:?}", short(&rest));
    }
    Ok(())
}

/// One line and all that belongs to it, question by question.
fn turn(r: &mut Repl, p: &Parser, line: &str, nl: &str, asked: &mut Asked, c: &mut Case) -> Res {
    let text = format!("{line}{nl}");
    r.send(&text);
    c.obs();
    if nl.is_empty() {
        // the end of the input ends the line, and the session
        r.close();
        let (reply, status) = r.finish()?;
        ensure!(status.success(), "the session ended with {status}: {:?}", short(&reply));
        return match p.parse(&text) {
            Err(e) => {
                c.class("rejected lines");
                diagnostic(&reply, &e, line)
            },
            Ok(x) => {
                c.class("accepted lines");
                head(&reply, &x)?;
                value_of(&text, &x, &HashMap::new(), &reply, c)
            },
        };
    }
    match p.parse(&text) {
        Err(e) => {
            c.class("rejected lines");
            r.until(&|l| l == PROMPT)?;
            let reply = r.take()?;
            diagnostic(&reply, &e, line)?;
        },
        Ok(x) => {
            c.class("accepted lines");
            let mut left: BTreeSet<&str> = x.vars.iter().copied().collect();
            let mut env: HashMap<&str, f64> = HashMap::new();
            let mut first = true;
            while !left.is_empty() {
                r.until(&|l| l == PROMPT || x.vars.iter().any(|v| l.strip_suffix(": ") == Some(v)))?;
                let reply = r.take()?;
                let q = reply.rsplit('\n').next().unwrap_or_default();
                ensure!(q != PROMPT, "no question for {left:?}: {:?}", short(&reply));
                let v = q.strip_suffix(": ").unwrap_or_default();
                let Some(v) = left.take(v) else { return Err(format!("{v} is asked for again")) };
                if first {
                    head(&reply, &x)?;
                } else {
                    ensure!(reply.len() == q.len(), "between questions: {:?}", short(&reply));
                }
                first = false;
                let (s, n) = asked.answer();
                env.insert(v, n);
                r.send(&format!("{s}\n"));
                c.obs();
                c.class("questions");
            }
            r.until(&|l| l == PROMPT || x.vars.iter().any(|v| l.strip_suffix(": ") == Some(v)))?;
            let reply = r.take()?;
            ensure!(reply.ends_with(PROMPT), "asked again: {:?}", short(&reply));
            if first {
                head(&reply, &x)?;
            }
            value_of(&text, &x, &env, &reply, c)?;
        },
    }
    Ok(())
}

fn interactive(rng: &mut Rng, c: &mut Case, lines: usize) -> Res {
    let mut n = Names::plain(4, rng);
    n.vars.retain(|v| v != "exit");
    let p = Parser::default();
    let mut r = Repl::start()?;
    r.until(&|l| l == PROMPT)?;
    r.take()?;
    let end = *rng.pick(&ENDS);
    let mut asked = Asked { rng: rng.fork() };
    let mut told: Vec<String> = vec![];
    for i in 0..lines {
        let l = if !told.is_empty() && rng.one_in(8) { rng.pick(&told).clone() } else { line(rng, &n) };
        told.push(l.clone());
        c.desc = format!("{:?}, {end:?}", &told[told.len().saturating_sub(4)..]);
        // a last line that the end of the input ends (it must not ask anything)
        let last = i + 1 == lines && end == End::EofAfterText && p.parse(&l).map_or(true, |x| x.vars.is_empty());
        turn(&mut r, &p, &l, if last && !l.is_empty() { "" } else if rng.one_in(6) { "\r\n" } else { "\n" }, &mut asked, c)?;
        c.nontrivial(&l);
    }
    bye(&mut r, end)
}

/// A whole session given at once.
fn batch(rng: &mut Rng, c: &mut Case, lines: usize) -> Res {
    let mut n = Names::plain(4, rng);
    n.vars.retain(|v| v != "exit");
    let p = Parser::default();
    let mut script = String::new();
    let mut plan: Vec<(String, f64)> = vec![];
    for _ in 0..lines {
        let l = loop {
            let l = line(rng, &n);
            if !l.contains('>') {
                break l;
            }
        };
        let text = format!("{l}\n");
        script.push_str(&text);
        let mut v = 0.0;
        if let Ok(x) = p.parse(&text) {
            // whatever order they are asked in
            v = nice(rng);
            for _ in &x.vars {
                script.push_str(&format!("{v}\n"));
            }
        }
        plan.push((text, v));
    }
    let end = *rng.pick(&[End::Exit, End::Eof, End::ExitThenMore, End::ExitNoNewline]);
    script.push_str(match end {
        End::Exit => "exit\n",
        End::ExitThenMore => "exit\n1+1\n",
        End::ExitNoNewline => "exit",
        _ => "",
    });
    c.desc = format!("{:?}", short(&script));
    c.nontrivial(&script);
    let mut r = Repl::start()?;
    r.send(&script);
    r.close();
    let (out, status) = r.finish()?;
    ensure!(status.success(), "the session ended with {status}: {:?}", out.chars().rev().take(200).collect::<String>().chars().rev().collect::<String>());
    let parts: Vec<&str> = out.split(PROMPT).collect();
    ensure!(parts.len() == plan.len() + 2, "{} answers to {} lines", parts.len().saturating_sub(2), plan.len());
    for ((text, v), reply) in plan.iter().zip(&parts[1..]) {
        c.obs();
        let x = match p.parse(text) {
            Err(e) => {
                diagnostic(reply, &e, text)?;
                continue;
            },
            Ok(x) => x,
        };
        head(reply, &x)?;
        let env: HashMap<&str, f64> = x.vars.iter().map(|n| (*n, *v)).collect();
        value_of(text, &x, &env, reply, c)?;
        if !x.vars.is_empty() {
            let q = reply.rsplit('\n').find(|l| l.contains("Evaluated: ")).unwrap_or_default();
            let q = q.split("Evaluated: ").next().unwrap_or_default();
            let mut names: Vec<&str> = q.split(": ").filter(|s| !s.is_empty()).collect();
            names.sort_unstable();
            let mut want: Vec<&str> = x.vars.iter().copied().collect();
            want.sort_unstable();
            ensure!(names == want, "asked for {names:?} instead of {want:?}");
        }
    }
    Ok(())
}

pub fn c18(r: &mut Runner) {
    r.random("interactive sessions", 120, |rng, c| {
        let n = rng.range(0, 25);
        interactive(rng, c, n)
    });
    r.random("long sessions", 4, |rng, c| interactive(rng, c, 400));
    r.random("batch sessions", 120, |rng, c| {
        let n = rng.range(0, 30);
        batch(rng, c, n)
    });
    r.random("very long batch sessions", 1, |rng, c| {
        let n = *rng.pick(&[300, 1100, 2500]);
        batch(rng, c, n)
    });
    r.random("long lines", 6, |rng, c| {
        let p = Parser::default();
        let mut s = Repl::start()?;
        s.until(&|l| l == PROMPT)?;
        s.take()?;
        let mut asked = Asked { rng: rng.fork() };
        for _ in 0..3 {
            // the tree is displayed with an indentation that grows with the depth
            let n = rng.range(100, 400);
            let item = *rng.pick(&["x+", "2*", "y-x*", "max(1,x)+", "(z)"]);
            let l = format!("{}{}", item.repeat(n), rng.pick(&["1", "x", "", "é", "$"]));
            c.desc = format!("{item} {n} times");
            turn(&mut s, &p, &l, "\n", &mut asked, c)?;
            turn(&mut s, &p, "w-1", "\n", &mut asked, c)?;
            c.nontrivial(&l);
        }
        bye(&mut s, End::Eof)
    });
    r.random("very long lines", 4, |rng, c| {
        let p = Parser::default();
        let mut s = Repl::start()?;
        s.until(&|l| l == PROMPT)?;
        s.take()?;
        let mut asked = Asked { rng: rng.fork() };
        for _ in 0..3 {
            let n = *rng.pick(&[250, 1000, 1020, 2040, 4000, 4090, 8180, 16_000, 33_000, 65_530, 70_000]);
            let k = n + rng.below(12);
            let l = match rng.below(5) {
                0 => format!("{}7", " ".repeat(k)),
                1 => format!("x + y{}", " ".repeat(k)),
                2 => format!("max({}x)", "1,".repeat(k / 2)),
                3 => format!("2*{}", "v".repeat(k)),
                _ => format!("0.{}", "37".repeat(k / 2)),
            };
            c.desc = format!("{} of {} bytes", short(&l), l.len());
            turn(&mut s, &p, &l, "\n", &mut asked, c)?;
            turn(&mut s, &p, "w-1", "\n", &mut asked, c)?;
            c.nontrivial(&l);
        }
        bye(&mut s, End::Eof)
    });
    // how sessions end
    r.each("ends", 0..(ENDS.len() * 6) as u64, |i, c| {
        let p = Parser::default();
        let end = ENDS[i as usize % ENDS.len()];
        let pre: &[&str] = [&[][..], &["1"], &["x+y"], &["1+"], &[""], &["x", "", "2*x", "é", "exit+1"]][i as usize / ENDS.len()];
        c.desc = format!("{pre:?} then {end:?}");
        c.nontrivial(&c.desc.clone());
        let mut s = Repl::start()?;
        s.until(&|l| l == PROMPT)?;
        s.take()?;
        let mut asked = Asked { rng: Rng::new(i) };
        for l in pre {
            turn(&mut s, &p, l, "\n", &mut asked, c)?;
        }
        c.obs();
        bye(&mut s, end)
    });
}

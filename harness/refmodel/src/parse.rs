//! Reference tokenizer and parser: one function per level of the grammar.
use crate::ast::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Pemdas,
    Pejmdas,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Num { value: f64, dot: bool },
    Malformed,
    Ident,
    /// + - * / % ^ ! ( ) ,
    Op(char),
    Bad(char),
}

#[derive(Clone, Debug)]
pub struct Token {
    pub tok: Tok,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum RefErr {
    /// Nothing left where something is needed.
    End,
    /// The token starting at `at` cannot be there.
    Token { at: usize },
    /// The number literal at start..end is malformed.
    Malformed { start: usize, end: usize },
    /// Wrong number of arguments for the call at start..end.
    Arity { name: String, declared: usize, written: usize, start: usize, end: usize },
}

pub fn is_space(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | b'\r' | 0x0c)
}

pub fn lex(text: &str) -> Vec<Token> {
    let b = text.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        let start = i;
        if is_space(c) {
            i += 1;
            continue;
        }
        let tok = if c.is_ascii_digit() || c == b'.' {
            while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.' || b[i] == b'_') {
                i += 1;
            }
            if i < b.len() && (b[i] | 32) == b'e' {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                if j < b.len() && b[j].is_ascii_digit() {
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    i = j;
                }
            }
            let lit: String = text[start..i].chars().filter(|&c| c != '_').collect();
            let mant = lit.split(['e', 'E']).next().unwrap_or("");
            let ok = mant.bytes().filter(|&c| c == b'.').count() <= 1
                && mant.bytes().any(|c| c.is_ascii_digit());
            if ok {
                Tok::Num { value: lit.parse().expect("well formed literal"), dot: c == b'.' }
            } else {
                Tok::Malformed
            }
        } else if c.is_ascii_alphabetic() {
            while i < b.len()
                && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'\'')
            {
                i += 1;
            }
            Tok::Ident
        } else if b"+-*/%^!(),".contains(&c) {
            i += 1;
            Tok::Op(c as char)
        } else {
            let ch = text[i..].chars().next().unwrap();
            i += ch.len_utf8();
            Tok::Bad(ch)
        };
        out.push(Token { tok, start, end: i });
    }
    out
}

struct P<'a> {
    text: &'a str,
    toks: Vec<Token>,
    pos: usize,
    ctx: &'a RefCtx,
    mode: Mode,
}

type R = Result<Ast, RefErr>;

impl P<'_> {
    fn op(&self) -> Option<char> {
        match self.toks.get(self.pos) {
            Some(Token { tok: Tok::Op(c), .. }) => Some(*c),
            _ => None,
        }
    }
    fn eat(&mut self, c: char) -> bool {
        let e = self.op() == Some(c);
        self.pos += usize::from(e);
        e
    }
    fn here(&self) -> RefErr {
        match self.toks.get(self.pos) {
            Some(t) => RefErr::Token { at: t.start },
            None => RefErr::End,
        }
    }
    fn expr(&mut self) -> R {
        let mut l = self.term()?;
        loop {
            let o = match self.op() {
                Some('+') => Bin::Add,
                Some('-') => Bin::Sub,
                _ => return Ok(l),
            };
            self.pos += 1;
            l = Ast::bin(o, l, self.term()?);
        }
    }
    fn mul_op(&self) -> Option<Bin> {
        match self.op() {
            Some('*') => Some(Bin::Mul),
            Some('/') => Some(Bin::Div),
            Some('%') => Some(Bin::Rem),
            _ => None,
        }
    }
    fn implicit(&self) -> bool {
        match self.toks.get(self.pos).map(|t| &t.tok) {
            Some(Tok::Ident | Tok::Op('(')) => true,
            Some(Tok::Num { .. } | Tok::Malformed) => {
                self.text.as_bytes()[self.toks[self.pos].start] != b'.'
                    && !matches!(self.toks[self.pos - 1].tok, Tok::Num { .. })
            },
            _ => false,
        }
    }
    fn term(&mut self) -> R {
        match self.mode {
            Mode::Pemdas => {
                let mut l = self.power()?;
                loop {
                    if let Some(o) = self.mul_op() {
                        self.pos += 1;
                        l = Ast::bin(o, l, self.power()?);
                    } else if self.implicit() {
                        l = Ast::bin(Bin::Mul, l, self.power()?);
                    } else {
                        return Ok(l);
                    }
                }
            },
            Mode::Pejmdas => {
                let mut l = self.juxt()?;
                while let Some(o) = self.mul_op() {
                    self.pos += 1;
                    l = Ast::bin(o, l, self.juxt()?);
                }
                Ok(l)
            },
        }
    }
    fn juxt(&mut self) -> R {
        let mut l = self.power()?;
        while self.implicit() {
            l = Ast::bin(Bin::Mul, l, self.power()?);
        }
        Ok(l)
    }
    fn power(&mut self) -> R {
        let mut l = self.signed()?;
        while self.eat('^') {
            l = Ast::bin(Bin::Pow, l, self.signed()?);
        }
        Ok(l)
    }
    fn signed(&mut self) -> R {
        match self.op() {
            Some('+') => {
                self.pos += 1;
                Ok(Ast::un(Un::Plus, self.power()?))
            },
            Some('-') => {
                self.pos += 1;
                Ok(Ast::un(Un::Minus, self.power()?))
            },
            _ => {
                let mut a = self.atom()?;
                while self.eat('!') {
                    a = Ast::un(Un::Fact, a);
                }
                Ok(a)
            },
        }
    }
    fn atom(&mut self) -> R {
        let Some(t) = self.toks.get(self.pos).cloned() else { return Err(RefErr::End) };
        match t.tok {
            Tok::Num { value, .. } => {
                self.pos += 1;
                Ok(Ast::Num(value))
            },
            Tok::Malformed => Err(RefErr::Malformed { start: t.start, end: t.end }),
            Tok::Ident => {
                self.pos += 1;
                let name = &self.text[t.start..t.end];
                match self.ctx.resolve(name) {
                    None => Ok(Ast::var(name)),
                    Some(Sym::Const(v)) => Ok(Ast::Num(v)),
                    Some(Sym::Func(f)) => {
                        if !self.eat('(') {
                            return Err(self.here());
                        }
                        let mut args = Vec::new();
                        if !self.eat(')') {
                            loop {
                                args.push(self.expr()?);
                                if self.eat(')') {
                                    break;
                                }
                                if !self.eat(',') {
                                    return Err(self.here());
                                }
                            }
                        }
                        match f.arity {
                            Some(n) if n != args.len() => Err(RefErr::Arity {
                                name: name.to_owned(),
                                declared: n,
                                written: args.len(),
                                start: t.start,
                                end: self.toks[self.pos - 1].end,
                            }),
                            _ => Ok(Ast::Call(f, args)),
                        }
                    },
                }
            },
            Tok::Op('(') => {
                self.pos += 1;
                let e = self.expr()?;
                if self.eat(')') {
                    Ok(e)
                } else {
                    Err(self.here())
                }
            },
            Tok::Op(_) | Tok::Bad(_) => Err(self.here()),
        }
    }
}

pub fn parse(text: &str, ctx: &RefCtx, mode: Mode) -> Result<Ast, RefErr> {
    let mut p = P { text, toks: lex(text), pos: 0, ctx, mode };
    let e = p.expr()?;
    if p.pos < p.toks.len() {
        return Err(p.here());
    }
    Ok(e)
}

//! A small circom front end: parses templates, elaborates one into signals, assignments, hints and
//! constraints, and evaluates witnesses, honest or not.
//!
//! The field is the 64-bit Goldilocks field: every value the circuits of this repository compute is
//! small, so which large prime is used decides nothing.
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub const P: u64 = 0xffff_ffff_0000_0001;
pub fn add(a: u64, b: u64) -> u64 {
    let s = a as u128 + b as u128;
    if s >= P as u128 {
        (s - P as u128) as u64
    } else {
        s as u64
    }
}
pub fn neg(a: u64) -> u64 {
    if a == 0 {
        0
    } else {
        P - a
    }
}
pub fn mul(a: u64, b: u64) -> u64 {
    (a as u128 * b as u128 % P as u128) as u64
}
fn pow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    r
}
pub fn field(v: i64) -> u64 {
    if v >= 0 {
        v as u64
    } else {
        P - v.unsigned_abs()
    }
}
fn inv(a: u64) -> u64 {
    thread_local!(static T: Vec<u64> = (0..2048u64).map(|x| if x == 0 { 0 } else { pow(x, P - 2) }).collect());
    if a < 2048 {
        T.with(|t| t[a as usize])
    } else if P - a < 2048 {
        neg(T.with(|t| t[(P - a) as usize]))
    } else {
        pow(a, P - 2)
    }
}

// ------------------------------------------------------------------ syntax
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Num(u64),
    Str(String),
    Op(&'static str),
    End,
}
const OPS: [&str; 53] = [
    "<==", "==>", "<--", "-->", "===", "**=", ">>=", "<<=", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "**", "+=", "-=", "*=", "/=",
    "\\=", "%=", "&=", "|=", "^=", "++", "--", "+", "-", "*", "/", "\\", "%", "<", ">", "!", "~", "&", "|", "^", "?", ":", ";", ",", ".",
    "(", ")", "[", "]", "{", "}", "=",
];

#[derive(Debug)]
pub enum Ex {
    Num(u64),
    Var(String),
    Index(Box<Ex>, Box<Ex>),
    Member(Box<Ex>, String),
    Un(&'static str, Box<Ex>),
    Bin(&'static str, Box<Ex>, Box<Ex>),
    Cond(Box<Ex>, Box<Ex>, Box<Ex>),
    Arr(Vec<Ex>),
    Tuple(Vec<Ex>),
    Call(String, Vec<Ex>),
    Anon(String, Vec<Ex>, Vec<(Option<String>, Ex)>),
}
#[derive(Debug)]
enum St {
    Signal(u8, Vec<(String, Vec<Ex>)>, Option<(&'static str, Ex)>), // 0 plain, 1 input, 2 output
    Var(Vec<(String, Vec<Ex>, Option<Ex>)>),
    VarTuple(Vec<String>, Ex),
    Comp(Vec<(String, Vec<Ex>, Option<Ex>)>),
    Assign(Ex, &'static str, Ex),
    Inc(Ex, &'static str),
    For(Box<St>, Ex, Box<St>, Box<St>),
    While(Ex, Box<St>),
    If(Ex, Box<St>, Option<Box<St>>),
    Block(Vec<St>),
    Return(Ex),
    Assert(Ex),
    Expr(Ex),
    Nop,
}
#[derive(Debug)]
pub struct Template {
    name: String,
    params: Vec<String>,
    body: St,
    lib: bool,
    func: bool,
}

pub type E<T> = Result<T, String>;

fn lex(s: &str) -> E<Vec<Tok>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    'next: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if b[i..].starts_with(b"/*") {
            i += 2;
            while i < b.len() && !b[i..].starts_with(b"*/") {
                i += 1;
            }
            if i >= b.len() {
                return Err("unterminated comment".into());
            }
            i += 2;
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let a = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            v.push(Tok::Id(s[a..i].to_string()));
        } else if c.is_ascii_digit() {
            let a = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            let t = &s[a..i];
            let n = if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16) } else { t.parse::<u64>() };
            v.push(Tok::Num(n.map_err(|_| format!("bad number {t}"))?));
        } else if c == b'"' {
            let a = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' && b[i] != b'\n' {
                i += 1;
            }
            if i >= b.len() || b[i] != b'"' {
                return Err("unterminated string".into());
            }
            v.push(Tok::Str(s[a..i].to_string()));
            i += 1;
        } else {
            for o in OPS {
                if b[i..].starts_with(o.as_bytes()) {
                    v.push(Tok::Op(o));
                    i += o.len();
                    continue 'next;
                }
            }
            return Err(format!("unexpected character {:?} at {i}", c as char));
        }
    }
    v.push(Tok::End);
    Ok(v)
}

struct Parse {
    t: Vec<Tok>,
    i: usize,
    lib: bool,
}
pub struct File {
    pub includes: Vec<String>,
    pub templates: Vec<Arc<Template>>,
    pub pragma: bool,
}
impl Parse {
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, o: &str) -> bool {
        matches!(self.peek(), Tok::Op(x) if *x == o)
    }
    fn kw(&self, k: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == k)
    }
    fn eat(&mut self, o: &str) -> bool {
        if self.is(o) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, o: &str) -> E<()> {
        if self.eat(o) {
            Ok(())
        } else {
            Err(format!("expected {o}, found {:?} (token {})", self.peek(), self.i))
        }
    }
    fn id(&mut self) -> E<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            t => Err(format!("expected a name, found {t:?}")),
        }
    }
    fn file(&mut self) -> E<File> {
        let mut f = File { includes: vec![], templates: vec![], pragma: false };
        loop {
            match self.next() {
                Tok::End => return Ok(f),
                Tok::Id(k) if k == "pragma" => {
                    f.pragma = true;
                    while !self.is(";") {
                        if *self.peek() == Tok::End {
                            return Err("unterminated pragma".into());
                        }
                        // version numbers such as 2.1.5
                        self.next();
                    }
                    self.want(";")?;
                }
                Tok::Id(k) if k == "include" => match self.next() {
                    Tok::Str(s) => {
                        f.includes.push(s);
                        self.want(";")?;
                    }
                    t => return Err(format!("bad include {t:?}")),
                },
                Tok::Id(k) if k == "template" || k == "function" => {
                    let mut name = self.id()?;
                    if name == "custom" || name == "parallel" {
                        name = self.id()?;
                    }
                    self.want("(")?;
                    let mut params = vec![];
                    while !self.eat(")") {
                        params.push(self.id()?);
                        if !self.is(")") {
                            self.want(",")?;
                        }
                    }
                    if !self.is("{") {
                        return Err("template without body".into());
                    }
                    let body = self.stmt()?;
                    f.templates.push(Arc::new(Template { name, params, body, lib: self.lib, func: k == "function" }));
                }
                Tok::Id(k) if k == "component" => {
                    // component main {public [..]} = T(..);
                    while !self.is(";") {
                        if *self.peek() == Tok::End {
                            return Err("unterminated main component".into());
                        }
                        self.next();
                    }
                    self.want(";")?;
                }
                t => return Err(format!("unexpected {t:?} outside a template")),
            }
        }
    }
    fn dims(&mut self) -> E<Vec<Ex>> {
        let mut v = vec![];
        while self.eat("[") {
            v.push(self.expr()?);
            self.want("]")?;
        }
        Ok(v)
    }
    fn stmt(&mut self) -> E<St> {
        if self.eat("{") {
            let mut v = vec![];
            while !self.eat("}") {
                if *self.peek() == Tok::End {
                    return Err("missing closing brace".into());
                }
                v.push(self.stmt()?);
            }
            return Ok(St::Block(v));
        }
        if self.eat(";") {
            return Ok(St::Nop);
        }
        if self.kw("if") {
            self.i += 1;
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            let a = Box::new(self.stmt()?);
            let b = if self.kw("else") {
                self.i += 1;
                Some(Box::new(self.stmt()?))
            } else {
                None
            };
            return Ok(St::If(c, a, b));
        }
        if self.kw("for") {
            self.i += 1;
            self.want("(")?;
            let init = Box::new(self.simple()?);
            self.want(";")?;
            let c = self.expr()?;
            self.want(";")?;
            let step = Box::new(self.simple()?);
            self.want(")")?;
            return Ok(St::For(init, c, step, Box::new(self.stmt()?)));
        }
        if self.kw("while") {
            self.i += 1;
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            return Ok(St::While(c, Box::new(self.stmt()?)));
        }
        let s = self.simple()?;
        self.want(";")?;
        Ok(s)
    }
    fn simple(&mut self) -> E<St> {
        if self.kw("signal") {
            self.i += 1;
            let mut kind = 0;
            if self.kw("input") {
                self.i += 1;
                kind = 1;
            } else if self.kw("output") {
                self.i += 1;
                kind = 2;
            }
            if self.eat("{") {
                while !self.eat("}") {
                    self.next();
                }
            }
            let mut v = vec![];
            loop {
                let n = self.id()?;
                v.push((n, self.dims()?));
                if !self.eat(",") {
                    break;
                }
            }
            for o in ["<==", "<--"] {
                if self.eat(o) {
                    let e = self.expr()?;
                    return Ok(St::Signal(kind, v, Some((if o == "<==" { "<==" } else { "<--" }, e))));
                }
            }
            return Ok(St::Signal(kind, v, None));
        }
        if self.kw("var") || self.kw("component") {
            let var = self.kw("var");
            self.i += 1;
            if var && self.eat("(") {
                let mut v = vec![];
                loop {
                    v.push(self.id()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                self.want(")")?;
                self.want("=")?;
                return Ok(St::VarTuple(v, self.expr()?));
            }
            let mut v = vec![];
            loop {
                let n = self.id()?;
                let d = self.dims()?;
                let e = if self.eat_assign() { Some(self.expr()?) } else { None };
                v.push((n, d, e));
                if !self.eat(",") {
                    break;
                }
            }
            return Ok(if var { St::Var(v) } else { St::Comp(v) });
        }
        if self.kw("return") {
            self.i += 1;
            return Ok(St::Return(self.expr()?));
        }
        if self.kw("assert") {
            self.i += 1;
            return Ok(St::Assert(self.expr()?));
        }
        if self.kw("log") {
            self.i += 1;
            self.want("(")?;
            while !self.eat(")") {
                if let Tok::Str(_) = self.peek() {
                    self.i += 1;
                } else {
                    self.expr()?;
                }
                self.eat(",");
            }
            return Ok(St::Nop);
        }
        if self.eat("++") {
            return Ok(St::Inc(self.unary()?, "+"));
        }
        if self.eat("--") {
            return Ok(St::Inc(self.unary()?, "-"));
        }
        let l = self.expr()?;
        if self.eat("++") {
            return Ok(St::Inc(l, "+"));
        }
        if self.eat("--") {
            return Ok(St::Inc(l, "-"));
        }
        for o in ["<==", "==>", "<--", "-->", "===", "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "**=", ">>=", "<<="] {
            if self.eat(o) {
                return Ok(St::Assign(l, OPS.iter().find(|x| **x == o).unwrap(), self.expr()?));
            }
        }
        if self.eat_assign() {
            return Ok(St::Assign(l, "=", self.expr()?));
        }
        Ok(St::Expr(l))
    }
    fn eat_assign(&mut self) -> bool {
        // "=" is not in OPS on its own: lexed as an identifier-free token below
        self.eat("=")
    }
    fn expr(&mut self) -> E<Ex> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(Ex::Cond(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn bin(&mut self, level: usize) -> E<Ex> {
        const LEVELS: [&[&str]; 11] = [
            &["||"],
            &["&&"],
            &["==", "!=", "<", ">", "<=", ">="],
            &["|"],
            &["^"],
            &["&"],
            &["<<", ">>"],
            &["+", "-"],
            &["*", "/", "\\", "%"],
            &["**"],
            &[],
        ];
        if level == 10 {
            return self.unary();
        }
        let mut l = self.bin(level + 1)?;
        'again: loop {
            for o in LEVELS[level] {
                if self.is(o) {
                    self.i += 1;
                    let r = self.bin(level + 1)?;
                    l = Ex::Bin(o, Box::new(l), Box::new(r));
                    continue 'again;
                }
            }
            return Ok(l);
        }
    }
    fn unary(&mut self) -> E<Ex> {
        for o in ["-", "!", "~"] {
            if self.is(o) {
                self.i += 1;
                return Ok(Ex::Un(if o == "-" { "-" } else if o == "!" { "!" } else { "~" }, Box::new(self.unary()?)));
            }
        }
        let mut e = self.primary()?;
        loop {
            if self.eat("[") {
                let i = self.expr()?;
                self.want("]")?;
                e = Ex::Index(Box::new(e), Box::new(i));
            } else if self.eat(".") {
                e = Ex::Member(Box::new(e), self.id()?);
            } else {
                return Ok(e);
            }
        }
    }
    fn list(&mut self, end: &str) -> E<Vec<Ex>> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.expr()?);
            if !self.is(end) {
                self.want(",")?;
            }
        }
        Ok(v)
    }
    fn primary(&mut self) -> E<Ex> {
        match self.next() {
            Tok::Num(n) => Ok(Ex::Num(n % P)),
            Tok::Op("(") => {
                let mut v = self.list(")")?;
                Ok(if v.len() == 1 { v.pop().unwrap() } else { Ex::Tuple(v) })
            }
            Tok::Op("[") => Ok(Ex::Arr(self.list("]")?)),
            Tok::Id(k) if k == "parallel" => self.primary(),
            Tok::Id(n) => {
                if self.eat("(") {
                    let a = self.list(")")?;
                    if self.eat("(") {
                        let mut ins = vec![];
                        while !self.eat(")") {
                            let named = matches!((self.peek(), self.t.get(self.i + 1)), (Tok::Id(_), Some(Tok::Op("<=="))));
                            if named {
                                let k = self.id()?;
                                self.want("<==")?;
                                ins.push((Some(k), self.expr()?));
                            } else {
                                ins.push((None, self.expr()?));
                            }
                            if !self.is(")") {
                                self.want(",")?;
                            }
                        }
                        return Ok(Ex::Anon(n, a, ins));
                    }
                    return Ok(Ex::Call(n, a));
                }
                Ok(Ex::Var(n))
            }
            t => Err(format!("unexpected {t:?} in an expression (token {})", self.i)),
        }
    }
}
pub fn parse(text: &str, lib: bool) -> E<File> {
    let mut t = vec![];
    // version numbers in pragmas have two dots: replace the line before lexing
    let cleaned: String = text
        .split_inclusive('\n')
        .map(|l| if l.trim_start().starts_with("pragma circom") { format!("pragma circom;{}\n", l.split_once(';').map_or("", |x| x.1).trim_end()) } else { l.to_string() })
        .collect();
    for x in lex(&cleaned)? {
        t.push(x);
    }
    Parse { t, i: 0, lib }.file()
}

// ------------------------------------------------------------------ elaboration
pub type Sig = u32;
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Lin {
    pub t: Vec<(Sig, u64)>,
    pub c: u64,
}
impl Lin {
    fn num(c: u64) -> Lin {
        Lin { t: vec![], c }
    }
    fn sig(s: Sig) -> Lin {
        Lin { t: vec![(s, 1)], c: 0 }
    }
    fn is_const(&self) -> bool {
        self.t.is_empty()
    }
    fn add(&self, o: &Lin, k: u64) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, mul(o.t[j].1, k)));
                j += 1;
            } else {
                let c = add(self.t[i].1, mul(o.t[j].1, k));
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { t, c: add(self.c, mul(o.c, k)) }
    }
    fn scale(&self, k: u64) -> Lin {
        if k == 0 {
            return Lin::default();
        }
        Lin { t: self.t.iter().map(|x| (x.0, mul(x.1, k))).collect(), c: mul(self.c, k) }
    }
}
#[derive(Clone, Debug)]
pub enum Sym {
    Lin(Lin),
    Quad(Arc<(Lin, Lin, Lin)>), // a*b + c
    Gen(Arc<Gen>),
}
#[derive(Debug)]
pub enum Gen {
    Un(&'static str, Sym),
    Bin(&'static str, Sym, Sym),
    Cond(Sym, Sym, Sym),
}
#[derive(Clone, Debug)]
enum Val {
    S(Sym),
    Arr(Arc<Vec<Val>>),
    Tuple(Arc<Vec<Val>>),
    Comp(Arc<Inst>),
    Unset,
}
#[derive(Debug)]
struct Inst {
    inputs: Vec<(String, Val)>,
    outputs: Vec<(String, Val)>,
}

fn num(v: &Val) -> E<u64> {
    match v {
        Val::S(Sym::Lin(l)) if l.is_const() => Ok(l.c),
        _ => Err("a value that must be known at compile time is not".into()),
    }
}
fn cnum(c: u64) -> Sym {
    Sym::Lin(Lin::num(c))
}
fn to_i(a: u64) -> i128 {
    if a > P / 2 {
        a as i128 - P as i128
    } else {
        a as i128
    }
}
fn op2(o: &str, a: u64, b: u64) -> E<u64> {
    Ok(match o {
        "+" => add(a, b),
        "-" => add(a, neg(b)),
        "*" => mul(a, b),
        "/" => {
            if b == 0 {
                return Err("division by zero".into());
            }
            mul(a, inv(b))
        }
        "\\" => a.checked_div(b).ok_or("division by zero")?,
        "%" => a.checked_rem(b).ok_or("division by zero")?,
        "**" => pow(a, b),
        "<<" => {
            if b > 63 {
                return Err("shift too far".into());
            }
            ((a as u128) << b) as u64 % P
        }
        ">>" => {
            if b > 63 {
                0
            } else {
                a >> b
            }
        }
        "&" => a & b,
        "|" => (a | b) % P,
        "^" => (a ^ b) % P,
        "==" => (a == b) as u64,
        "!=" => (a != b) as u64,
        "<" => (to_i(a) < to_i(b)) as u64,
        ">" => (to_i(a) > to_i(b)) as u64,
        "<=" => (to_i(a) <= to_i(b)) as u64,
        ">=" => (to_i(a) >= to_i(b)) as u64,
        "&&" => (a != 0 && b != 0) as u64,
        "||" => (a != 0 || b != 0) as u64,
        o => return Err(format!("operator {o}")),
    })
}
fn op1(o: &str, a: u64) -> E<u64> {
    Ok(match o {
        "-" => neg(a),
        "!" => (a == 0) as u64,
        o => return Err(format!("operator {o}")),
    })
}
fn bin(o: &'static str, a: &Sym, b: &Sym) -> E<Sym> {
    if let (Sym::Lin(x), Sym::Lin(y)) = (a, b) {
        if x.is_const() && y.is_const() {
            return Ok(cnum(op2(o, x.c, y.c)?));
        }
    }
    let quad = |a: Lin, b: Lin, c: Lin| Sym::Quad(Arc::new((a, b, c)));
    match o {
        "+" | "-" => {
            let k = if o == "+" { 1 } else { P - 1 };
            match (a, b) {
                (Sym::Lin(x), Sym::Lin(y)) => return Ok(Sym::Lin(x.add(y, k))),
                (Sym::Quad(q), Sym::Lin(y)) => return Ok(quad(q.0.clone(), q.1.clone(), q.2.add(y, k))),
                (Sym::Lin(x), Sym::Quad(q)) => return Ok(quad(q.0.scale(k), q.1.clone(), x.add(&q.2, k))),
                _ => {}
            }
        }
        "*" => match (a, b) {
            (Sym::Lin(x), Sym::Lin(y)) => {
                if x.is_const() {
                    return Ok(Sym::Lin(y.scale(x.c)));
                }
                if y.is_const() {
                    return Ok(Sym::Lin(x.scale(y.c)));
                }
                return Ok(quad(x.clone(), y.clone(), Lin::default()));
            }
            (Sym::Quad(q), Sym::Lin(k)) | (Sym::Lin(k), Sym::Quad(q)) if k.is_const() => {
                return Ok(quad(q.0.scale(k.c), q.1.clone(), q.2.scale(k.c)));
            }
            _ => {}
        },
        "/" => {
            if let (Sym::Lin(x), Sym::Lin(y)) = (a, b) {
                if y.is_const() && y.c != 0 {
                    return Ok(Sym::Lin(x.scale(inv(y.c))));
                }
            }
        }
        _ => {}
    }
    Ok(Sym::Gen(Arc::new(Gen::Bin(o, a.clone(), b.clone()))))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Nothing assigns it.
    Free,
    Input,
    /// Fixed by `<==`.
    Fixed,
    /// Computed by `<--`: the prover may choose otherwise.
    Hint,
}
pub struct Circuit {
    pub nsig: usize,
    pub kind: Vec<Kind>,
    /// (template, name) of each signal, as indices into `names`.
    pub origin: Vec<(u32, u32)>,
    pub names: Vec<String>,
    /// Signals whose value circomlib itself is about.
    pub by_lib: Vec<bool>,
    rule: Vec<Option<Sym>>,
    pub constraints: Vec<(Lin, Lin, Lin)>,
    order: Vec<Sig>,
    pub inputs: BTreeMap<String, Vec<Sig>>,
    pub outputs: BTreeMap<String, Vec<Sig>>,
    /// Inputs of components that nothing assigns.
    pub missing: Vec<String>,
    pub used: Vec<bool>,
}

struct Elab<'a> {
    tpl: &'a HashMap<String, Arc<Template>>,
    kind: Vec<Kind>,
    origin: Vec<(u32, u32)>,
    names: Vec<String>,
    name_ids: HashMap<String, u32>,
    by_lib: Vec<bool>,
    is_comp_input: Vec<bool>,
    rule: Vec<Option<Sym>>,
    cons: Vec<(Lin, Lin, Lin)>,
    depth: u32,
    budget: u64,
}
struct Frame {
    scopes: Vec<HashMap<String, Val>>,
    inputs: Vec<String>,
    outputs: Vec<String>,
    tpl: u32,
    lib: bool,
    top: bool,
    ret: Option<Val>,
    /// Own input signals cannot be assigned here.
    own_inputs: std::collections::HashSet<Sig>,
}
impl Frame {
    fn get(&self, n: &str) -> E<&Val> {
        self.scopes.iter().rev().find_map(|s| s.get(n)).ok_or_else(|| format!("{n} is not declared"))
    }
    fn slot(&mut self, n: &str) -> E<&mut Val> {
        self.scopes.iter_mut().rev().find_map(|s| s.get_mut(n)).ok_or_else(|| format!("{n} is not declared"))
    }
    fn declare(&mut self, n: &str, v: Val) -> E<()> {
        if self.scopes.last().unwrap().contains_key(n) {
            return Err(format!("{n} is declared twice"));
        }
        self.scopes.last_mut().unwrap().insert(n.to_string(), v);
        Ok(())
    }
}
fn index_mut<'v>(v: &'v mut Val, path: &[usize]) -> E<&'v mut Val> {
    match path.split_first() {
        None => Ok(v),
        Some((i, rest)) => match v {
            Val::Arr(a) => index_mut(Arc::make_mut(a).get_mut(*i).ok_or("index out of range")?, rest),
            _ => Err("indexing what is not an array".into()),
        },
    }
}
fn flat(v: &Val, out: &mut Vec<Val>) {
    match v {
        Val::Arr(a) => a.iter().for_each(|x| flat(x, out)),
        x => out.push(x.clone()),
    }
}
fn shape_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Arr(x), Val::Arr(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| shape_eq(p, q)),
        (Val::Arr(_), _) | (_, Val::Arr(_)) => false,
        _ => true,
    }
}

impl<'a> Elab<'a> {
    fn intern(&mut self, s: &str) -> u32 {
        if let Some(i) = self.name_ids.get(s) {
            return *i;
        }
        self.names.push(s.to_string());
        self.name_ids.insert(s.to_string(), self.names.len() as u32 - 1);
        self.names.len() as u32 - 1
    }
    fn new_sig(&mut self, f: &Frame, name: u32, kind: u8) -> Sig {
        let id = self.kind.len() as Sig;
        self.kind.push(if kind == 1 && f.top { Kind::Input } else { Kind::Free });
        self.is_comp_input.push(kind == 1 && !f.top);
        self.origin.push((f.tpl, name));
        self.rule.push(None);
        self.by_lib.push(f.lib);
        id
    }
    fn sig_array(&mut self, f: &Frame, name: u32, kind: u8, dims: &[usize], own: &mut Vec<Sig>) -> Val {
        match dims.split_first() {
            None => {
                let s = self.new_sig(f, name, kind);
                own.push(s);
                Val::S(Sym::Lin(Lin::sig(s)))
            }
            Some((d, rest)) => Val::Arr(Arc::new((0..*d).map(|_| self.sig_array(f, name, kind, rest, own)).collect())),
        }
    }
    fn instance(&mut self, name: &str, args: Vec<Val>, top: bool) -> E<Arc<Inst>> {
        let t = self.tpl.get(name).ok_or_else(|| format!("template {name} is not declared"))?.clone();
        if t.func {
            return Err(format!("{name} is a function"));
        }
        if t.params.len() != args.len() {
            return Err(format!("{name} takes {} parameters", t.params.len()));
        }
        self.depth += 1;
        if self.depth > 200 {
            return Err("components nested too deep".into());
        }
        let tid = self.intern(&t.name);
        let mut f = Frame {
            scopes: vec![HashMap::new(), HashMap::new()],
            inputs: vec![],
            outputs: vec![],
            tpl: tid,
            lib: t.lib,
            top,
            ret: None,
            own_inputs: Default::default(),
        };
        for (p, a) in t.params.iter().zip(args) {
            f.declare(p, a)?;
        }
        f.scopes.push(HashMap::new());
        // the template body shares the scope of declarations that the instance is read from
        match &t.body {
            St::Block(v) => {
                for s in v {
                    self.stmt(&mut f, s).map_err(|e| if e.contains(" in template ") { e } else { format!("{e} in template {}", t.name) })?;
                }
            }
            _ => return Err("template without body".into()),
        }
        self.depth -= 1;
        let pick = |v: &Vec<String>| v.iter().map(|n| Ok((n.clone(), f.get(n)?.clone()))).collect::<E<Vec<_>>>();
        Ok(Arc::new(Inst { inputs: pick(&f.inputs)?, outputs: pick(&f.outputs)? }))
    }
    fn call(&mut self, name: &str, args: Vec<Val>) -> E<Val> {
        let t = self.tpl.get(name).ok_or_else(|| format!("{name} is not declared"))?.clone();
        if !t.func {
            return Ok(Val::Comp(self.instance(name, args, false)?));
        }
        if t.params.len() != args.len() {
            return Err(format!("{name} takes {} parameters", t.params.len()));
        }
        let mut f = Frame {
            scopes: vec![HashMap::new()],
            inputs: vec![],
            outputs: vec![],
            tpl: 0,
            lib: t.lib,
            top: false,
            ret: None,
            own_inputs: Default::default(),
        };
        for (p, a) in t.params.iter().zip(args) {
            f.declare(p, a)?;
        }
        self.depth += 1;
        if self.depth > 200 {
            return Err("calls nested too deep".into());
        }
        self.stmt(&mut f, &t.body)?;
        self.depth -= 1;
        f.ret.ok_or_else(|| format!("{name} returns nothing"))
    }
    fn dims(&mut self, f: &mut Frame, d: &[Ex]) -> E<Vec<usize>> {
        d.iter()
            .map(|e| {
                let v = self.eval(f, e)?;
                let n = num(&v)?;
                if n > 1_000_000 {
                    return Err("array too large".into());
                }
                Ok(n as usize)
            })
            .collect()
    }
    fn array(dims: &[usize], v: Val) -> Val {
        match dims.split_first() {
            None => v,
            Some((d, rest)) => Val::Arr(Arc::new(vec![Self::array(rest, v); *d])),
        }
    }
    fn stmt(&mut self, f: &mut Frame, s: &St) -> E<()> {
        if f.ret.is_some() {
            return Ok(());
        }
        self.budget = self.budget.checked_sub(1).ok_or("elaboration takes too long")?;
        match s {
            St::Nop => {}
            St::Block(v) => {
                f.scopes.push(HashMap::new());
                for s in v {
                    self.stmt(f, s)?;
                }
                f.scopes.pop();
            }
            St::Signal(kind, names, init) => {
                let mut made = vec![];
                for (n, d) in names {
                    let dims = self.dims(f, d)?;
                    let id = self.intern(n);
                    let mut own = vec![];
                    let v = self.sig_array(f, id, *kind, &dims, &mut own);
                    if *kind == 1 {
                        f.own_inputs.extend(own);
                        f.inputs.push(n.clone());
                    } else if *kind == 2 {
                        f.outputs.push(n.clone());
                    }
                    f.declare(n, v.clone())?;
                    made.push(v);
                }
                if let Some((op, e)) = init {
                    let r = self.eval(f, e)?;
                    if made.len() != 1 {
                        return Err("several signals with one value".into());
                    }
                    self.connect(f, &made[0], op, &r)?;
                }
            }
            St::Var(v) => {
                for (n, d, e) in v {
                    let dims = self.dims(f, d)?;
                    let val = match e {
                        Some(e) => self.eval(f, e)?,
                        None => Self::array(&dims, Val::S(cnum(0))),
                    };
                    f.declare(n, val)?;
                }
            }
            St::VarTuple(names, e) => {
                let r = self.eval(f, e)?;
                match r {
                    Val::Tuple(t) if t.len() == names.len() => {
                        for (n, v) in names.iter().zip(t.iter()) {
                            f.declare(n, v.clone())?;
                        }
                    }
                    _ => return Err("tuple sizes differ".into()),
                }
            }
            St::Comp(v) => {
                for (n, d, e) in v {
                    let dims = self.dims(f, d)?;
                    let val = match e {
                        Some(e) => self.eval(f, e)?,
                        None => Self::array(&dims, Val::Unset),
                    };
                    f.declare(n, val)?;
                }
            }
            St::If(c, a, b) => {
                let c = self.eval(f, c)?;
                if num(&c)? != 0 {
                    self.stmt(f, a)?;
                } else if let Some(b) = b {
                    self.stmt(f, b)?;
                }
            }
            St::For(init, c, step, body) => {
                f.scopes.push(HashMap::new());
                self.stmt(f, init)?;
                loop {
                    let c = self.eval(f, c)?;
                    if num(&c)? == 0 || f.ret.is_some() {
                        break;
                    }
                    self.stmt(f, body)?;
                    self.stmt(f, step)?;
                }
                f.scopes.pop();
            }
            St::While(c, body) => loop {
                let c = self.eval(f, c)?;
                if num(&c)? == 0 || f.ret.is_some() {
                    break;
                }
                self.stmt(f, body)?;
            },
            St::Return(e) => f.ret = Some(self.eval(f, e)?),
            St::Assert(e) => {
                let v = self.eval(f, e)?;
                if let Ok(n) = num(&v) {
                    if n == 0 {
                        return Err("assertion fails".into());
                    }
                }
            }
            St::Expr(e) => {
                self.eval(f, e)?;
            }
            St::Inc(l, o) => {
                let v = self.eval(f, l)?;
                let Val::S(s) = v else { return Err("++ of an array".into()) };
                let r = bin(if *o == "+" { "+" } else { "-" }, &s, &cnum(1))?;
                self.set_var(f, l, Val::S(r))?;
            }
            St::Assign(l, op, r) => match *op {
                "<==" | "<--" => {
                    if let Ex::Tuple(ls) = l {
                        let v = self.eval(f, r)?;
                        let Val::Tuple(vs) = v else { return Err("tuple expected".into()) };
                        if vs.len() != ls.len() {
                            return Err("tuple sizes differ".into());
                        }
                        for (l, v) in ls.iter().zip(vs.iter()) {
                            if matches!(l, Ex::Var(n) if n == "_") {
                                continue;
                            }
                            let lv = self.eval(f, l)?;
                            self.connect(f, &lv, op, v)?;
                        }
                    } else {
                        let v = self.eval(f, r)?;
                        let lv = self.eval(f, l)?;
                        self.connect(f, &lv, op, &v)?;
                    }
                }
                "==>" | "-->" => {
                    let v = self.eval(f, l)?;
                    let lv = self.eval(f, r)?;
                    self.connect(f, &lv, if *op == "==>" { "<==" } else { "<--" }, &v)?;
                }
                "===" => {
                    let (a, b) = (self.eval(f, l)?, self.eval(f, r)?);
                    if !shape_eq(&a, &b) {
                        return Err("=== of different shapes".into());
                    }
                    let (mut x, mut y) = (vec![], vec![]);
                    flat(&a, &mut x);
                    flat(&b, &mut y);
                    for (p, q) in x.iter().zip(&y) {
                        let (Val::S(p), Val::S(q)) = (p, q) else { return Err("=== of what is not a value".into()) };
                        match bin("-", p, q)? {
                            Sym::Lin(l) => {
                                if l.is_const() && l.c != 0 {
                                    return Err("constraint that is always false".into());
                                }
                                self.cons.push((Lin::default(), Lin::default(), l));
                            }
                            Sym::Quad(q) => self.cons.push((q.0.clone(), q.1.clone(), q.2.clone())),
                            Sym::Gen(_) => return Err("non quadratic constraint".into()),
                        }
                    }
                }
                "=" => {
                    let v = self.eval(f, r)?;
                    if let Ex::Tuple(ls) = l {
                        let Val::Tuple(vs) = v else { return Err("tuple expected".into()) };
                        for (l, v) in ls.iter().zip(vs.iter()) {
                            self.set_var(f, l, v.clone())?;
                        }
                    } else {
                        self.set_var(f, l, v)?;
                    }
                }
                op => {
                    let (a, b) = (self.eval(f, l)?, self.eval(f, r)?);
                    let (Val::S(a), Val::S(b)) = (a, b) else { return Err("arithmetic on arrays".into()) };
                    let o = OPS.iter().find(|o| **o == &op[..op.len() - 1]).ok_or("operator")?;
                    let r = bin(o, &a, &b)?;
                    self.set_var(f, l, Val::S(r))?;
                }
            },
        }
        Ok(())
    }
    fn path<'e>(&mut self, f: &mut Frame, l: &'e Ex) -> E<(&'e str, Vec<usize>)> {
        match l {
            Ex::Var(n) => Ok((n, vec![])),
            Ex::Index(b, i) => {
                let (n, mut p) = self.path(f, b)?;
                let i = self.eval(f, i)?;
                p.push(num(&i)? as usize);
                Ok((n, p))
            }
            _ => Err("cannot assign to this".into()),
        }
    }
    fn set_var(&mut self, f: &mut Frame, l: &Ex, v: Val) -> E<()> {
        let (n, p) = self.path(f, l)?;
        let slot = index_mut(f.slot(n)?, &p)?;
        match (&*slot, &v) {
            (Val::S(Sym::Lin(l)), _) if l.t.len() == 1 && l.c == 0 && l.t[0].1 == 1 && self.is_signal_named(n, l.t[0].0) => {
                return Err(format!("signal {n} assigned with ="))
            }
            (Val::Comp(_), Val::Comp(_)) => return Err(format!("component {n} is created twice")),
            (Val::Unset, Val::Comp(_)) => {}
            (Val::Unset, _) => return Err(format!("component {n} set to a value")),
            _ => {}
        }
        *slot = v;
        Ok(())
    }
    fn is_signal_named(&self, n: &str, s: Sig) -> bool {
        self.names[self.origin[s as usize].1 as usize] == n
    }
    fn connect(&mut self, f: &Frame, l: &Val, op: &str, r: &Val) -> E<()> {
        if let Val::Tuple(t) = r {
            if t.len() == 1 {
                return self.connect(f, l, op, &t[0]);
            }
            return Err("several values for one signal".into());
        }
        if !shape_eq(l, r) {
            return Err("assignment between different shapes".into());
        }
        let (mut x, mut y) = (vec![], vec![]);
        flat(l, &mut x);
        flat(r, &mut y);
        for (p, q) in x.iter().zip(&y) {
            let Val::S(Sym::Lin(t)) = p else { return Err("assignment to what is not a signal".into()) };
            if t.t.len() != 1 || t.c != 0 || t.t[0].1 != 1 {
                return Err("assignment to an expression".into());
            }
            let s = t.t[0].0;
            let Val::S(q) = q else { return Err("assignment of what is not a value".into()) };
            if f.own_inputs.contains(&s) {
                return Err("an input signal is assigned inside its template".into());
            }
            if self.rule[s as usize].is_some() {
                return Err(format!("signal {} is assigned twice", self.names[self.origin[s as usize].1 as usize]));
            }
            if op == "<==" {
                if let Sym::Gen(_) = q {
                    return Err("non quadratic constraint".into());
                }
                self.kind[s as usize] = Kind::Fixed;
            } else {
                self.kind[s as usize] = Kind::Hint;
            }
            self.rule[s as usize] = Some(q.clone());
            self.by_lib[s as usize] = f.lib;
        }
        Ok(())
    }
    fn eval(&mut self, f: &mut Frame, e: &Ex) -> E<Val> {
        Ok(match e {
            Ex::Num(n) => Val::S(cnum(*n)),
            Ex::Var(n) => f.get(n)?.clone(),
            Ex::Index(..) => {
                let mut idx = vec![];
                let mut b = e;
                while let Ex::Index(x, i) = b {
                    let i = self.eval(f, i)?;
                    idx.push(num(&i)? as usize);
                    b = x;
                }
                let base;
                let mut at = match b {
                    Ex::Var(n) => f.get(n)?,
                    _ => {
                        base = self.eval(f, b)?;
                        &base
                    }
                };
                for i in idx.iter().rev() {
                    at = match at {
                        Val::Arr(a) => a.get(*i).ok_or_else(|| format!("index {i} out of range ({})", a.len()))?,
                        _ => return Err("indexing what is not an array".into()),
                    };
                }
                at.clone()
            }
            Ex::Member(b, n) => {
                let v = self.eval(f, b)?;
                match v {
                    Val::Comp(c) => c
                        .inputs
                        .iter()
                        .chain(c.outputs.iter())
                        .find(|x| x.0 == *n)
                        .map(|x| x.1.clone())
                        .ok_or_else(|| format!("component has no signal {n}"))?,
                    Val::Unset => return Err(format!("signal {n} of a component that is not created")),
                    _ => return Err(format!("signal {n} of what is not a component")),
                }
            }
            Ex::Un(o, a) => {
                let Val::S(a) = self.eval(f, a)? else { return Err("arithmetic on an array".into()) };
                match (&a, *o) {
                    (Sym::Lin(l), o) if l.is_const() => Val::S(cnum(op1(o, l.c)?)),
                    (_, "-") => Val::S(bin("*", &cnum(P - 1), &a)?),
                    _ => Val::S(Sym::Gen(Arc::new(Gen::Un(o, a)))),
                }
            }
            Ex::Bin(o, a, b) => {
                let (a, b) = (self.eval(f, a)?, self.eval(f, b)?);
                let (Val::S(a), Val::S(b)) = (a, b) else { return Err("arithmetic on arrays".into()) };
                Val::S(bin(o, &a, &b)?)
            }
            Ex::Cond(c, a, b) => {
                let c = self.eval(f, c)?;
                if let Ok(c) = num(&c) {
                    return if c != 0 { self.eval(f, a) } else { self.eval(f, b) };
                }
                let (a, b) = (self.eval(f, a)?, self.eval(f, b)?);
                let (Val::S(c), Val::S(a), Val::S(b)) = (c, a, b) else { return Err("condition on arrays".into()) };
                Val::S(Sym::Gen(Arc::new(Gen::Cond(c, a, b))))
            }
            Ex::Arr(v) => Val::Arr(Arc::new(v.iter().map(|e| self.eval(f, e)).collect::<E<_>>()?)),
            Ex::Tuple(v) => Val::Tuple(Arc::new(v.iter().map(|e| self.eval(f, e)).collect::<E<_>>()?)),
            Ex::Call(n, a) => {
                let args = a.iter().map(|e| self.eval(f, e)).collect::<E<Vec<_>>>()?;
                self.call(n, args)?
            }
            Ex::Anon(n, a, ins) => {
                let args = a.iter().map(|e| self.eval(f, e)).collect::<E<Vec<_>>>()?;
                let vals = ins.iter().map(|(k, e)| Ok((k.clone(), self.eval(f, e)?))).collect::<E<Vec<_>>>()?;
                let c = self.instance(n, args, false)?;
                if c.inputs.len() != vals.len() {
                    return Err(format!("{n} takes {} inputs", c.inputs.len()));
                }
                for (i, (k, v)) in vals.iter().enumerate() {
                    let target = match k {
                        None => &c.inputs[i].1,
                        Some(k) => &c.inputs.iter().find(|x| x.0 == *k).ok_or("no such input")?.1,
                    };
                    self.connect(f, target, "<==", v)?;
                }
                match c.outputs.len() {
                    1 => c.outputs[0].1.clone(),
                    _ => Val::Tuple(Arc::new(c.outputs.iter().map(|o| o.1.clone()).collect())),
                }
            }
        })
    }
}

fn sigs_of(s: &Sym, out: &mut Vec<Sig>) {
    match s {
        Sym::Lin(l) => out.extend(l.t.iter().map(|x| x.0)),
        Sym::Quad(q) => {
            for l in [&q.0, &q.1, &q.2] {
                out.extend(l.t.iter().map(|x| x.0));
            }
        }
        Sym::Gen(g) => match &**g {
            Gen::Un(_, a) => sigs_of(a, out),
            Gen::Bin(_, a, b) => {
                sigs_of(a, out);
                sigs_of(b, out);
            }
            Gen::Cond(a, b, c) => {
                sigs_of(a, out);
                sigs_of(b, out);
                sigs_of(c, out);
            }
        },
    }
}

/// Where includes are read from.
pub trait Source {
    /// The text of an include, a key that identifies the file, and whether it is circomlib.
    fn load(&self, from: &str, path: &str) -> E<(String, String, bool)>;
}

pub struct Program {
    pub templates: HashMap<String, Arc<Template>>,
    pub main_templates: Vec<String>,
}
/// Parses a file and all it includes.
pub fn load(text: &str, at: &str, src: &dyn Source) -> E<Program> {
    let mut templates: HashMap<String, Arc<Template>> = HashMap::new();
    let mut seen: std::collections::BTreeSet<String> = [at.to_string()].into();
    let first = parse(text, false)?;
    let main_templates = first.templates.iter().map(|t| t.name.clone()).collect();
    let mut work = vec![(first, at.to_string())];
    while let Some((f, at)) = work.pop() {
        for t in &f.templates {
            if templates.insert(t.name.clone(), t.clone()).is_some() {
                return Err(format!("{} is declared twice", t.name));
            }
        }
        for i in &f.includes {
            let (text, key, lib) = src.load(&at, i)?;
            if seen.insert(key.clone()) {
                work.push((parse(&text, lib).map_err(|e| format!("{key}: {e}"))?, key));
            }
        }
    }
    Ok(Program { templates, main_templates })
}

impl Program {
    pub fn elaborate(&self, template: &str, args: &[u64]) -> E<Circuit> {
        let mut e = Elab {
            tpl: &self.templates,
            kind: vec![],
            origin: vec![],
            names: vec![],
            name_ids: HashMap::new(),
            by_lib: vec![],
            is_comp_input: vec![],
            rule: vec![],
            cons: vec![],
            depth: 0,
            budget: 400_000_000,
        };
        let top = e.instance(template, args.iter().map(|a| Val::S(cnum(*a))).collect(), true)?;
        let ids = |v: &Val| -> Vec<Sig> {
            let mut o = vec![];
            flat(v, &mut o);
            o.iter().map(|x| if let Val::S(Sym::Lin(l)) = x { l.t[0].0 } else { unreachable!() }).collect()
        };
        let inputs = top.inputs.iter().map(|x| (x.0.clone(), ids(&x.1))).collect();
        let outputs: BTreeMap<String, Vec<Sig>> = top.outputs.iter().map(|x| (x.0.clone(), ids(&x.1))).collect();
        let n = e.kind.len();
        let mut missing = vec![];
        for s in 0..n {
            if e.is_comp_input[s] && e.rule[s].is_none() {
                missing.push(format!("{}.{}", e.names[e.origin[s].0 as usize], e.names[e.origin[s].1 as usize]));
            }
        }
        for (n, o) in &outputs {
            if o.iter().any(|s| e.rule[*s as usize].is_none()) {
                missing.push(format!("output {n}"));
            }
        }
        // evaluation order
        let mut order = vec![];
        let mut mark = vec![0u8; n];
        let mut used = vec![false; n];
        let mut deps = vec![];
        for root in 0..n as Sig {
            if mark[root as usize] != 0 {
                continue;
            }
            let mut stack: Vec<(Sig, bool)> = vec![(root, false)];
            while let Some((s, done)) = stack.pop() {
                let i = s as usize;
                if done {
                    mark[i] = 2;
                    if e.rule[i].is_some() {
                        order.push(s);
                    }
                    continue;
                }
                if mark[i] == 2 {
                    continue;
                }
                if mark[i] == 1 {
                    return Err("signals depend on each other in a cycle".into());
                }
                mark[i] = 1;
                stack.push((s, true));
                if let Some(r) = &e.rule[i] {
                    deps.clear();
                    sigs_of(r, &mut deps);
                    for d in &deps {
                        used[*d as usize] = true;
                        match mark[*d as usize] {
                            0 => stack.push((*d, false)),
                            1 => {
                                // on the current path, or waiting on the stack
                                if stack.iter().any(|x| x.0 == *d && x.1) {
                                    return Err("signals depend on each other in a cycle".into());
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        for c in &e.cons {
            for l in [&c.0, &c.1, &c.2] {
                for t in &l.t {
                    used[t.0 as usize] = true;
                }
            }
        }
        Ok(Circuit {
            nsig: n,
            kind: e.kind,
            origin: e.origin,
            names: e.names,
            by_lib: e.by_lib,
            rule: e.rule,
            constraints: e.cons,
            order,
            inputs,
            outputs,
            missing,
            used,
        })
    }
}

fn lin_val(l: &Lin, v: &[u64]) -> u64 {
    let mut a = l.c;
    for (s, k) in &l.t {
        let x = v[*s as usize];
        if x == 0 {
            continue;
        }
        a = if *k == 1 {
            add(a, x)
        } else if *k == P - 1 {
            add(a, P - x)
        } else {
            add(a, mul(*k, x))
        };
    }
    a
}
fn sym_val(s: &Sym, v: &[u64]) -> u64 {
    match s {
        Sym::Lin(l) => lin_val(l, v),
        Sym::Quad(q) => {
            let a = lin_val(&q.0, v);
            let c = lin_val(&q.2, v);
            if a == 0 {
                return c;
            }
            let b = lin_val(&q.1, v);
            add(if a == 1 { b } else { mul(a, b) }, c)
        }
        Sym::Gen(g) => match &**g {
            Gen::Un(o, a) => op1(o, sym_val(a, v)).unwrap_or(0),
            Gen::Bin(o, a, b) => op2(o, sym_val(a, v), sym_val(b, v)).unwrap_or(0),
            Gen::Cond(c, a, b) => {
                if sym_val(c, v) != 0 {
                    sym_val(a, v)
                } else {
                    sym_val(b, v)
                }
            }
        },
    }
}

pub struct Witness {
    pub v: Vec<u64>,
    /// Index of a constraint that fails.
    pub broken: Option<usize>,
}
impl Circuit {
    pub fn signal_name(&self, s: Sig) -> String {
        let o = self.origin[s as usize];
        format!("{}.{}", self.names[o.0 as usize], self.names[o.1 as usize])
    }
    /// Evaluates; `choose` fixes signals that are not fixed by the circuit.
    pub fn witness(&self, input: &[u64], choose: &HashMap<Sig, u64>) -> Witness {
        let mut v = vec![0u64; self.nsig];
        let ins = self.inputs.values().flatten();
        for (s, x) in ins.zip(input) {
            v[*s as usize] = *x;
        }
        for (s, x) in choose {
            if self.kind[*s as usize] == Kind::Free {
                v[*s as usize] = *x;
            }
        }
        for s in &self.order {
            let i = *s as usize;
            if !choose.is_empty() && self.kind[i] == Kind::Hint {
                if let Some(x) = choose.get(s) {
                    v[i] = *x;
                    continue;
                }
            }
            v[i] = sym_val(self.rule[i].as_ref().unwrap(), &v);
        }
        let mut broken = None;
        for (k, c) in self.constraints.iter().enumerate() {
            let x = add(if c.0.t.is_empty() && c.0.c == 0 { 0 } else { mul(lin_val(&c.0, &v), lin_val(&c.1, &v)) }, lin_val(&c.2, &v));
            if x != 0 {
                broken = Some(k);
                break;
            }
        }
        Witness { v, broken }
    }
}

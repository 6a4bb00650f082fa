//! Reference meaning of a definition, independent of zk-regex: parts are parsed into position
//! automata over bytes (and the start-of-message symbol), the whole is made deterministic, and a
//! message is scanned from its start.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::OnceLock;

pub const BOS: usize = 256;
pub const NSYM: usize = 257;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Set(pub [u64; 5]);
impl Set {
    pub fn new() -> Set {
        Set([0; 5])
    }
    pub fn add(&mut self, s: usize) {
        self.0[s / 64] |= 1 << (s % 64);
    }
    pub fn range(a: usize, b: usize) -> Set {
        let mut s = Set::new();
        for x in a..=b {
            s.add(x);
        }
        s
    }
    pub fn has(&self, s: usize) -> bool {
        self.0[s / 64] >> (s % 64) & 1 == 1
    }
    pub fn or(&self, o: &Set) -> Set {
        let mut r = *self;
        for i in 0..5 {
            r.0[i] |= o.0[i];
        }
        r
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
}

#[derive(Clone, Debug)]
pub enum Re {
    Empty,
    Sym(Set),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>),
}

/// Sorted, disjoint ranges of characters.
type Chars = Vec<(u32, u32)>;
fn normal(mut v: Chars) -> Chars {
    v.sort();
    let mut r: Chars = vec![];
    for (a, b) in v {
        match r.last_mut() {
            Some(l) if a <= l.1.saturating_add(1) => l.1 = l.1.max(b),
            _ => r.push((a, b)),
        }
    }
    r
}
fn negate(v: Chars) -> Chars {
    let mut r = vec![];
    let mut at = 0;
    for (a, b) in normal(v) {
        if a > at {
            r.push((at, a - 1));
        }
        at = b + 1;
    }
    if at <= 0x10ffff {
        r.push((at, 0x10ffff));
    }
    r
}
fn enc(c: u32) -> Vec<u8> {
    match c {
        0..=0x7f => vec![c as u8],
        0x80..=0x7ff => vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8],
        0x800..=0xffff => vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
        _ => vec![0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
    }
}
/// The byte sequences of the characters of a range with encodings of equal length.
fn utf8_range(a: u32, b: u32, out: &mut Vec<Re>) {
    let (ea, eb) = (enc(a), enc(b));
    let n = ea.len();
    if n == 1 {
        out.push(Re::Sym(Set::range(a as usize, b as usize)));
        return;
    }
    // split until each trailing byte ranges over everything or is fixed
    for k in 1..n {
        let m = (1u32 << (6 * k)) - 1;
        if (a & !m) != (b & !m) {
            if a & m != 0 {
                utf8_range(a, a | m, out);
                utf8_range((a | m) + 1, b, out);
                return;
            }
            if b & m != m {
                utf8_range(a, (b & !m) - 1, out);
                utf8_range(b & !m, b, out);
                return;
            }
        }
    }
    out.push(Re::Cat((0..n).map(|i| Re::Sym(Set::range(ea[i] as usize, eb[i] as usize))).collect()));
}
fn chars_re(v: Chars) -> Re {
    let mut alts = vec![];
    let mut one = Set::new();
    for (a, b) in normal(v) {
        for (lo, hi) in [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)] {
            let (x, y) = (a.max(lo), b.min(hi));
            if x <= y {
                if hi == 0x7f {
                    one = one.or(&Set::range(x as usize, y as usize));
                } else {
                    utf8_range(x, y, &mut alts);
                }
            }
        }
    }
    if !one.is_empty() {
        alts.insert(0, Re::Sym(one));
    }
    match alts.len() {
        1 => alts.pop().unwrap(),
        _ => Re::Alt(alts), // no alternative: matches nothing
    }
}

pub struct Parser<'a> {
    s: Vec<char>,
    i: usize,
    pub carets: usize,
    pub dollar: bool,
    _p: std::marker::PhantomData<&'a ()>,
}
type P<T> = Result<T, String>;
impl<'a> Parser<'a> {
    /// The expression, how many carets it has, and whether it ends in a dollar sign.
    pub fn parse(s: &str) -> P<(Re, usize, bool)> {
        let mut p = Parser { s: s.chars().collect(), i: 0, carets: 0, dollar: false, _p: Default::default() };
        let r = p.alt(0)?;
        if p.i != p.s.len() {
            return Err("unbalanced parenthesis".into());
        }
        Ok((r, p.carets, p.dollar))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn alt(&mut self, depth: u32) -> P<Re> {
        let mut v = vec![self.cat(depth)?];
        while self.peek() == Some('|') {
            self.i += 1;
            v.push(self.cat(depth)?);
        }
        if v.len() > 1 && depth == 0 && self.dollar {
            return Err("unsupported: $ of one alternative".into());
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self, depth: u32) -> P<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let before = self.carets;
            let a = self.atom(depth)?;
            let at = self.i;
            v.push(self.repeats(a)?);
            if self.carets > before && self.i > at {
                return Err("unsupported: caret repeated".into());
            }
        }
        Ok(match v.len() {
            0 => Re::Empty,
            1 => v.pop().unwrap(),
            _ => Re::Cat(v),
        })
    }
    fn repeats(&mut self, mut a: Re) -> P<Re> {
        loop {
            let (lo, hi) = match self.peek() {
                Some('*') => (0, None),
                Some('+') => (1, None),
                Some('?') => (0, Some(1)),
                Some('{') => {
                    let close = self.s[self.i..].iter().position(|c| *c == '}').ok_or("unclosed repetition")? + self.i;
                    let t: String = self.s[self.i + 1..close].iter().collect();
                    let num = |x: &str| x.parse::<u32>().map_err(|_| "bad repetition".to_string());
                    let r = match t.split_once(',') {
                        None => {
                            let n = num(&t)?;
                            (n, Some(n))
                        }
                        Some((a, "")) => (num(a)?, None),
                        Some((a, b)) => (num(a)?, Some(num(b)?)),
                    };
                    if let Some(h) = r.1 {
                        if h < r.0 {
                            return Err("bad repetition".into());
                        }
                    }
                    if r.0 > 100 || r.1.unwrap_or(0) > 100 {
                        return Err("unsupported: long repetition".into());
                    }
                    self.i = close;
                    r
                }
                _ => return Ok(a),
            };
            self.i += 1;
            if self.peek() == Some('?') {
                return Err("unsupported: lazy repetition".into());
            }
            a = Re::Rep(Box::new(a), lo, hi);
        }
    }
    fn escape(&mut self) -> P<Chars> {
        let c = self.peek().ok_or("trailing backslash")?;
        self.i += 1;
        let one = |c: char| Ok(vec![(c as u32, c as u32)]);
        match c {
            'n' => one('\n'),
            'r' => one('\r'),
            't' => one('\t'),
            'v' => one('\x0b'),
            'f' => one('\x0c'),
            'a' => one('\x07'),
            'x' => {
                let t: String = self.s.get(self.i..self.i + 2).ok_or("bad escape")?.iter().collect();
                self.i += 2;
                let n = u32::from_str_radix(&t, 16).map_err(|_| "bad escape".to_string())?;
                Ok(vec![(n, n)])
            }
            c if c.is_ascii_alphanumeric() || c == '<' || c == '>' => Err(format!("unsupported: escape \\{c}")),
            c if c.is_ascii_punctuation() => one(c),
            _ => Err("bad escape".into()),
        }
    }
    fn class(&mut self) -> P<Chars> {
        let neg = self.peek() == Some('^');
        if neg {
            self.i += 1;
        }
        let mut v: Chars = vec![];
        let mut first = true;
        loop {
            let c = self.peek().ok_or("unclosed class")?;
            self.i += 1;
            if c == ']' && !first {
                break;
            }
            first = false;
            if c == '[' {
                if self.peek() == Some(':') {
                    return Err("unsupported: named class".into());
                }
                v.extend(self.class()?);
                continue;
            }
            if (c == '&' || c == '~' || c == '-') && self.peek() == Some(c) {
                return Err("unsupported: class operation".into());
            }
            let lo = if c == '\\' { self.escape()? } else { vec![(c as u32, c as u32)] };
            if self.peek() == Some('-') && self.s.get(self.i + 1).is_some_and(|c| *c != ']') {
                self.i += 1;
                let d = self.peek().ok_or("unclosed class")?;
                self.i += 1;
                if d == '[' {
                    return Err("unsupported: class operation".into());
                }
                let hi = if d == '\\' { self.escape()? } else { vec![(d as u32, d as u32)] };
                let (a, b) = (lo[0].0, hi[0].1);
                if a > b {
                    return Err("bad range".into());
                }
                v.push((a, b));
            } else {
                v.extend(lo);
            }
        }
        Ok(if neg { negate(v) } else { v })
    }
    fn atom(&mut self, depth: u32) -> P<Re> {
        let c = self.peek().unwrap();
        self.i += 1;
        match c {
            '(' => {
                if self.peek() == Some('?') {
                    if self.s.get(self.i + 1) == Some(&':') {
                        self.i += 2;
                    } else {
                        return Err("unsupported: group flags".into());
                    }
                }
                let r = self.alt(depth + 1)?;
                if self.peek() != Some(')') {
                    return Err("unbalanced parenthesis".into());
                }
                self.i += 1;
                Ok(r)
            }
            '[' => Ok(chars_re(self.class()?)),
            '\\' => Ok(chars_re(self.escape()?)),
            '.' => Ok(chars_re(negate(vec![(10, 10)]))),
            '^' => {
                self.carets += 1;
                let mut s = Set::new();
                s.add(BOS);
                Ok(Re::Sym(s))
            }
            '$' => {
                if self.i != self.s.len() || depth != 0 {
                    return Err("unsupported: $ inside".into());
                }
                self.dollar = true;
                Ok(Re::Empty)
            }
            '*' | '+' | '?' => Err("nothing to repeat".into()),
            '{' => Err("unsupported: bare brace".into()),
            c => Ok(chars_re(vec![(c as u32, c as u32)])),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Part {
    pub public: bool,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct State {
    pub next: Vec<i32>, // by symbol, -1 none
    pub accept: bool,
    /// The part all of whose positions this state stands for; None: several, or the start state.
    pub part: Option<usize>,
    /// The parts that the byte just read may belong to.
    pub parts: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub states: Vec<State>,
    pub publics: Vec<usize>,
    pub nparts: usize,
    pub end_anchor: bool,
    pub caret: bool,
    /// Every byte of a match belongs to one part whatever follows it.
    pub unambiguous: bool,
    /// The first part is public and has more than the start of the message before its caret ends.
    pub public_caret: bool,
    pub empty_match: bool,
    /// The positions: symbols, part, followers, whether a match can start and end there.
    pos: Vec<(Set, usize)>,
    follow: Vec<Vec<usize>>,
    first: Vec<usize>,
    last: Vec<bool>,
    like_start: OnceLock<Vec<usize>>,
}

struct Nfa {
    pos: Vec<(Set, usize)>,
    follow: Vec<BTreeSet<usize>>,
}
struct Frag {
    first: BTreeSet<usize>,
    last: BTreeSet<usize>,
    nullable: bool,
    none: bool,
}
impl Nfa {
    fn build(&mut self, r: &Re, part: usize) -> P<Frag> {
        if self.pos.len() > 3000 {
            return Err("unsupported: too large".into());
        }
        let eps = || Frag { first: BTreeSet::new(), last: BTreeSet::new(), nullable: true, none: false };
        Ok(match r {
            Re::Empty => eps(),
            Re::Sym(s) => {
                let p = self.pos.len();
                self.pos.push((*s, part));
                self.follow.push(BTreeSet::new());
                let one: BTreeSet<usize> = [p].into();
                Frag { first: one.clone(), last: one, nullable: false, none: false }
            }
            Re::Cat(v) => {
                let mut f = eps();
                for r in v {
                    let g = self.build(r, part)?;
                    f = self.cat(f, g);
                }
                f
            }
            Re::Alt(v) => {
                let mut f = Frag { first: BTreeSet::new(), last: BTreeSet::new(), nullable: false, none: true };
                for r in v {
                    let g = self.build(r, part)?;
                    if g.none {
                        continue;
                    }
                    f.first.extend(&g.first);
                    f.last.extend(&g.last);
                    f.nullable |= g.nullable;
                    f.none = false;
                }
                f
            }
            Re::Rep(r, lo, hi) => {
                let mut f = eps();
                for _ in 0..*lo {
                    let g = self.build(r, part)?;
                    f = self.cat(f, g);
                }
                match hi {
                    None => {
                        let mut g = self.build(r, part)?;
                        for l in g.last.clone() {
                            self.follow[l].extend(&g.first);
                        }
                        g.nullable = true;
                        g.none = false;
                        f = self.cat(f, g);
                    }
                    Some(h) => {
                        // (r(r(r)?)?)?
                        let mut tail = eps();
                        for _ in *lo..*h {
                            let g = self.build(r, part)?;
                            tail = self.cat(g, tail);
                            tail.nullable = true;
                            tail.none = false;
                        }
                        f = self.cat(f, tail);
                    }
                }
                f
            }
        })
    }
    fn cat(&mut self, a: Frag, b: Frag) -> Frag {
        if a.none || b.none {
            return Frag { first: BTreeSet::new(), last: BTreeSet::new(), nullable: false, none: true };
        }
        for l in &a.last {
            self.follow[*l].extend(&b.first);
        }
        let mut first = a.first;
        if a.nullable {
            first.extend(&b.first);
        }
        let mut last = b.last;
        if b.nullable {
            last.extend(&a.last);
        }
        Frag { first, last, nullable: a.nullable && b.nullable, none: false }
    }
}

impl Model {
    pub fn new(parts: &[Part]) -> P<Model> {
        if parts.is_empty() {
            return Err("no parts".into());
        }
        let mut n = Nfa { pos: vec![], follow: vec![] };
        let mut f = Frag { first: BTreeSet::new(), last: BTreeSet::new(), nullable: true, none: false };
        let mut end_anchor = false;
        let mut caret = false;
        let mut public_caret = false;
        for (i, p) in parts.iter().enumerate() {
            let (re, c, d) = Parser::parse(&p.text)?;
            if d && i + 1 != parts.len() {
                return Err("$ before the last part".into());
            }
            if c > 0 {
                if caret || c > 1 {
                    return Err("unsupported: several carets".into());
                }
                caret = true;
                public_caret = p.public && !p.text.starts_with('^');
            }
            end_anchor |= d;
            let g = n.build(&re, i)?;
            f = n.cat(f, g);
        }
        if f.none {
            return Err("matches nothing".into());
        }
        // drop positions that no match passes through
        let np = n.pos.len();
        let mut useful = vec![false; np];
        let mut work: Vec<usize> = f.last.iter().copied().collect();
        let mut rev = vec![vec![]; np];
        for (a, fs) in n.follow.iter().enumerate() {
            for b in fs {
                rev[*b].push(a);
            }
        }
        for w in &work {
            useful[*w] = true;
        }
        while let Some(p) = work.pop() {
            for q in &rev[p] {
                if !useful[*q] {
                    useful[*q] = true;
                    work.push(*q);
                }
            }
        }
        let mut ids: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
        let start: BTreeSet<usize> = [usize::MAX].into();
        let mut list = vec![start.clone()];
        ids.insert(start, 0);
        let mut states = vec![];
        let mut k = 0;
        let mut unambiguous = true;
        while k < list.len() {
            if k > 1500 {
                return Err("unsupported: too many states".into());
            }
            let s = list[k].clone();
            let mut cand = BTreeSet::new();
            let mut accept = false;
            for p in &s {
                if *p == usize::MAX {
                    cand.extend(f.first.iter().copied());
                    accept |= f.nullable;
                } else {
                    cand.extend(n.follow[*p].iter().copied());
                    accept |= f.last.contains(p);
                }
            }
            let cand: Vec<usize> = cand.into_iter().filter(|p| useful[*p]).collect();
            let mut next = vec![-1i32; NSYM];
            for (sym, slot) in next.iter_mut().enumerate() {
                let t: BTreeSet<usize> = cand.iter().copied().filter(|p| n.pos[*p].0.has(sym)).collect();
                if t.is_empty() {
                    continue;
                }
                let id = match ids.get(&t) {
                    Some(i) => *i,
                    None => {
                        list.push(t.clone());
                        ids.insert(t, list.len() - 1);
                        list.len() - 1
                    }
                };
                *slot = id as i32;
            }
            let ps: BTreeSet<usize> = s.iter().filter(|p| **p != usize::MAX).map(|p| n.pos[*p].1).collect();
            if ps.len() > 1 {
                unambiguous = false;
            }
            let part = if ps.len() == 1 { ps.iter().next().copied() } else { None };
            states.push(State { next, accept, part, parts: ps.into_iter().collect() });
            k += 1;
        }
        let publics = parts.iter().enumerate().filter(|p| p.1.public).map(|p| p.0).collect();
        let follow = n.follow.iter().map(|f| f.iter().copied().filter(|p| useful[*p]).collect()).collect();
        let first = f.first.iter().copied().filter(|p| useful[*p]).collect();
        let last = (0..np).map(|p| f.last.contains(&p)).collect();
        Ok(Model { pos: n.pos, follow, first, last, empty_match: states[0].accept, states, publics, nparts: parts.len(), end_anchor, caret, unambiguous, public_caret, like_start: OnceLock::new() })
    }

    /// Are the parts of a match at the start of a message the same whether or not it begins with the
    /// start of the message itself (for the caret of "(a|^)b")?
    pub fn same_parts_by_caret(&self, matched: &[u8]) -> bool {
        let run = |from: Option<usize>| {
            let mut cur = from?;
            let mut parts = vec![];
            for b in matched {
                cur = self.step(cur, *b as usize)?;
                parts.push(&self.states[cur].parts);
            }
            self.states[cur].accept.then_some(parts)
        };
        match (run(Some(0)), run(self.step(0, BOS))) {
            (Some(a), Some(b)) => a == b,
            _ => true,
        }
    }
    pub fn step(&self, s: usize, sym: usize) -> Option<usize> {
        let n = self.states[s].next[sym];
        if n < 0 {
            None
        } else {
            Some(n as usize)
        }
    }
    /// The state reached from the start by the symbols.
    pub fn run(&self, syms: impl Iterator<Item = usize>) -> Option<usize> {
        let mut s = 0;
        for y in syms {
            s = self.step(s, y)?;
        }
        Some(s)
    }
}

/// The minimal automaton of one part: how many accept states, does it accept the empty string, does
/// it come back to its start state, has it any transition. None: the part is not a plain one.
pub fn shape(text: &str, caret: bool) -> Option<(usize, bool, bool, bool)> {
    match Parser::parse(text) {
        Ok((_, c, false)) if c == caret as usize => {}
        _ => return None,
    }
    let m = Model::new(&[Part { public: false, text: text.into() }]).ok()?;
    let n = m.states.len();
    let mut class: Vec<usize> = m.states.iter().map(|s| s.accept as usize).collect();
    loop {
        let mut ids: BTreeMap<(usize, Vec<i64>), usize> = BTreeMap::new();
        let next: Vec<usize> = (0..n)
            .map(|s| {
                let key = (class[s], m.states[s].next.iter().map(|t| if *t < 0 { -1 } else { class[*t as usize] as i64 }).collect());
                let k = ids.len();
                *ids.entry(key).or_insert(k)
            })
            .collect();
        let same = next.iter().max() == class.iter().max();
        class = next;
        if same {
            break;
        }
    }
    let accepts: BTreeSet<usize> = (0..n).filter(|s| m.states[*s].accept).map(|s| class[s]).collect();
    let back = m.states.iter().any(|s| s.next.iter().any(|t| *t >= 0 && class[*t as usize] == class[0]));
    Some((accepts.len(), m.states[0].accept, back, n > 1))
}
/// What follows the caret that begins a definition, alone or as an alternative of its first group.
fn after_caret(text: &str) -> Option<String> {
    match Parser::parse(text) {
        Ok((Re::Alt(_), 1, false)) => return None,
        Ok((_, 1, false)) => {}
        _ => return None,
    }
    if let Some(rest) = text.strip_prefix('^') {
        return Some(rest.into());
    }
    let open = if text.starts_with("(?:") { 3 } else { 1 };
    if !text.starts_with('(') {
        return None;
    }
    text.match_indices(')').find_map(|(k, _)| {
        let (inner, rest) = (text.get(open..k)?, &text[k + 1..]);
        let other = inner.strip_suffix("|^").or_else(|| inner.strip_prefix("^|"))?;
        (shape(other, false).is_some() && matches!(Parser::parse(rest), Ok((_, 0, false)))).then(|| rest.to_string())
    })
}
/// A definition that the compiler has no reason to refuse: anchors only at its ends, every part
/// matches something, and the automaton has one accept state.
pub fn plainly_supported(parts: &[Part]) -> bool {
    let mut parts = parts.to_vec();
    if let Some(l) = parts.last_mut() {
        if matches!(Parser::parse(&l.text), Ok((_, _, true))) {
            l.text.pop();
        }
    }
    let caret = parts.first().and_then(|f| after_caret(&f.text));
    if caret.as_ref().is_some_and(|rest| rest.is_empty() && (parts[0].public || parts.len() == 1)) {
        return false;
    }
    let shapes: Vec<_> = parts.iter().enumerate().map(|(i, p)| shape(&p.text, i == 0 && caret.is_some())).collect();
    parts.iter().zip(&shapes).enumerate().all(|(i, (p, s))| match s {
        Some((_, _, back, some)) => !p.public || (*some && (i > 0 || !back)),
        None => false,
    }) && matches!(shapes.last(), Some(Some((1, false, _, _))))
}

/// What a scan of a message finds.
#[derive(Clone, PartialEq, Debug)]
pub struct Found {
    pub out: bool,
    /// For each public part, the bytes of it in matches.
    pub reveal: Vec<Vec<bool>>,
    pub accepted_runs: usize,
}

impl Model {
    /// Scans a message of `msg` (None: never part of a match; 0 is padding), as the circuits do: one
    /// run at a time, restarted at a byte that the run cannot take. A match under $ ends where the
    /// message ends (its last byte that is not zero).
    pub fn scan(&self, msg: &[i64]) -> Found {
        self.scan_by(msg, false)
    }
    /// The states from which all goes on as from the start.
    pub fn like_start(&self) -> &[usize] {
        self.like_start.get_or_init(|| {
            let n = self.states.len();
            let mut class: Vec<usize> = self.states.iter().map(|s| s.accept as usize).collect();
            loop {
                let mut ids: HashMap<(usize, Vec<(i64, &[usize])>), usize> = HashMap::new();
                let next: Vec<usize> = (0..n)
                    .map(|s| {
                        let go = self.states[s].next.iter().map(|t| if *t < 0 { (-1, &[][..]) } else { (class[*t as usize] as i64, &self.states[*t as usize].parts[..]) });
                        let k = ids.len();
                        *ids.entry((class[s], go.collect())).or_insert(k)
                    })
                    .collect();
                let same = next.iter().max() == class.iter().max();
                class = next;
                if same {
                    break;
                }
            }
            (1..n).filter(|s| class[*s] == class[0]).collect()
        })
    }
    /// The same; with `restart`, a run that is back where it began is over, and the byte that brought
    /// it there may begin the next one.
    pub fn scan_by(&self, msg: &[i64], restart: bool) -> Found {
        let over = if restart { self.like_start() } else { &[] };
        let n = msg.len();
        // state after the start symbol and after each message symbol; run number of each
        let mut states = Vec::with_capacity(n + 1);
        let mut runs = Vec::with_capacity(n + 1);
        let mut cur = 0usize;
        let mut run = 0usize;
        for k in 0..=n {
            let sym = if k == 0 {
                Some(BOS)
            } else {
                match msg[k - 1] {
                    v @ 1..=254 => Some(v as usize),
                    _ => None,
                }
            };
            let next = sym.and_then(|y| self.step(cur, y)).filter(|x| !over.contains(x));
            cur = match next {
                Some(x) => {
                    if cur == 0 {
                        run += 1;
                    }
                    x
                }
                None => {
                    run += 1;
                    sym.and_then(|y| self.step(0, y)).unwrap_or(0)
                }
            };
            states.push(cur);
            runs.push(run);
        }
        let acc = |k: usize| states[k] != 0 && self.states[states[k]].accept;
        let any = (0..=n).any(acc);
        // the last accepting index of each run
        let mut last_acc: BTreeMap<usize, usize> = BTreeMap::new();
        let content = msg.iter().rposition(|v| *v != 0).map_or(0, |p| p + 1);
        for k in 0..=n {
            if acc(k) {
                last_acc.insert(runs[k], k);
            }
        }
        let mut out = any;
        if self.end_anchor {
            out = acc(content);
            last_acc.retain(|_, k| *k == content);
        }
        let mut reveal = vec![vec![false; n]; self.publics.len()];
        // the empty string is found everywhere
        out |= self.empty_match;
        if out {
            for k in 1..=n {
                if states[k] == 0 || last_acc.get(&runs[k]).is_none_or(|l| *l < k) {
                    continue;
                }
                for (i, q) in self.publics.iter().enumerate() {
                    if self.states[states[k]].parts.contains(q) {
                        reveal[i][k - 1] = true;
                    }
                }
            }
        }
        Found { out, reveal, accepted_runs: last_acc.len() }
    }

    /// Whether the definition matches anywhere in the message, and which bytes some way of matching
    /// gives to each public part.
    pub fn possible(&self, msg: &[i64]) -> (bool, Vec<Vec<bool>>) {
        let n = msg.len();
        let np = self.pos.len();
        let sym = |k: usize| match k {
            0 => Some(BOS),
            _ => Some(msg[k - 1]).filter(|b| (1..255).contains(b)).map(|b| b as usize),
        };
        let content = msg.iter().rposition(|v| *v != 0).map_or(0, |p| p + 1);
        let mut fwd = vec![vec![false; np]; n + 1];
        for k in 0..=n {
            let Some(y) = sym(k) else { continue };
            let mut go = |p: usize| {
                if self.pos[p].0.has(y) {
                    fwd[k][p] = true;
                }
            };
            self.first.iter().for_each(|p| go(*p));
            if k > 0 {
                for q in 0..np {
                    if fwd[k - 1][q] {
                        for p in &self.follow[q] {
                            if self.pos[*p].0.has(y) {
                                fwd[k][*p] = true;
                            }
                        }
                    }
                }
            }
        }
        let mut reveal = vec![vec![false; n]; self.publics.len()];
        let mut out = self.empty_match;
        let mut next: Vec<bool> = vec![false; np];
        for k in (0..=n).rev() {
            let mut here = vec![false; np];
            for p in 0..np {
                let ends = self.last[p] && (!self.end_anchor || k == content);
                let goes = k < n && self.follow[p].iter().any(|q| next[*q] && sym(k + 1).is_some_and(|y| self.pos[*q].0.has(y)));
                here[p] = ends || goes;
                if fwd[k][p] && here[p] {
                    out = true;
                    if k > 0 {
                        if let Some(i) = self.publics.iter().position(|q| *q == self.pos[p].1) {
                            reveal[i][k - 1] = true;
                        }
                    }
                }
            }
            next = here;
        }
        (out, reveal)
    }

    /// All (start, end) such that the definition matches these bytes; a caret matches at 0 only.
    pub fn matches(&self, msg: &[u8]) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for a in 0..=msg.len() {
            for bos in [true, false] {
                if bos && a > 0 {
                    continue;
                }
                let mut s = if bos {
                    match self.step(0, BOS) {
                        Some(s) => s,
                        None => continue,
                    }
                } else {
                    0
                };
                let ok = |s: usize, e: usize| self.states[s].accept && (!self.end_anchor || e == msg.len());
                if ok(s, a) {
                    v.push((a, a));
                }
                for e in a..msg.len() {
                    match self.step(s, msg[e] as usize) {
                        Some(x) => s = x,
                        None => break,
                    }
                    if ok(s, e + 1) {
                        v.push((a, e + 1));
                    }
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
}

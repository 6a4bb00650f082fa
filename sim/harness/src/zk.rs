//! Authors, provers and verifiers: C09 to C12.
use crate::circ::{masked, Includes, Ready};
use crate::circom::Sig;
use crate::def::{self, Def, Teller};
use crate::fs::{add_faults, gen_env, gen_request, shipped, template, used, CWD};
use crate::lab::*;
use crate::re::{Model, Part, BOS};
use crate::rng::{hash_bytes, mix, Rng};
use crate::sim::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::{Arc, Mutex, OnceLock};

pub fn generate(p: &str, r: &mut Rng, lab: &mut Lab) -> Res<History> {
    match p {
        "C11" => generate_shipped(r, lab),
        "C12" => generate_tables(r, lab),
        _ => generate_circuit(p, r, lab),
    }
}
pub fn judge(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    match h.property.as_str() {
        "C11" => judge_shipped(h, lab),
        "C12" => judge_tables(h, lab),
        _ => judge_circuit(h, lab),
    }
}

// ------------------------------------------------------------------ authors
/// Attempts at a request, the last of them undisturbed.
fn author(r: &mut Rng, mut disk: Disk, q: Req, g: &Golden, quiet: bool) -> (Disk, Vec<Step>) {
    let mut steps = vec![];
    if !quiet {
        if r.chance(1, 3) {
            crate::fs::damage_outputs(r, &mut disk, &q, g);
        }
        for _ in 0..1 + r.us(2) {
            let mut e = gen_env(r);
            let mut f = r.fork();
            let crash = r.chance(1, 2);
            add_faults(&mut f, &mut e, g, crash);
            if let Some(c) = e.capacity {
                e.capacity = Some(c + used(&disk));
            }
            steps.push(Step::Request(q.clone(), e));
        }
    }
    steps.push(Step::Request(q, Env::quiet(CWD)));
    (disk, steps)
}
/// The first acknowledged request of a history, and the disk then.
fn acknowledged(h: &History, lab: &mut Lab) -> Res<Option<(Disk, Req)>> {
    let mut disk = h.disk.clone();
    for s in &h.steps {
        match s {
            Step::Request(q, e) => {
                let (rep, _) = lab.request(&mut disk, q, e)?;
                if rep == Reply::Ok {
                    lab.st.mark("author acknowledged");
                    return Ok(Some((disk, q.clone())));
                }
                lab.st.mark("author failed");
            }
            Step::Damage(p, n) => {
                match n {
                    Some(n) => disk.insert(p.clone(), n.clone()),
                    None => disk.remove(p),
                };
            }
            _ => {}
        }
    }
    Ok(None)
}
/// A definition without anything that the compiler does not support, refused although nothing failed.
fn needlessly_refused(q: &Req, disk: &Disk, reply: &Reply) -> Option<String> {
    if *reply == Reply::Ok || (q.circom.is_some() && q.template.is_none()) {
        return None;
    }
    // the directories are there
    let home = |p: &String| disk.get(&p[..p.rfind('/').unwrap_or(0)]).is_some_and(|n| n.dir);
    if !q.outputs(CWD).values().all(home) {
        return None;
    }
    match meaning(q, disk) {
        Some((parts, None)) if crate::re::plainly_supported(&parts) => {
            let def = parts.iter().map(|p| if p.public { format!("«{}»", p.text) } else { p.text.clone() }).collect::<Vec<_>>().join(" ");
            Some(format!("the compile of {def:?} ended with {reply:?} although nothing failed and nothing in it is unsupported"))
        }
        _ => None,
    }
}
fn refusal(prop: &str, g: &Golden, disk: &Disk, q: &Req) -> Option<History> {
    if prop == "C09" {
        return None;
    }
    needlessly_refused(q, disk, &g.reply)?;
    Some(History { property: prop.into(), seed: 0, disk: disk.clone(), steps: vec![Step::Request(q.clone(), Env::quiet(CWD))], extra: json!({"n": 8, "attempts": [], "claims": []}) })
}
fn refused(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    if h.property == "C09" {
        return Ok(None);
    }
    let mut disk = h.disk.clone();
    for s in &h.steps {
        if let Step::Request(q, e) = s {
            let (rep, _) = lab.request(&mut disk, q, e)?;
            if json!(e) == json!(Env::quiet(CWD)) {
                if let Some(w) = needlessly_refused(q, &h.disk, &rep) {
                    return Ok(breach("supported definition refused", w));
                }
            }
        }
    }
    Ok(None)
}
/// What a request means: its parts, and the transitions of raw substrings.
fn meaning(q: &Req, disk: &Disk) -> Option<(Vec<Part>, Option<Vec<Vec<(usize, usize)>>>)> {
    let read = |p: &str| -> Option<Value> { serde_json::from_slice(&disk.get(&absolute(CWD, p))?.data.0).ok() };
    if let Some(raw) = &q.raw {
        let t = match &q.substrs {
            Some(s) => Some(serde_json::from_value(read(s)?.get("transitions")?.clone()).ok()?),
            None => None,
        };
        return Some((vec![Part { public: false, text: raw.clone() }], t));
    }
    let v = match &q.config {
        Some(c) => c.clone(),
        None => read(&q.def)?,
    };
    Some((Def::from_json(&v)?.parts, None))
}
pub fn generates(q: &Req) -> bool {
    q.gen.unwrap_or(q.raw.is_some())
}

// ------------------------------------------------------------------ tables
/// A lookup table of the halo2 verifier.
#[derive(Clone, Debug)]
pub struct Table {
    pub accept: usize,
    pub max: usize,
    pub rows: Vec<(usize, usize, usize)>,
    /// By state: (byte, next).
    pub from: BTreeMap<usize, Vec<(usize, usize)>>,
}
fn numbers(l: &str) -> Option<Vec<usize>> {
    l.split_whitespace().map(|w| w.parse().ok()).collect()
}
pub fn read_table(t: &[u8]) -> Result<Table, String> {
    let t = std::str::from_utf8(t).map_err(|_| "not text")?;
    let mut l = t.lines();
    let mut head = || -> Result<usize, String> {
        match l.next().and_then(numbers).as_deref() {
            Some([x]) => Ok(*x),
            _ => Err("bad head line".into()),
        }
    };
    let first = head()?;
    if first != 0 {
        return Err(format!("the first state is {first}"));
    }
    let (accept, max) = (head()?, head()?);
    let mut rows = vec![];
    let mut from: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new();
    for x in l {
        match numbers(x).as_deref() {
            Some([a, b, c]) if *c < 256 => {
                rows.push((*a, *b, *c));
                from.entry(*a).or_default().push((*c, *b));
            }
            _ => return Err(format!("bad row {x:?}")),
        }
    }
    Ok(Table { accept, max, rows, from })
}
#[derive(Clone, Debug)]
pub struct SubTable {
    pub starts: Vec<usize>,
    pub ends: Vec<usize>,
    pub rows: Vec<(usize, usize)>,
}
fn read_sub(t: &[u8]) -> Result<SubTable, String> {
    let t = std::str::from_utf8(t).map_err(|_| "not text")?;
    let mut l = t.lines();
    let mut line = || l.next().and_then(numbers).ok_or_else(|| "bad line".to_string());
    let (starts, ends) = (line()?, line()?);
    let mut rows = vec![];
    for x in l {
        match numbers(x).as_deref() {
            Some([a, b]) => rows.push((*a, *b)),
            _ => return Err(format!("bad row {x:?}")),
        }
    }
    Ok(SubTable { starts, ends, rows })
}
fn sym_of(byte: usize) -> Option<usize> {
    match byte {
        255 => Some(BOS),
        b => Some(b),
    }
}

/// The table of a raw regex: how its states are numbered.
fn raw_table(raw: &str, lab: &mut Lab) -> Res<Option<Table>> {
    let mut disk = new_disk();
    mkdirs(&mut disk, "/sim/w/h");
    let mut q = Req::blank(Via::Lib);
    q.raw = Some(raw.to_string());
    q.halo2 = Some("h".into());
    q.gen = Some(false);
    let g = lab.golden(&disk, &q, CWD)?;
    if g.reply != Reply::Ok {
        return Ok(None);
    }
    Ok(g.files.get("allstr").and_then(|t| read_table(t).ok()))
}

// ------------------------------------------------------------------ circuits
fn hash_u64(v: &[u64]) -> u64 {
    v.iter().fold(7, |h, x| mix(h ^ *x))
}
fn text_of(v: &[u64]) -> String {
    v.iter().filter(|x| **x != 0).map(|x| if *x < 128 { (*x as u8 as char).to_string() } else { format!("<{x}>") }).collect()
}
fn show(msg: &[i64]) -> String {
    let v: Vec<u8> = msg.iter().map(|b| *b as u8).collect();
    if msg.iter().all(|b| (1..255).contains(b) || *b == 0) {
        format!("{:?}", String::from_utf8_lossy(&v).trim_end_matches('\0'))
    } else {
        format!("{msg:?}")
    }
}

fn attempts(r: &mut Rng, m: &Model, n: usize, prop: &str, count: usize) -> Vec<Value> {
    let tel = Teller::new(m);
    let mut v = vec![];
    for _ in 0..count {
        let mut s = tel.tell(r, n);
        if n > 60 && r.chance(2, 3) {
            // what matters is far from the start
            let k = r.us(n - 20);
            let mut front: Vec<u8> = (0..k).map(|_| *r.pick(b"~ x0")).collect();
            front.extend(s);
            front.truncate(n);
            s = front;
        }
        if r.chance(1, 10) {
            foreign(r, &mut s);
        }
        // on its way to the prover
        if r.chance(1, 6) {
            transit(r, &mut s);
        }
        let mut msg = def::padded(&s, n);
        let mut byz = Value::Null;
        let mut other = None;
        match prop {
            "C10" => {
                if r.chance(1, 12) && n > 0 {
                    let i = r.us(n);
                    msg[i] = 0;
                }
            }
            _ => {
                let k = r.below(10);
                if k < 4 {
                    def::damage(&mut msg, r);
                }
                if n > 1 && r.chance(1, 12) {
                    // a forged start mark and what may only follow the true one
                    let i = r.us(n - 1);
                    msg[i] = 255;
                    let w = tel.one(r, true, n);
                    for (j, b) in w.iter().enumerate().take_while(|(j, _)| i + 1 + j < n) {
                        msg[i + 1 + j] = *b as i64;
                    }
                }
                if k >= 3 {
                    byz = (r.next() >> 12).into();
                }
                if k >= 7 {
                    other = Some(msg.clone());
                    msg = almost(&msg, r);
                }
            }
        }
        let mut a = json!({ "msg": msg });
        if let Some(o) = other {
            a["as"] = o.into();
        }
        if !byz.is_null() {
            a["byz"] = byz;
        }
        v.push(a);
    }
    v
}
/// Characters of several bytes, whole or not, from the edges of what UTF-8 allows.
fn foreign(r: &mut Rng, s: &mut Vec<u8>) {
    for _ in 0..1 + r.us(3) {
        let edges = [0x80, 0xbf, 0x7ff, 0x800, 0xfff, 0x1000, 0x203f, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff];
        let c = match r.below(3) {
            0 => char::from_u32(r.range(0x80, 0x10ffff) as u32),
            _ => char::from_u32(*r.pick(&edges)),
        };
        let mut b = [0; 4];
        let mut b = c.unwrap_or('\u{e9}').encode_utf8(&mut b).as_bytes().to_vec();
        if r.chance(1, 3) {
            let i = r.us(b.len());
            match r.below(4) {
                0 => b[0] = *r.pick(b"\xc0\xc1\xc2\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xf7"),
                1 => {
                    b.remove(i);
                }
                2 => b[i] = *r.pick(b"\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0"),
                _ => {
                    let k = 1 % b.len();
                    b[k] = *r.pick(b"\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0");
                }
            }
        }
        let mut at = r.us(s.len() + 1);
        if r.chance(1, 2) {
            // in a value
            let colons: Vec<usize> = (0..s.len()).filter(|i| matches!(s[*i], b':' | b'<' | b'=')).collect();
            if !colons.is_empty() {
                at = (*r.pick(&colons) + 1 + r.us(2)).min(s.len());
            }
        }
        s.splice(at..at, b);
    }
}
/// Honest damage: what comes out is still a string of bytes.
fn transit(r: &mut Rng, s: &mut Vec<u8>) {
    for _ in 0..1 + r.us(2) {
        if s.is_empty() {
            return;
        }
        let i = r.us(s.len());
        match r.below(5) {
            0 => s[i] ^= 1 << r.below(8),
            1 => s.truncate(i),
            2 => {
                let j = r.us(s.len());
                let t = s[i.min(j)..i.max(j)].to_vec();
                s.extend(t);
            }
            3 => {
                s.remove(i);
            }
            _ => {
                let j = r.us(s.len());
                s.swap(i, j);
            }
        }
    }
    for b in s.iter_mut() {
        if *b == 255 {
            *b = 254;
        }
    }
}

fn generate_circuit(prop: &str, r: &mut Rng, lab: &mut Lab) -> Res<History> {
    for _ in 0..60 {
        let (d, m) = if r.chance(1, 30) {
            let d = shipped(r);
            match Model::new(&d.parts) {
                Ok(m) => (d, m),
                Err(_) => continue,
            }
        } else {
            let exact = r.chance(4, 5);
            let most = if r.chance(1, 3) { 300 } else { 60 };
            def::gen_modelled(r, exact, most)
        };
        let (mut disk, mut q) = gen_request(r, &d);
        if q.circom.is_none() {
            q.circom = Some("o.circom".into());
            q.template = Some(template(r));
        }
        let mut m = m;
        if let Some(raw) = q.raw.clone() {
            m = match Model::new(&[Part { public: false, text: raw.clone() }]) {
                Ok(m) => m,
                Err(_) => continue,
            };
            if let Some(s) = &q.substrs {
                let t = match raw_table(&raw, lab)? {
                    Some(t) => t,
                    None => continue,
                };
                let edges: Vec<(usize, usize)> = t.rows.iter().map(|x| (x.0, x.1)).filter(|e| e.1 != 0).collect::<BTreeSet<_>>().into_iter().collect();
                if edges.is_empty() {
                    continue;
                }
                let lists: Vec<Vec<(usize, usize)>> =
                    (0..1 + r.us(3)).map(|_| (0..1 + r.us(4)).map(|_| *r.pick(&edges)).collect()).collect();
                q.publics = lists.len();
                let p = absolute(CWD, s);
                put_file(&mut disk, &p, json!({ "transitions": lists }).to_string().as_bytes());
            }
        }
        let g = lab.golden(&disk, &q, CWD)?;
        if let Some(h) = refusal(prop, &g, &disk, &q) {
            return Ok(h);
        }
        if g.reply != Reply::Ok {
            continue;
        }
        let quiet = r.chance(if prop == "C09" { 3 } else { 1 }, 4);
        let (disk, steps) = author(r, disk, q, &g, quiet);
        let n = match r.below(8) {
            0 => 1 + r.us(4),
            1..=5 => 4 + r.us(16),
            6 => 16 + r.us(16),
            _ => 24 + r.us(30),
        };
        let n = match m.states.len() {
            0..=40 => n,
            41..=60 => n.min(24),
            k => {
                // room for a match
                let d = def::distances(&m).first().copied().unwrap_or(0) as usize;
                if d > 300 || d * k > 60_000 { n.min(16) } else { d + r.us(6) }
            }
        };
        let mut n = n;
        let mut count = if prop == "C09" { 16 } else { 12 };
        if m.states.len() <= 25 && r.chance(1, 24) {
            n = 64 + r.us(220);
            count = 4;
        }
        let a = attempts(r, &m, n, prop, count);
        return Ok(History { property: prop.into(), seed: 0, disk, steps, extra: json!({ "n": n, "attempts": a }) });
    }
    broken("no definition compiles")
}

/// What the scan of a message must give.
struct Expect {
    out: bool,
    reveal: Vec<Vec<u64>>,
    /// The parts of the definition overlap: the compiler settles which one a byte belongs to, at the
    /// price of some matches. What it then finds must still be a match.
    loose: bool,
    /// What is as good: a run that comes back to the start state goes on, or ends there and its last
    /// byte begins another one. Either finds matches only.
    or: Option<Box<Expect>>,
}
impl Expect {
    fn of(m: &Model, msg: &[i64], reveals: usize) -> Expect {
        let mut e = Expect::strictly(m, msg, reveals);
        if m.unambiguous && !m.like_start().is_empty() {
            let f = m.scan_by(msg, true);
            let reveal = f.reveal.iter().take(reveals).map(|x| masked(msg, x)).collect();
            e.or = Some(Box::new(Expect { out: f.out, reveal, loose: false, or: None }));
        }
        e
    }
    fn strictly(m: &Model, msg: &[i64], reveals: usize) -> Expect {
        let (out, reveal) = if m.unambiguous {
            let f = m.scan(msg);
            (f.out, f.reveal)
        } else {
            m.possible(msg)
        };
        Expect { out, reveal: reveal.iter().take(reveals).map(|x| masked(msg, x)).collect(), loose: !m.unambiguous, or: None }
    }
    /// What is wrong with these outputs of an accepted proof.
    fn against(&self, p: &crate::circ::Proof) -> Option<String> {
        match &self.or {
            Some(o) => self.wrong(p).filter(|_| o.wrong(p).is_some()),
            None => self.wrong(p),
        }
    }
    fn wrong(&self, p: &crate::circ::Proof) -> Option<String> {
        if p.out == 1 && !self.out {
            return Some("out is 1 where the scan finds no match".into());
        }
        if p.out != 1 && self.out && !self.loose {
            return Some(format!("out is {} where the scan finds a match", p.out));
        }
        for (i, (have, want)) in p.reveals.iter().zip(&self.reveal).enumerate() {
            if p.out != 1 {
                if have.iter().any(|b| *b != 0) {
                    return Some(format!("reveal{i} is {:?} although out is {}", text_of(have), p.out));
                }
            } else if self.loose {
                if have.iter().zip(want).any(|(h, w)| *h != 0 && h != w) {
                    return Some(format!("reveal{i} is {:?} ({have:?}), beyond {:?}", text_of(have), text_of(want)));
                }
            } else if have != want {
                return Some(format!("reveal{i} is {:?} ({have:?}) and should be {:?} ({want:?})", text_of(have), text_of(want)));
            }
        }
        None
    }
}
/// Scans with a table of states instead of a model, revealing given transitions.
fn scan_edges(t: &Table, m: &Model, msg: &[i64], lists: &[Vec<(usize, usize)>]) -> Expect {
    let or = scan_edges_by(t, m, msg, lists, true);
    Expect { or: Some(Box::new(or)), ..scan_edges_by(t, m, msg, lists, false) }
}
fn scan_edges_by(t: &Table, m: &Model, msg: &[i64], lists: &[Vec<(usize, usize)>], restart: bool) -> Expect {
    let n = msg.len();
    let found = m.scan_by(msg, restart);
    let next = |s: usize, b: usize| t.from.get(&s).and_then(|v| v.iter().find(|x| x.0 == b)).map(|x| x.1).filter(|x| !restart || *x != 0);
    let mut cur = 0;
    let mut run = 0usize;
    let mut at = vec![];
    for k in 0..=n {
        let b = if k == 0 { 255 } else { msg[k - 1] };
        let b = if k > 0 && !(1..=254).contains(&b) { None } else { Some(b as usize) };
        let from = cur;
        let mut edge = None;
        match b.and_then(|b| next(from, b)) {
            Some(x) => {
                if from == 0 {
                    run += 1;
                }
                cur = x;
                edge = Some((from, x));
            }
            None => {
                run += 1;
                cur = 0;
                if let Some(x) = b.and_then(|b| next(0, b)) {
                    cur = x;
                    edge = Some((0, x));
                }
            }
        }
        at.push((cur, run, edge));
    }
    let content = msg.iter().rposition(|v| *v != 0).map_or(0, |p| p + 1);
    let mut last: BTreeMap<usize, usize> = BTreeMap::new();
    for (k, x) in at.iter().enumerate() {
        if x.0 != 0 && x.0 == t.accept && (!m.end_anchor || k == content) {
            last.insert(x.1, k);
        }
    }
    let reveal = lists
        .iter()
        .map(|l| {
            let mark: Vec<bool> = (1..=n)
                .map(|k| found.out && at[k].2.is_some_and(|e| l.contains(&e)) && last.get(&at[k].1).is_some_and(|z| *z >= k))
                .collect();
            masked(msg, &mark)
        })
        .collect();
    Expect { out: found.out, reveal, loose: false, or: None }
}

/// A circuit that leaves its prover a choice is worth more than one try.
fn tries(ready: &Ready) -> u64 {
    if ready.chosen_targets() > 0 {
        16
    } else {
        1
    }
}
fn choices_of(a: &Value, ready: &Ready, honest: &[u64], nth: u64) -> Vec<(Sig, u64)> {
    match a.get("byz").and_then(Value::as_u64) {
        None => vec![],
        Some(seed) => {
            let mut r = Rng::new(seed ^ (nth << 52));
            let all = match a.get("as").and_then(|m| message_from(m, ready.n)).filter(|_| nth % 2 == 0) {
                Some(other) => ready.pretend(&mut r, honest, &other),
                None => ready.dishonest(&mut r, honest),
            };
            match a.get("keep").and_then(Value::as_array) {
                None => all,
                Some(k) => k.iter().filter_map(|i| all.get(i.as_u64()? as usize).copied()).collect(),
            }
        }
    }
}
fn message_of(a: &Value, n: usize) -> Option<Vec<i64>> {
    message_from(a.get("msg")?, n)
}
fn message_from(m: &Value, n: usize) -> Option<Vec<i64>> {
    let m: Vec<i64> = m.as_array()?.iter().map(|x| x.as_i64()).collect::<Option<_>>()?;
    (m.len() == n).then_some(m)
}
/// A message that is almost this one.
fn almost(msg: &[i64], r: &mut Rng) -> Vec<i64> {
    let mut m = msg.to_vec();
    let len = m.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1);
    if len == 0 {
        return m;
    }
    let wide: Vec<usize> = (0..len).filter(|i| (128..255).contains(&m[*i])).collect();
    if !wide.is_empty() && r.chance(1, 2) {
        // an encoding of UTF-8 that is not one
        let i = *r.pick(&wide);
        m[i] = *r.pick(if m[i] < 192 { b"\x80\x8f\x90\x9f\xa0\xbf" } else { b"\xe0\xed\xf0\xf4\xc2\xe1" }) as i64;
        return m;
    }
    let i = r.us(len);
    m[i] = match r.below(6) {
        0 => m[i] ^ 32,
        1 => m[i] + 1,
        2 => m[i] - 1,
        3 => m[r.us(len)],
        4 => *r.pick(b"~;#\r\n <>@=A0z") as i64,
        _ => r.below(255) as i64,
    }
    .clamp(0, 254);
    m
}
/// Lists the indices of the choices, so that the minimiser can drop some.
pub fn spell_out(h: &mut History) {
    if let Some(l) = h.extra.get_mut("attempts").and_then(Value::as_array_mut) {
        for a in l {
            if a.get("byz").is_some() && a.get("keep").is_none() {
                a["keep"] = (0..if a.get("as").is_some() { 1024 } else { 64 }).collect::<Vec<u64>>().into();
            }
        }
    }
}

struct Verdicts<'a> {
    lab: &'a mut Lab,
    ready: &'a Ready,
    id: u64,
}
impl Verdicts<'_> {
    fn count(&mut self, msg: &[i64], ch: &[(Sig, u64)], p: &crate::circ::Proof, interesting: bool) {
        let mut k = vec![self.id, self.ready.n as u64];
        k.extend(msg.iter().map(|x| *x as u64));
        k.extend(ch.iter().flat_map(|c| [c.0 as u64, c.1]));
        if interesting {
            self.lab.st.distinct.insert(hash_u64(&k));
        }
        self.lab.trace = mix(self.lab.trace ^ hash_u64(&k) ^ hash_u64(&p.reveals.concat()) ^ (p.out << 1) ^ p.accepted as u64);
        self.lab.st.mark(match (p.accepted, p.out) {
            (false, _) => "proofs rejected",
            (true, 1) => "proofs accepted with out=1",
            (true, _) => "proofs accepted with out=0",
        });
    }
}
fn sample(lab: &mut Lab, v: Value) {
    if lab.st.samples.len() < 3 {
        lab.st.samples.push(v);
    }
}

fn judge_circuit(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let prop = h.property.as_str();
    let Some((disk, q)) = acknowledged(h, lab)? else { return refused(h, lab) };
    lab.nontrivial = false;
    let Some((parts, lists)) = meaning(&q, &h.disk) else { return Ok(None) };
    let Ok(m) = Model::new(&parts) else { return Ok(None) };
    let Some(path) = q.outputs(CWD).get("circom").cloned() else { return Ok(None) };
    let Some(n) = h.extra.get("n").and_then(Value::as_u64) else { return Ok(None) };
    let n = n as usize;
    let def_text = parts.iter().map(|p| if p.public { format!("«{}»", p.text) } else { p.text.clone() }).collect::<Vec<_>>().join(" ");
    let Some(file) = disk.get(&path) else {
        return Ok(breach("no artefact", format!("the compile of {def_text:?} was acknowledged but there is no circuit")));
    };
    let text = String::from_utf8_lossy(&file.data.0).into_owned();
    let tname = q.template.clone().unwrap_or_default();
    let ready = match Ready::new(&text, "sim/o.circom", &tname, n, &Includes::new()) {
        Ok(r) => r,
        Err(e) => return Ok(breach("unusable circuit", format!("the circuit of {def_text:?} cannot be used: {e}"))),
    };
    let wanted = match (&lists, generates(&q)) {
        (_, false) => 0,
        (Some(l), _) => l.len(),
        (None, _) if q.raw.is_some() => 0,
        (None, _) => m.publics.len(),
    };
    if ready.reveals.len() != wanted {
        return Ok(breach("number of reveals", format!("the circuit of {def_text:?} has {} reveal outputs, not {wanted}", ready.reveals.len())));
    }
    let table = match &lists {
        Some(_) => match raw_table(q.raw.as_deref().unwrap_or(""), lab)? {
            Some(t) => Some(t),
            None => return Ok(None),
        },
        None => None,
    };
    lab.st.mark(if m.unambiguous { "circuits with unambiguous parts" } else { "circuits with ambiguous parts" });
    lab.st.add("signals", ready.c.nsig as u64);
    lab.st.add("constraints", ready.c.constraints.len() as u64);
    lab.st.add("signals a prover may choose in the circuit itself", ready.chosen_targets() as u64);
    let id = hash_bytes(text.as_bytes());
    sample(lab, json!({"definition": def_text, "msg_bytes": n, "first_attempt": h.extra["attempts"].get(0), "author_attempts": h.steps.len()}));
    let expect = |msg: &[i64]| -> Expect {
        match (&table, &lists) {
            (Some(t), Some(l)) if wanted > 0 => scan_edges(t, &m, msg, l),
            _ => Expect::of(&m, msg, wanted),
        }
    };
    let mut extracted: Vec<(Vec<i64>, Vec<Vec<u64>>, usize, usize)> = vec![];
    let list = h.extra.get("attempts").and_then(Value::as_array).cloned().unwrap_or_default();
    for a in &list {
        let Some(msg) = message_of(a, n) else { continue };
        let e = expect(&msg);
        let honest = ready.prove(&msg, &[]);
        let natural = msg.iter().all(|b| (0..255).contains(b));
        let mut v = Verdicts { lab, ready: &ready, id };
        let near = e.out || m_near(&m, &msg);
        v.count(&msg, &[], &honest, if prop == "C10" { near } else { !natural });
        if prop == "C10" {
            if !natural {
                continue;
            }
            if !honest.accepted {
                return Ok(breach(
                    "honest proof rejected",
                    format!("{def_text:?}, message {}: the honest assignment breaks constraint {:?}", show(&msg), honest.broken),
                ));
            }
            if let Some(w) = e.against(&honest) {
                return Ok(breach("wrong honest outputs", format!("{def_text:?}, message {}: {w}", show(&msg))));
            }
            if honest.out > 1 {
                return Ok(breach("out is not a bit", format!("{def_text:?}, message {}: out is {}", show(&msg), honest.out)));
            }
            if q.raw.is_none() && m.unambiguous && wanted > 0 && e.out {
                let len = msg.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1);
                let bytes: Vec<u8> = msg[..len].iter().map(|b| *b as u8).collect();
                if bytes.iter().all(|b| *b != 0) && std::str::from_utf8(&bytes).is_ok() {
                    if let [(x, y)] = m.matches(&bytes)[..] {
                        if x > 0 || m.same_parts_by_caret(&bytes[..y]) {
                            extracted.push((msg.clone(), honest.reveals.clone(), x, y));
                        }
                    }
                }
            }
            continue;
        }
        // C09
        let mut proofs = vec![(honest, vec![])];
        for nth in 0..tries(&ready) {
            let ch = choices_of(a, &ready, &proofs[0].0.all, nth);
            if !ch.is_empty() {
                let p = ready.prove(&msg, &ch);
                let changed = p.all.iter().zip(&proofs[0].0.all).filter(|x| x.0 != x.1).count();
                v.count(&msg, &ch, &p, changed > 0);
                proofs.push((p, ch));
            }
        }
        for (p, ch) in &proofs {
            if !p.accepted {
                continue;
            }
            let lazy = p.out != 1 && e.out && !p.reveals.concat().iter().any(|b| *b != 0);
            let forged = if lazy { None } else { e.against(p) };
            if let Some(w) = forged {
                let set: Vec<String> = ch.iter().map(|c| format!("{} := {}", ready.c.signal_name(c.0), c.1)).collect();
                return Ok(breach(
                    "forged proof",
                    format!("{def_text:?}, message {}, prover's choices [{}]: all constraints hold, and {w}", show(&msg), set.join(", ")),
                ));
            }
        }
    }
    if !extracted.is_empty() {
        if let Some(b) = compare_extraction(&parts, &def_text, &extracted, lab)? {
            return Ok(Some(b));
        }
    }
    Ok(None)
}
/// Does the scan get beyond the first state anywhere?
fn m_near(m: &Model, msg: &[i64]) -> bool {
    msg.iter().any(|b| (1..255).contains(b) && m.step(0, *b as usize).is_some())
}

/// The extraction library on the messages whose match is unique.
fn compare_extraction(parts: &[Part], def_text: &str, l: &[(Vec<i64>, Vec<Vec<u64>>, usize, usize)], lab: &mut Lab) -> Res<Option<Breach>> {
    let config = Def { parts: parts.to_vec() }.json();
    let strings: Vec<String> = l
        .iter()
        .map(|x| String::from_utf8(x.0.iter().map(|b| *b as u8).collect::<Vec<u8>>()).unwrap().trim_end_matches('\0').to_string())
        .collect();
    let ops: Vec<Value> = strings.iter().map(|s| json!({"op": "substr", "input": s, "config": config, "private": false})).collect();
    let mut d = new_disk();
    mkdirs(&mut d, CWD);
    let o = lab.run(&mut d, Prog::Driver, &[json!({ "threads": [ops] }).to_string()], &Env::quiet(CWD))?;
    lab.nontrivial = false;
    let Some(res) = results(&o) else { return Ok(breach("extraction died", format!("{def_text:?}: {}", o.err_text()))) };
    for (i, s) in strings.iter().enumerate() {
        let got = &res[0][i];
        let want: Vec<String> = l[i]
            .1
            .iter()
            .map(|r| String::from_utf8_lossy(&r.iter().filter(|b| **b != 0).map(|b| *b as u8).collect::<Vec<u8>>()).into_owned())
            .collect();
        lab.st.mark("reveals compared with the extraction library");
        if got.get("ok") != Some(&json!(want)) {
            return Ok(breach(
                "extraction differs",
                format!("{def_text:?}, message {s:?}, unique match {}..{}: the circuit reveals {want:?}, the extraction library returns {got}", l[i].2, l[i].3),
            ));
        }
    }
    Ok(None)
}

// ------------------------------------------------------------------ halo2 tables
/// One claim: the bytes, the state before the first and after each.
fn claim(r: &mut Rng, t: &Table, m: &Model, tel: &Teller) -> Value {
    let mut bytes: Vec<usize> = vec![];
    let mut states = vec![0usize];
    if r.chance(1, 2) {
        // along the rows of the table
        let len = 1 + r.us(24);
        let mut cur = 0;
        for _ in 0..len {
            match t.from.get(&cur) {
                Some(v) => {
                    let x = *r.pick(v);
                    bytes.push(x.0);
                    cur = x.1;
                    states.push(cur);
                    if cur == t.accept && r.chance(1, 4) {
                        break;
                    }
                }
                None => break,
            }
        }
    } else {
        // a string that should match, or nearly
        let mut b: Vec<usize> = vec![];
        let at = m.step(0, BOS).is_some() && r.chance(1, 2);
        if at {
            b.push(255);
        }
        b.extend(tel.one(r, at, 24).into_iter().map(|x| x as usize));
        let mut cur = 0;
        for x in b {
            bytes.push(x);
            cur = t.from.get(&cur).and_then(|v| v.iter().find(|y| y.0 == x)).map_or(cur, |y| y.1);
            states.push(cur);
        }
    }
    if r.chance(1, 2) {
        for _ in 0..1 + r.us(3) {
            match r.below(5) {
                0 => {
                    let i = r.us(states.len());
                    states[i] = r.us(t.max + 2);
                }
                1 if !bytes.is_empty() => {
                    let i = r.us(bytes.len());
                    bytes[i] = if r.chance(1, 2) { r.us(256) } else { *r.pick(&[0, 255, bytes[i] ^ 1]) };
                }
                2 if !bytes.is_empty() => {
                    let i = r.us(bytes.len());
                    bytes.remove(i);
                    states.remove(i + 1);
                }
                3 => {
                    let i = r.us(states.len());
                    states[i] = t.accept;
                }
                _ => {
                    bytes.push(r.us(256));
                    states.push(t.accept);
                }
            }
        }
    }
    json!({ "bytes": bytes, "states": states })
}

fn generate_tables(r: &mut Rng, lab: &mut Lab) -> Res<History> {
    for _ in 0..60 {
        let (d, m) = if r.chance(1, 30) {
            let d = shipped(r);
            match Model::new(&d.parts) {
                Ok(m) => (d, m),
                Err(_) => continue,
            }
        } else {
            let exact = r.chance(4, 5);
            def::gen_modelled(r, exact, 420)
        };
        let (mut disk, mut q) = gen_request(r, &d);
        if q.via == Via::Struct {
            continue;
        }
        q.substrs = None;
        if q.halo2.is_none() {
            q.halo2 = Some("h".into());
            mkdirs(&mut disk, "/sim/w/h");
        }
        let mut m = m;
        if let Some(raw) = q.raw.clone() {
            q.publics = 0;
            m = match Model::new(&[Part { public: false, text: raw }]) {
                Ok(m) => m,
                Err(_) => continue,
            };
        }
        let g = lab.golden(&disk, &q, CWD)?;
        if let Some(h) = refusal("C12", &g, &disk, &q) {
            return Ok(h);
        }
        if g.reply != Reply::Ok {
            continue;
        }
        let Some(t) = g.files.get("allstr").and_then(|t| read_table(t).ok()) else {
            // let the judge see it
            return Ok(History { property: "C12".into(), seed: 0, disk, steps: vec![Step::Request(q, Env::quiet(CWD))], extra: json!({"claims": []}) });
        };
        let tel = Teller::new(&m);
        let claims: Vec<Value> = (0..20).map(|_| claim(r, &t, &m, &tel)).collect();
        let quiet = r.chance(1, 4);
        let (disk, steps) = author(r, disk, q, &g, quiet);
        return Ok(History { property: "C12".into(), seed: 0, disk, steps, extra: json!({ "claims": claims }) });
    }
    broken("no definition compiles")
}

fn word(v: &[usize]) -> String {
    v.iter().map(|b| if (32..127).contains(b) { (*b as u8 as char).to_string() } else { format!("<{b}>") }).collect()
}

fn judge_tables(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let Some((disk, q)) = acknowledged(h, lab)? else { return refused(h, lab) };
    lab.nontrivial = false;
    let Some((parts, _)) = meaning(&q, &h.disk) else { return Ok(None) };
    let Ok(m) = Model::new(&parts) else { return Ok(None) };
    let def_text = parts.iter().map(|p| if p.public { format!("«{}»", p.text) } else { p.text.clone() }).collect::<Vec<_>>().join(" ");
    let outs = q.outputs(CWD);
    let Some(path) = outs.get("allstr") else { return Ok(None) };
    let file = |p: &String| disk.get(p).map(|n| n.data.0.clone());
    let Some(text) = file(path) else {
        return Ok(breach("no artefact", format!("the compile of {def_text:?} was acknowledged but there is no allstr.txt")));
    };
    let t = match read_table(&text) {
        Ok(t) => t,
        Err(e) => return Ok(breach("unusable table", format!("allstr.txt of {def_text:?} cannot be used: {e}"))),
    };
    let mut id = hash_bytes(&text);
    let npub = if q.raw.is_some() || !generates(&q) { 0 } else { m.publics.len() };
    let mut subs = vec![];
    for k in 0..npub {
        let Some(s) = outs.get(&format!("substr_{k}")).and_then(file) else {
            return Ok(breach("no artefact", format!("the compile of {def_text:?} was acknowledged but there is no substr_{k}.txt")));
        };
        id ^= hash_bytes(&s).rotate_left(k as u32 + 1);
        match read_sub(&s) {
            Ok(s) => subs.push(s),
            Err(e) => return Ok(breach("unusable table", format!("substr_{k}.txt of {def_text:?} cannot be used: {e}"))),
        }
    }
    lab.st.mark(if m.unambiguous { "tables with unambiguous parts" } else { "tables with ambiguous parts" });
    lab.st.add("table rows", t.rows.len() as u64);
    sample(lab, json!({"definition": def_text, "first_claim": h.extra["claims"].get(0), "rows": t.rows.len(), "author_attempts": h.steps.len()}));
    // the states
    let top = t.rows.iter().flat_map(|r| [r.0, r.1]).chain([t.accept]).max().unwrap_or(0);
    if t.max != top {
        return Ok(breach("largest state", format!("allstr.txt of {def_text:?} says that the largest state is {}, it is {top}", t.max)));
    }
    let rows: BTreeSet<(usize, usize, usize)> = t.rows.iter().copied().collect();
    if rows.len() != t.rows.len() {
        return Ok(breach("row twice", format!("allstr.txt of {def_text:?} has a row twice")));
    }
    // every string: the states the verifier can be in, beside the reference
    let mut seen: BTreeMap<(BTreeSet<usize>, i64), (usize, usize)> = BTreeMap::new(); // how we came here
    let mut list: Vec<(BTreeSet<usize>, i64)> = vec![(BTreeSet::from([0]), 0)];
    seen.insert(list[0].clone(), (0, 0));
    let mut i = 0;
    let mut used_edges: BTreeSet<(usize, usize, i64, bool)> = BTreeSet::new();
    while i < list.len() && list.len() < 6000 {
        let (set, s) = list[i].clone();
        let trail = || -> String {
            let mut w = vec![];
            let mut j = i;
            while j > 0 {
                let (p, b) = seen[&list[j]];
                w.push(b);
                j = p;
            }
            w.reverse();
            word(&w)
        };
        if set.len() > 1 {
            return Ok(breach("several state sequences", format!("{def_text:?}: after {:?} the states {set:?} can all be claimed", trail())));
        }
        let have = set.contains(&t.accept) && i > 0;
        let want = s >= 0 && m.states[s as usize].accept && i > 0;
        if have != want && (m.unambiguous || have) {
            return Ok(breach(
                "language",
                format!("{def_text:?}: {:?} is {} by the tables and {} the definition", trail(), if have { "accepted" } else { "not accepted" }, if want { "matches" } else { "does not match" }),
            ));
        }
        let mut by: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for a in &set {
            for (b, x) in t.from.get(a).into_iter().flatten() {
                by.entry(*b).or_default().insert(*x);
            }
        }
        let mut bytes: BTreeSet<usize> = by.keys().copied().collect();
        if s >= 0 {
            bytes.extend((0..256).filter(|b| sym_of(*b).is_some_and(|y| m.step(s as usize, y).is_some())));
        }
        for b in bytes {
            let to = by.get(&b).cloned().unwrap_or_default();
            let ms = if s < 0 { -1 } else { sym_of(b).and_then(|y| m.step(s as usize, y)).map_or(-1, |x| x as i64) };
            for a in &set {
                for x in t.from.get(a).into_iter().flatten().filter(|x| x.0 == b) {
                    used_edges.insert((*a, x.1, ms, b == 255));
                }
            }
            let key = (to, ms);
            if key.0.is_empty() && ms < 0 {
                continue;
            }
            if !seen.contains_key(&key) {
                seen.insert(key.clone(), (i, b));
                list.push(key);
            }
        }
        i += 1;
    }
    // substrings
    for (k, s) in subs.iter().enumerate() {
        let part = m.publics[k];
        let have: BTreeSet<(usize, usize)> = s.rows.iter().copied().collect();
        if !m.unambiguous {
            continue;
        }
        let want: BTreeSet<(usize, usize)> =
            used_edges.iter().filter(|e| !e.3 && e.2 >= 0 && m.states[e.2 as usize].parts.contains(&part)).map(|e| (e.0, e.1)).collect();
        if have != want {
            return Ok(breach("substring rows", format!("{def_text:?}: substr_{k}.txt has the transitions {have:?}, the public part has {want:?}")));
        }
        let enter: BTreeSet<usize> = used_edges.iter().filter(|e| e.3 || !want.contains(&(e.0, e.1))).map(|e| e.1).chain([0]).collect();
        let starts: BTreeSet<usize> = want.iter().map(|e| e.0).filter(|a| enter.contains(a)).collect();
        // (states that no byte of the part leaves or reaches make no difference)
        let have: BTreeSet<usize> = s.starts.iter().copied().filter(|x| want.iter().any(|e| e.0 == *x)).collect();
        if have != starts {
            return Ok(breach("substring starts", format!("{def_text:?}: substr_{k}.txt lets the part start in {have:?}, it starts in {starts:?}")));
        }
        let ends: BTreeSet<usize> =
            want.iter().map(|e| e.1).filter(|b| *b == t.accept || used_edges.iter().any(|e| e.0 == *b && !want.contains(&(e.0, e.1)))).collect();
        let have: BTreeSet<usize> = s.ends.iter().copied().filter(|x| want.iter().any(|e| e.1 == *x)).collect();
        if have != ends {
            return Ok(breach("substring ends", format!("{def_text:?}: substr_{k}.txt lets the part end in {have:?}, it ends in {ends:?}")));
        }
    }
    // claims
    for c in h.extra.get("claims").and_then(Value::as_array).cloned().unwrap_or_default() {
        let get = |k: &str| -> Vec<usize> { c[k].as_array().map(|v| v.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect()).unwrap_or_default() };
        let (b, s) = (get("bytes"), get("states"));
        if s.len() != b.len() + 1 {
            continue;
        }
        let ok = s[0] == 0 && !b.is_empty() && s[b.len()] == t.accept && (0..b.len()).all(|i| rows.contains(&(s[i], s[i + 1], b[i])));
        let mut at = Some(0);
        let mut way = vec![];
        for x in &b {
            at = at.and_then(|a| sym_of(*x).and_then(|y| m.step(a, y)));
            way.push(at);
        }
        let matches = at.is_some_and(|a| m.states[a].accept) && !b.is_empty();
        let k: Vec<u64> = [id].into_iter().chain(b.iter().chain(&s).map(|x| *x as u64)).collect();
        let hash = hash_u64(&k);
        lab.trace = mix(lab.trace ^ hash ^ ok as u64);
        if way.iter().any(|w| w.is_some()) {
            lab.st.distinct.insert(hash);
        }
        lab.st.mark(if ok { "claims accepted" } else { "claims rejected" });
        if !ok {
            continue;
        }
        if !matches {
            return Ok(breach("forged claim", format!("{def_text:?}: the verifier accepts {:?} with the states {s:?}, which is no match", word(&b))));
        }
        let skip = (b[0] == 255) as usize;
        let may = if m.unambiguous { vec![] } else { m.possible(&b[skip..].iter().map(|x| *x as i64).collect::<Vec<_>>()).1 };
        for (k, sub) in subs.iter().enumerate() {
            for i in (0..b.len()).filter(|i| b[*i] != 255) {
                let have = sub.rows.contains(&(s[i], s[i + 1]));
                let want = if m.unambiguous { m.states[way[i].unwrap()].parts.contains(&m.publics[k]) } else { !have || may[k][i - skip] || b.contains(&0) };
                if if m.unambiguous { have != want } else { !want } {
                    return Ok(breach("forged claim", format!("{def_text:?}: in {:?} byte {i} {} to public part {k}", word(&b), if have { "is wrongly given" } else { "does not belong" })));
                }
            }
        }
    }
    Ok(None)
}

// ------------------------------------------------------------------ shipped circuits
#[derive(Clone)]
enum Meant {
    /// A definition.
    Scan(Model),
    /// The header field (its model), then the address in it.
    Field(Model),
    /// Brackets searched from the end.
    Brackets,
}
struct Shipped {
    name: String,
    file: String,
    template: String,
    json: Option<String>,
    meant: Meant,
}
struct Shelf {
    all: Vec<Shipped>,
    bracket: Option<Model>,
    addr: Option<Model>,
}
/// Circuits at work, shared by all threads: what is in a slot depends on its key alone.
type Slot = Arc<OnceLock<Result<Ready, String>>>;
static AT_WORK: Mutex<Vec<((String, usize, u64), Slot)>> = Mutex::new(Vec::new());
fn at_work(key: &(String, usize, u64)) -> Slot {
    let mut w = AT_WORK.lock().unwrap();
    let at = w.iter().position(|x| x.0 == *key);
    let x = match at {
        Some(i) => w.remove(i),
        None => (key.clone(), Slot::default()),
    };
    let slot = x.1.clone();
    w.push(x);
    let size = |x: &Slot| x.get().map_or(0, |r| r.as_ref().map_or(0, |r| r.c.nsig));
    let mut total: usize = w.iter().map(|x| size(&x.1)).sum();
    while total > 9_000_000 && w.len() > 16 {
        total -= size(&w.remove(0).1);
    }
    slot
}
thread_local! {
    static SHELF: RefCell<Option<Rc<RefCell<Shelf>>>> = const { RefCell::new(None) };
}
fn shelf() -> Rc<RefCell<Shelf>> {
    SHELF.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(Rc::new(RefCell::new(stock())));
        }
        s.as_ref().unwrap().clone()
    })
}
/// What is in the common folder and what each circuit of it is for.
fn stock() -> Shelf {
    let dir = format!("{}/packages/circom/circuits/common", crate::repo());
    // the definitions as this repository means them, not as the files say
    let defs: [(&str, &str, &[(bool, &str)]); 10] = [
        ("body_hash", "BodyHashRegex", &[(false, "(\r\n|^)dkim-signature:"), (false, "([a-z]+=[^;]+; )+bh="), (true, "[a-zA-Z0-9+/=]+"), (false, ";")]),
        ("email_addr", "EmailAddrRegex", &[(true, "[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./@]+@[A-Za-z0-9.\\-]+")]),
        ("email_domain", "EmailDomainRegex", &[(false, "[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./]+@"), (true, "[A-Za-z0-9.\\-@]+")]),
        ("from_all", "FromAllRegex", &[(false, "(\r\n|^)from:"), (true, "[^\r\n]+"), (false, "\r\n")]),
        ("message_id", "MessageIdRegex", &[(false, "(\r\n|^)message-id:"), (true, "<[A-Za-z0-9=@\\.\\+_-]+>"), (false, "\r\n")]),
        ("reversed_bracket", "ReversedBracketRegex", &[(false, ">"), (true, "[^<>]+"), (false, "<.*")]),
        ("subject_all", "SubjectAllRegex", &[(false, "(\r\n|^)subject:"), (true, "[^\r\n]+"), (false, "\r\n")]),
        ("timestamp", "TimestampRegex", &[(false, "(\r\n|^)dkim-signature:"), (false, "([a-z]+=[^;]+; )+t="), (true, "[0-9]+"), (false, ";")]),
        ("to_all", "ToAllRegex", &[(false, "(\r\n|^)to:"), (true, "[^\r\n]+"), (false, "\r\n")]),
        ("reversed_email_addr_with_name", "ReversedEmailAddrWithNameRegex", &[(false, ">"), (true, "[a-zA-Z0-9.\\-]+@[A-Za-z0-9!#$%&'*+=?\\-\\^_`{|}~./@]+"), (false, "<.*")]),
    ];
    let mut all = vec![];
    let (mut bracket, mut addr) = (None, None);
    for (name, t, d) in defs {
        let file = format!("{name}_regex.circom");
        if !std::path::Path::new(&dir).join(&file).exists() {
            continue;
        }
        let m = Model::new(&Def::of(d).parts).unwrap();
        if name == "reversed_bracket" {
            bracket = Some(m.clone());
        }
        if name == "email_addr" {
            addr = Some(m.clone());
        }
        for (field, whole, whole_t) in [("from_all", "from_addr", "FromAddrRegex"), ("to_all", "to_addr", "ToAddrRegex")] {
            let file = format!("{whole}_regex.circom");
            if name == field && std::path::Path::new(&dir).join(&file).exists() {
                all.push(Shipped { name: whole.into(), file, template: whole_t.into(), json: None, meant: Meant::Field(m.clone()) });
            }
        }
        let json = std::fs::read_to_string(format!("{dir}/{name}.json")).ok();
        all.push(Shipped { name: name.into(), file, template: t.into(), json, meant: Meant::Scan(m) });
    }
    if std::path::Path::new(&dir).join("email_addr_with_name_regex.circom").exists() {
        all.push(Shipped {
            name: "email_addr_with_name".into(),
            file: "email_addr_with_name_regex.circom".into(),
            template: "EmailAddrWithNameRegex".into(),
            json: None,
            meant: Meant::Brackets,
        });
    }
    Shelf { all, bracket, addr }
}
/// None: no assignment may be accepted.
fn meant(s: &Shelf, m: &Meant, msg: &[i64]) -> Option<Expect> {
    let scan = |m: &Model, msg: &[i64]| Expect::of(m, msg, 1);
    let brackets = |msg: &[i64]| {
        let mut rev = msg.to_vec();
        rev.reverse();
        let mut e = scan(s.bracket.as_ref().unwrap(), &rev);
        e.reveal[0].reverse();
        if let Some(o) = &mut e.or {
            o.reveal[0].reverse();
        }
        e
    };
    match m {
        Meant::Scan(m) => Some(scan(m, msg)),
        Meant::Brackets => Some(brackets(msg)),
        Meant::Field(m) => {
            let f = scan(m, msg);
            if !f.out {
                return None;
            }
            let value: Vec<i64> = f.reveal[0].iter().map(|x| *x as i64).collect();
            let b = brackets(&value);
            let a = scan(s.addr.as_ref().unwrap(), &value);
            Some(Expect { out: a.out || b.out, reveal: if b.out { b.reveal } else { a.reveal }, loose: false, or: None })
        }
    }
}
/// The value that a well-formed message carries for this circuit.
fn carried(name: &str, msg: &[i64]) -> Option<String> {
    let len = msg.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1);
    let bytes: Vec<u8> = msg[..len].iter().map(|b| u8::try_from(*b).ok().filter(|b| *b != 0 && *b != 255)).collect::<Option<_>>()?;
    let t = String::from_utf8(bytes).ok()?;
    let word = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-');
    let address = |s: &str| -> Option<()> {
        let (a, b) = s.split_once('@')?;
        (word(a) && word(b)).then_some(())
    };
    match name {
        "email_addr" => return address(&t).map(|_| t),
        "email_domain" => return address(&t).map(|_| t.split_once('@').unwrap().1.to_string()),
        _ => {}
    }
    let field = match name {
        "from_all" | "from_addr" => "from:",
        "to_all" | "to_addr" => "to:",
        "subject_all" => "subject:",
        "message_id" => "message-id:",
        "body_hash" | "timestamp" => "dkim-signature:",
        _ => return None,
    };
    if t.matches(field).count() != 1 || t.contains("\r\n\r\n") {
        return None;
    }
    let body = t.strip_suffix("\r\n")?;
    let line = body.split("\r\n").find(|l| l.starts_with(field))?;
    let v = &line[field.len()..];
    if v.is_empty() || body.split("\r\n").any(|l| l.contains(['\r', '\n'])) {
        return None;
    }
    match name {
        "from_all" | "to_all" | "subject_all" => Some(v.to_string()),
        "message_id" => {
            let w = v.strip_prefix('<')?.strip_suffix('>')?;
            address(w)?;
            Some(v.to_string())
        }
        "from_addr" | "to_addr" => {
            if address(v.trim_start_matches(' ')).is_some() {
                return Some(v.trim_start_matches(' ').to_string());
            }
            let (n, a) = v.strip_suffix('>')?.split_once('<')?;
            if n.contains(['<', '>']) {
                return None;
            }
            address(a)?;
            Some(a.to_string())
        }
        _ => {
            // tags
            let v = v.strip_suffix(';')?;
            let tag = if name == "body_hash" { "bh" } else { "t" };
            let mut found = None;
            for (i, x) in v.split("; ").enumerate() {
                let (k, w) = x.split_once('=')?;
                if k.is_empty() || !k.chars().all(|c| c.is_ascii_lowercase()) || w.is_empty() || w.contains(';') {
                    return None;
                }
                if k == tag {
                    let good = if tag == "t" { w.chars().all(|c| c.is_ascii_digit()) } else { w.chars().all(|c| c.is_ascii_alphanumeric() || "+/=".contains(c)) };
                    if i == 0 || found.is_some() || !good {
                        return None;
                    }
                    found = Some(w.to_string());
                }
            }
            found
        }
    }
}
fn some_word(r: &mut Rng, max: usize) -> String {
    (0..1 + r.us(max)).map(|_| *r.pick(b"abcmwxyzABMXYZ01589.-") as char).collect()
}
/// A header that carries one value.
fn well_formed(r: &mut Rng, name: &str, n: usize) -> String {
    let small = n < 40;
    let w = |r: &mut Rng| some_word(r, if small { 3 } else { 8 });
    let addr = format!("{}@{}", w(r), w(r));
    let person = *r.pick(&["Al ", "\"Al B\" ", "", "x@y ", "末神 ", "é", "a.b@c.d ", "to:x ", "\t"]);
    let mailbox = match r.below(3) {
        0 => addr.clone(),
        1 => format!(" {addr}"),
        _ => format!("{person}<{addr}>"),
    };
    let mut lines: Vec<String> = vec![];
    let line = match name {
        "email_addr" | "email_domain" => return addr,
        "from_all" | "from_addr" => format!("from:{mailbox}"),
        "to_all" | "to_addr" => format!("to:{mailbox}"),
        "subject_all" => format!("subject:{}", r.pick(&["hi", " re: you", "from me", "日本語", "<b>", "=?utf-8?q?x?="])),
        "message_id" => format!("message-id:<{addr}>"),
        "email_addr_with_name" | "reversed_bracket" | "reversed_email_addr_with_name" => {
            let s = format!("{person}<{addr}>");
            return if name == "email_addr_with_name" { s } else { s.chars().rev().collect() };
        }
        _ => {
            let mut tags = vec!["v=1".to_string()];
            for t in ["a=rsa-sha256", "s=x", "h=from:to", "xt=5", "xbh=q"] {
                if r.chance(1, if small { 8 } else { 3 }) {
                    tags.push(t.into());
                }
            }
            for _ in 0..r.skew(3) {
                // a tag nobody knows
                let k: String = (0..1 + r.us(3)).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyyzz") as char).collect();
                let k = if ["bh", "t"].contains(&k.as_str()) { "zz".to_string() } else { k };
                tags.push(format!("{k}={}", some_word(r, 3)));
            }
            let own = if name == "body_hash" { format!("bh={}=", some_word(r, 5).replace(['.', '-'], "+")) } else { format!("t={}", r.below(100000)) };
            let at = 1 + r.us(tags.len());
            tags.insert(at, own);
            if r.chance(1, 2) {
                tags.push(if name == "body_hash" { "t=17".into() } else { "bh=aGk=".into() });
            }
            format!("dkim-signature:{};", tags.join("; "))
        }
    };
    if r.chance(1, 3) {
        lines.push(r.pick(&["x:1", "subject:s", "to:a@b", "from:c@d", "cc:e@f"]).to_string());
    }
    lines.push(line);
    if r.chance(1, 3) {
        lines.push(r.pick(&["y:2", "subject:t", "to:g@h", "bcc:i"]).to_string());
    }
    lines.join("\r\n") + "\r\n"
}

fn generate_shipped(r: &mut Rng, lab: &mut Lab) -> Res<History> {
    let sh = shelf();
    let sh = sh.borrow();
    if sh.all.is_empty() {
        return broken("no circuit is shipped");
    }
    let c = r.pick(&sh.all);
    // few lengths: building a circuit costs as much as many proofs
    let n = if r.chance(1, 24) { *r.pick(&[12, 36, 80]) } else { *r.pick(&[28, 48, 48, 64]) };
    let n = if n > 48 && c.name == "email_addr_with_name" { 48 } else { n };
    let fields: &Model = match &c.meant {
        Meant::Scan(m) | Meant::Field(m) => m,
        Meant::Brackets => sh.bracket.as_ref().unwrap(),
    };
    let tel = Teller::new(fields);
    let mut v = vec![];
    for _ in 0..if n > 48 { 16 } else { 30 } {
        let mut s: Vec<u8> = if r.chance(2, 3) { well_formed(r, &c.name, n).into_bytes() } else { tel.tell(r, n) };
        if r.chance(1, 3) {
            tel.touch(&mut s, r);
        }
        if r.chance(2, 5) {
            foreign(r, &mut s);
        }
        if matches!(c.meant, Meant::Brackets) && r.chance(1, 2) {
            s.reverse();
        }
        if r.chance(1, 4) {
            transit(r, &mut s);
        }
        let mut msg = def::padded(&s, n);
        let k = r.below(8);
        if k == 0 || k == 1 {
            def::damage(&mut msg, r);
        }
        let mut a = json!({ "msg": msg });
        if k >= 1 && k <= 5 {
            a["byz"] = (r.next() >> 12).into();
        }
        if k == 4 || k == 5 {
            a["as"] = msg.clone().into();
            msg = almost(&msg, r);
            a["msg"] = msg.into();
        }
        v.push(a);
    }
    let mut disk = new_disk();
    let mut steps = vec![];
    // now and then the definition is compiled again
    let own: Vec<&Shipped> = sh.all.iter().filter(|x| x.json.is_some()).collect();
    let again = match &c.meant {
        Meant::Scan(_) if c.json.is_some() => Some(c),
        Meant::Scan(_) => None,
        _ if own.is_empty() => None,
        _ => Some(*r.pick(&own)),
    };
    let mut over = Value::Null;
    if let Some(x) = again.filter(|_| r.chance(1, 3)) {
        mkdirs(&mut disk, CWD);
        put_file(&mut disk, "/sim/w/d.json", x.json.as_ref().unwrap().as_bytes());
        let mut q = Req::blank(if r.chance(1, 2) { Via::Cli } else { Via::Lib });
        q.def = "d.json".into();
        q.circom = Some("o.circom".into());
        q.template = Some(x.template.clone());
        q.gen = Some(true);
        q.publics = 1;
        let g = lab.golden(&disk, &q, CWD)?;
        let quiet = r.chance(2, 3);
        (disk, steps) = author(r, disk, q, &g, quiet);
        over = x.file.clone().into();
    }
    Ok(History { property: "C11".into(), seed: 0, disk, steps, extra: json!({ "circuit": c.name, "n": n, "over": over, "attempts": v }) })
}

fn judge_shipped(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let sh = shelf();
    let name = h.extra["circuit"].as_str().unwrap_or("").to_string();
    let Some(n) = h.extra["n"].as_u64().map(|n| n as usize) else { return Ok(None) };
    let again = match h.extra["over"].as_str() {
        Some(f) => match acknowledged(h, lab)? {
            Some((disk, _)) => match disk.get("/sim/w/o.circom") {
                Some(t) => Some((f.to_string(), String::from_utf8_lossy(&t.data.0).into_owned())),
                None => return Ok(breach("no artefact", format!("the compile of the definition of {f} was acknowledged but there is no circuit"))),
            },
            None => return Ok(None),
        },
        None => None,
    };
    lab.nontrivial = false;
    let shipped = |f: &str| std::fs::read_to_string(format!("{}/packages/circom/circuits/common/{f}", crate::repo())).unwrap_or_default();
    let file = match sh.borrow().all.iter().find(|c| c.name == name) {
        Some(c) => (c.file.clone(), c.template.clone()),
        None => return Ok(None),
    };
    // the same text is the same circuit
    let other = again.as_ref().filter(|a| a.1 != shipped(&a.0));
    let slot = at_work(&(name.clone(), n, other.map_or(0, |a| hash_bytes(a.1.as_bytes()) ^ hash_bytes(a.0.as_bytes()))));
    let ready = slot.get_or_init(|| {
        let mut inc = Includes::new();
        let mut text = shipped(&file.0);
        let mut at = format!("circuits/common/{}", file.0);
        if let Some((f, t)) = other {
            if *f == file.0 {
                text = t.clone();
                at = "sim/o.circom".into();
            } else {
                inc.over.insert(format!("circuits/common/{f}"), t.clone());
            }
        }
        Ready::new(&text, &at, &file.1, n, &inc)
    });
    let what = if again.is_some() { format!("{name} (with {} compiled again)", again.as_ref().unwrap().0) } else { name.clone() };
    let ready = match ready {
        Ok(r) => r,
        Err(e) => return Ok(breach("unusable circuit", format!("{what} cannot be used: {e}"))),
    };
    if ready.reveals.len() != 1 {
        return Ok(breach("number of reveals", format!("{what} has {} reveal outputs", ready.reveals.len())));
    }
    let s = sh.borrow();
    let c = s.all.iter().find(|c| c.name == name).unwrap();
    lab.st.mark(format!("{what}"));
    sample(lab, json!({"circuit": what, "msg_bytes": n, "first_attempt": h.extra["attempts"].get(0)}));
    let id = hash_bytes(what.as_bytes());
    let mut native: Vec<(String, String)> = vec![];
    for a in h.extra["attempts"].as_array().cloned().unwrap_or_default() {
        let Some(msg) = message_of(&a, n) else { continue };
        let e = meant(&s, &c.meant, &msg);
        let honest = ready.prove(&msg, &[]);
        let natural = msg.iter().all(|b| (0..255).contains(b));
        let hit = e.as_ref().is_some_and(|e| e.out);
        let mut v = Verdicts { lab, ready, id };
        v.count(&msg, &[], &honest, hit || !natural);
        if natural && honest.accepted != e.is_some() {
            return Ok(breach(
                if honest.accepted { "forged proof" } else { "honest proof rejected" },
                format!("{what}, message {}: the honest assignment {}", show(&msg), if honest.accepted { "is accepted although the field is not there" } else { "is rejected" }),
            ));
        }
        if let (true, Some(x)) = (natural, carried(&name, &msg)) {
            v.lab.st.mark("well-formed headers");
            let have: Vec<u8> = honest.reveals[0].iter().filter(|b| **b != 0).map(|b| *b as u8).collect();
            if honest.out != 1 || have != x.as_bytes() {
                return Ok(breach("wrong value", format!("{what}, message {}: the value is {x:?}, the circuit says out={} and reveals {:?}", show(&msg), honest.out, text_of(&honest.reveals[0]))));
            }
            let t: Vec<u8> = msg.iter().filter(|b| **b != 0).map(|b| *b as u8).collect();
            let t = String::from_utf8(t).unwrap();
            // the library does not strip the space before a bare address
            if !(name.ends_with("_addr") && t.contains(&format!(": {x}"))) {
                native.push((t, x));
            }
        }
        let mut proofs = vec![(honest, vec![])];
        for nth in 0..tries(ready) {
            let ch = choices_of(&a, ready, &proofs[0].0.all, nth);
            if !ch.is_empty() {
                let p = ready.prove(&msg, &ch);
                v.count(&msg, &ch, &p, true);
                proofs.push((p, ch));
            }
        }
        for (p, ch) in &proofs {
            if !p.accepted {
                continue;
            }
            let wrong = match &e {
                None => Some("it is accepted although the field is not there".to_string()),
                Some(e) => {
                    let lazy = p.out != 1 && e.out && !(natural && ch.is_empty()) && p.reveals[0].iter().all(|b| *b == 0);
                    if lazy { None } else { e.against(p) }
                }
            };
            if let Some(w) = wrong {
                let set: Vec<String> = ch.iter().map(|c| format!("{} := {}", ready.c.signal_name(c.0), c.1)).collect();
                return Ok(breach(
                    if ch.is_empty() && natural { "wrong honest outputs" } else { "forged proof" },
                    format!("{what}, message {}, prover's choices [{}]: all constraints hold, and {w}", show(&msg), set.join(", ")),
                ));
            }
        }
    }
    if !native.is_empty() && ["body_hash", "email_addr", "email_domain", "from_all", "from_addr", "message_id", "subject_all", "timestamp", "to_all", "to_addr"].contains(&name.as_str()) {
        let ops: Vec<Value> = native.iter().map(|x| json!({"op": "named", "name": name, "input": x.0})).collect();
        let mut d = new_disk();
        mkdirs(&mut d, CWD);
        let o = lab.run(&mut d, Prog::Driver, &[json!({ "threads": [ops] }).to_string()], &Env::quiet(CWD))?;
        lab.nontrivial = false;
        let Some(res) = results(&o) else { return Ok(breach("extraction died", format!("{name}: {}", o.err_text()))) };
        for (i, (t, x)) in native.iter().enumerate() {
            lab.st.mark("reveals compared with the extraction library");
            let at = t.find(x.as_str()).unwrap_or(0);
            let ok = res[0][i].get("ok").and_then(|v| serde_json::from_value::<Vec<(usize, usize)>>(v.clone()).ok());
            let got: Option<&str> = match ok.as_deref() {
                Some([(a, b)]) => t.get(*a..*b),
                _ => None,
            };
            if got != Some(x.as_str()) {
                return Ok(breach("extraction differs", format!("{name}, message {t:?}: the value is {x:?} (at {at}), the extraction library returns {}", res[0][i])));
            }
        }
    }
    Ok(None)
}

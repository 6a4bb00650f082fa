//! Requests, histories of them, and the laboratory that runs histories.
use crate::sim::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Via {
    Cli,
    Lib,
    /// The library call that takes the definition as a value.
    Struct,
}

fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

/// One compile request.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Req {
    pub via: Via,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub raw: Option<String>,
    /// Path of the definition.
    #[serde(default, skip_serializing_if = "is_default")]
    pub def: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub config: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub substrs: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub halo2: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub circom: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub template: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub gen: Option<bool>,
    /// How the command line is spelled.
    #[serde(default, skip_serializing_if = "is_default")]
    pub style: u32,
    /// The number of public parts, that is of substring tables.
    #[serde(default, skip_serializing_if = "is_default")]
    pub publics: usize,
    /// A command line of its own, for requests that are wrong already there.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub argv: Option<Vec<String>>,
}

impl Req {
    pub fn blank(via: Via) -> Req {
        Req {
            via,
            raw: None,
            def: String::new(),
            config: None,
            substrs: None,
            halo2: None,
            circom: None,
            template: None,
            gen: None,
            style: 0,
            publics: 0,
            argv: None,
        }
    }
    pub fn op(&self) -> Value {
        let mut o = json!({});
        let m = o.as_object_mut().unwrap();
        match (&self.raw, &self.config) {
            (Some(r), _) => {
                m.insert("op".into(), "raw".into());
                m.insert("raw".into(), r.as_str().into());
            }
            (_, Some(c)) if self.via == Via::Struct => {
                m.insert("op".into(), "struct".into());
                m.insert("config".into(), c.clone());
            }
            _ => {
                m.insert("op".into(), "decomposed".into());
                m.insert("def".into(), self.def.as_str().into());
            }
        }
        for (k, v) in [("substrs", &self.substrs), ("halo2", &self.halo2), ("circom", &self.circom), ("template", &self.template)] {
            if let Some(v) = v {
                m.insert(k.into(), v.as_str().into());
            }
        }
        if let Some(g) = self.gen {
            m.insert("gen".into(), g.into());
        }
        o
    }
    pub fn call(&self) -> (Prog, Vec<String>) {
        if self.via != Via::Cli {
            return (Prog::Driver, vec![json!({"threads": [[self.op()]]}).to_string()]);
        }
        if let Some(a) = &self.argv {
            return (Prog::Cli, a.clone());
        }
        let mut opts: Vec<(&str, &str, String)> = vec![];
        match &self.raw {
            Some(r) => opts.push(("r", "raw-regex", r.clone())),
            None => opts.push(("d", "decomposed-regex-path", self.def.clone())),
        }
        if let Some(s) = &self.substrs {
            opts.push(("s", "substrs-json-path", s.clone()));
        }
        if let Some(s) = &self.halo2 {
            opts.push(("h", "halo2-dir-path", s.clone()));
        }
        if let Some(s) = &self.circom {
            opts.push(("c", "circom-file-path", s.clone()));
        }
        if let Some(s) = &self.template {
            opts.push(("t", "template-name", s.clone()));
        }
        if let Some(g) = self.gen {
            opts.push(("g", "gen-substrs", g.to_string()));
        }
        let n = opts.len();
        opts.rotate_left((self.style / 8) as usize % n);
        let mut a = vec![if self.raw.is_some() { "raw" } else { "decomposed" }.to_string()];
        for (i, (short, long, v)) in opts.into_iter().enumerate() {
            let form = if v.starts_with('-') || v.is_empty() { 2 } else { (self.style as usize + i) % 4 };
            match form {
                0 => a.extend([format!("-{short}"), v]),
                1 => a.extend([format!("--{long}"), v]),
                2 => a.push(format!("--{long}={v}")),
                _ => a.extend([format!("-{short}"), v]),
            }
        }
        (Prog::Cli, a)
    }
    /// Role and absolute path of every output this may write.
    pub fn outputs(&self, cwd: &str) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        if let Some(c) = &self.circom {
            m.insert("circom".to_string(), absolute(cwd, c));
        }
        if let Some(h) = &self.halo2 {
            m.insert("allstr".to_string(), absolute(cwd, &format!("{h}/allstr.txt")));
            for i in 0..self.publics {
                m.insert(format!("substr_{i}"), absolute(cwd, &format!("{h}/substr_{i}.txt")));
            }
        }
        m
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Step {
    Request(Req, Env),
    /// Requests that separate processes carry out at the same time, and the turns they take:
    /// who does how many file operations.
    Together(Vec<(Req, Env)>, Vec<(usize, u64)>),
    /// Calls of the library from threads of one process.
    Script(Value, Env),
    /// A change at rest: the file as it is from now on, or none.
    Damage(String, Option<Node>),
}

/// One execution: everything that is decided before it starts.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct History {
    pub property: String,
    #[serde(default)]
    pub seed: u64,
    pub disk: Disk,
    pub steps: Vec<Step>,
    /// What the judge of the property needs besides.
    #[serde(default, skip_serializing_if = "Value::is_null")]
    pub extra: Value,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Reply {
    Ok,
    Refused(String),
    Panic(String),
    Crashed,
    Signal(i32),
    Hang,
    Deadlock,
}
impl Reply {
    pub fn returned(&self) -> bool {
        matches!(self, Reply::Ok | Reply::Refused(_) | Reply::Panic(_))
    }
}

pub fn reply(via: Via, o: &Outcome) -> Res<Reply> {
    Ok(match o.status {
        Status::Crashed => Reply::Crashed,
        Status::Hang => Reply::Hang,
        Status::Deadlock => Reply::Deadlock,
        Status::Signal(s) => Reply::Signal(s),
        Status::Exit(c) if via == Via::Cli => {
            let t = o.err_text();
            if c == 0 {
                if t.contains("panicked at") {
                    Reply::Panic(t)
                } else {
                    Reply::Ok
                }
            } else if c == 101 || t.contains("panicked at") {
                Reply::Panic(t)
            } else {
                Reply::Refused(t)
            }
        }
        Status::Exit(c) => {
            let r = results(o);
            match r.as_ref().and_then(|r| r.get(0)).and_then(|t| t.get(0)) {
                Some(v) if c == 0 => one_reply(v),
                _ => Reply::Panic(format!("the calling program ended with status {c}: {}", o.err_text())),
            }
        }
    })
}
pub fn one_reply(v: &Value) -> Reply {
    if let Some(e) = v.get("err").or_else(|| v.get("baddef")) {
        Reply::Refused(e.as_str().unwrap_or("").to_string())
    } else if let Some(p) = v.get("panic") {
        Reply::Panic(p.as_str().unwrap_or("").to_string())
    } else {
        Reply::Ok
    }
}
pub fn results(o: &Outcome) -> Option<Vec<Vec<Value>>> {
    let v: Value = serde_json::from_slice(&o.out).ok()?;
    serde_json::from_value(v.get("threads")?.clone()).ok()
}

/// Counts of what was simulated.
#[derive(Default, Clone)]
pub struct Stats {
    pub episodes: u64,
    pub runs: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub micro: u64,
    pub faults: BTreeMap<String, u64>,
    pub marks: BTreeMap<String, u64>,
    pub distinct: std::collections::HashSet<u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
}
impl Stats {
    pub fn mark(&mut self, k: impl Into<String>) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: impl Into<String>, n: u64) {
        *self.marks.entry(k.into()).or_default() += n;
    }
    pub fn merge(&mut self, o: Stats) {
        self.episodes += o.episodes;
        self.runs += o.runs;
        self.sim_ns += o.sim_ns;
        self.steps += o.steps;
        self.switches += o.switches;
        self.micro += o.micro;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.marks {
            *self.marks.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Golden {
    pub reply: Reply,
    /// By role.
    pub files: BTreeMap<String, Vec<u8>>,
    pub ops: [u64; crate::image::NCLASS],
    pub steps: u64,
    pub bytes: u64,
}

pub struct Lab {
    pub m: Machine,
    pub st: Stats,
    pub trace: u64,
    /// The episode did what it is meant to do.
    pub nontrivial: bool,
    /// What happened, run by run, when somebody wants to read it.
    pub record: Option<Vec<Value>>,
    golden: HashMap<String, Golden>,
    alone: HashMap<String, (Value, BTreeMap<String, Vec<u8>>)>,
}

impl Lab {
    pub fn new(p: &Paths) -> Lab {
        Lab { m: Machine::new(p), st: Stats::default(), trace: 0, nontrivial: false, record: None, golden: HashMap::new(), alone: HashMap::new() }
    }
    pub fn run(&mut self, disk: &mut Disk, prog: Prog, args: &[String], env: &Env) -> Res<Outcome> {
        let o = self.m.run(disk, prog, args, env)?;
        self.account(prog, args, env, &o);
        Ok(o)
    }
    fn account(&mut self, prog: Prog, args: &[String], env: &Env, o: &Outcome) {
        self.st.runs += 1;
        self.st.sim_ns += o.clock_ns.min(3_600_000_000_000);
        self.st.steps += o.steps;
        self.st.switches += o.switches;
        self.st.micro += o.micro_steps;
        for (f, n) in env.faults.iter().zip(&o.fired) {
            if *n > 0 {
                *self.st.faults.entry(f.label()).or_default() += n;
            }
        }
        if o.capacity_hit {
            *self.st.faults.entry("disk full".into()).or_default() += 1;
        }
        if env.max_chunk_r > 0 {
            *self.st.faults.entry("all reads short".into()).or_default() += 1;
        }
        if env.max_chunk_w > 0 {
            *self.st.faults.entry("all writes short".into()).or_default() += 1;
        }
        if env.clock_jump != 0 {
            *self.st.faults.entry("clock jump".into()).or_default() += 1;
        }
        if env.faults.iter().zip(&o.fired).any(|f| *f.1 > 0) || o.capacity_hit || env.max_chunk_r > 0 || env.max_chunk_w > 0 {
            self.nontrivial = true;
        }
        let what = format!("{:?}{:?}{:?}", o.status, o.out, o.err);
        self.trace = crate::rng::mix(self.trace ^ o.loghash ^ crate::rng::hash_bytes(what.as_bytes()));
        if let Some(r) = &mut self.record {
            r.push(narrate(prog, args, env, o));
        }
    }
    pub fn together(&mut self, disk: &mut Disk, qs: &[(Req, Env)], schedule: &[(usize, u64)]) -> Res<Vec<(Reply, Outcome)>> {
        let procs: Vec<(Prog, Vec<String>, Env)> = qs.iter().map(|(q, e)| (q.call(), e.clone())).map(|((p, a), e)| (p, a, e)).collect();
        let (outs, turns) = self.m.together(disk, &procs, schedule)?;
        let mut v = vec![];
        for ((p, q), o) in procs.iter().zip(qs).zip(outs) {
            self.account(p.0, &p.1, &p.2, &o);
            v.push((reply(q.0.via, &o)?, o));
        }
        self.st.switches += turns.windows(2).filter(|t| t[0].0 != t[1].0).count() as u64;
        self.trace = crate::rng::mix(self.trace ^ crate::rng::hash_bytes(format!("{turns:?}").as_bytes()));
        if let Some(r) = &mut self.record {
            r.push(json!({"turns": turns.iter().take(300).map(|t| format!("process {} {} operations {}", t.0, t.1, t.2)).collect::<Vec<_>>()}));
        }
        Ok(v)
    }
    pub fn request(&mut self, disk: &mut Disk, r: &Req, env: &Env) -> Res<(Reply, Outcome)> {
        let (p, a) = r.call();
        let o = self.run(disk, p, &a, env)?;
        Ok((reply(r.via, &o)?, o))
    }
    /// One library call in a process of its own: its result and its files.
    pub fn alone(&mut self, disk: &Disk, op: &Value, cwd: &str, outs: &BTreeMap<String, String>) -> Res<(Value, BTreeMap<String, Vec<u8>>)> {
        let def = op.get("def").and_then(Value::as_str).and_then(|p| disk.get(&absolute(cwd, p))).map(|n| n.data.clone());
        let dirs: Vec<bool> = outs.values().map(|p| disk.contains_key(p.rsplit_once('/').map_or("", |x| x.0))).collect();
        let key = format!("{op}|{def:?}|{cwd}|{dirs:?}");
        if let Some(a) = self.alone.get(&key) {
            return Ok(a.clone());
        }
        let mut d = disk.clone();
        let o = self.m.run(&mut d, Prog::Driver, &[json!({"threads": [[op]]}).to_string()], &Env::quiet(cwd))?;
        self.st.runs += 1;
        let v = match results(&o).and_then(|r| r.first().and_then(|t| t.first()).cloned()) {
            Some(v) => v,
            None => json!({"panic": format!("{} {}", o.status, o.err_text())}),
        };
        let files = outs.iter().filter_map(|(k, p)| d.get(p).filter(|n| !n.dir).map(|n| (k.clone(), n.data.0.clone()))).collect();
        if self.alone.len() > 3000 {
            self.alone.clear();
        }
        self.alone.insert(key.clone(), (v, files));
        Ok(self.alone[&key].clone())
    }
    /// The request alone, without faults, on a disk that holds none of its outputs.
    pub fn golden(&mut self, disk: &Disk, r: &Req, cwd: &str) -> Res<Golden> {
        let outs = r.outputs(cwd);
        let mut d = disk.clone();
        for p in outs.values() {
            d.remove(p);
        }
        let def = if r.raw.is_none() && r.via != Via::Struct {
            d.get(&absolute(cwd, &r.def)).map(|n| String::from_utf8_lossy(&n.data.0).into_owned())
        } else {
            r.substrs.as_ref().and_then(|s| d.get(&absolute(cwd, s))).map(|n| String::from_utf8_lossy(&n.data.0).into_owned())
        };
        let key = format!("{}|{:?}|{}|{:?}", serde_json::to_string(r).unwrap(), def, cwd, d.keys().collect::<Vec<_>>());
        if let Some(g) = self.golden.get(&key) {
            return Ok(g.clone());
        }
        let (p, a) = r.call();
        let o = self.m.run(&mut d, p, &a, &Env::quiet(cwd))?;
        self.st.runs += 1;
        let files: BTreeMap<String, Vec<u8>> =
            outs.iter().filter_map(|(role, p)| d.get(p).map(|n| (role.clone(), n.data.0.clone()))).collect();
        let bytes = files.values().map(|f| f.len() as u64).sum();
        let g = Golden { reply: reply(r.via, &o)?, files, ops: o.ops, steps: o.steps, bytes };
        if self.golden.len() > 3000 {
            self.golden.clear();
        }
        self.golden.insert(key, g.clone());
        Ok(g)
    }
}

fn op_name(op: u8) -> String {
    match op {
        1 => "open for reading".into(),
        2 => "open for writing".into(),
        3 => "close".into(),
        4 => "read".into(),
        5 => "write".into(),
        6 => "write to a standard stream".into(),
        7 => "seek".into(),
        8 => "sync".into(),
        9 => "truncate".into(),
        10 => "stat".into(),
        20 => "futex wait".into(),
        21 => "futex wake".into(),
        22 => "thread start".into(),
        23 => "thread end".into(),
        200 => "switch".into(),
        201 => "crash".into(),
        202 => "allocation fails".into(),
        n => format!("operation {n}"),
    }
}
fn narrate(prog: Prog, args: &[String], env: &Env, o: &Outcome) -> Value {
    let fired: Vec<String> = env.faults.iter().zip(&o.fired).filter(|f| *f.1 > 0).map(|(f, n)| format!("{} at operation {} ({n} times)", f.label(), f.nth)).collect();
    let cut = |b: &[u8]| String::from_utf8_lossy(b).chars().take(1500).collect::<String>();
    let log: Vec<String> = o
        .log
        .iter()
        .take(120)
        .map(|l| format!("thread {} {} file {} arg {} -> {}", l.1, op_name(l.0), l.2, l.4, l.3))
        .collect();
    json!({
        "program": if prog == Prog::Cli { "zk-regex" } else { "driver" },
        "args": args,
        "status": o.status.to_string(),
        "faults_fired": fired,
        "stdout": cut(&o.out),
        "stderr": cut(&o.err),
        "operations": log,
    })
}

/// Paths whose existence or content differs.
pub fn diff(a: &Disk, b: &Disk) -> Vec<String> {
    let mut v = vec![];
    for (p, n) in a {
        match b.get(p) {
            Some(m) if m == n => {}
            _ => v.push(p.clone()),
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) {
            v.push(p.clone());
        }
    }
    v
}

/// A property found broken.
#[derive(Clone, Debug)]
pub struct Breach {
    pub class: String,
    pub text: String,
    /// Which known finding this would be.
    pub known: Option<String>,
}
pub fn breach(class: &str, text: impl Into<String>) -> Option<Breach> {
    Some(Breach { class: class.into(), text: text.into(), known: None })
}

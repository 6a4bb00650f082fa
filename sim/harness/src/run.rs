//! Runs seeded episodes of one property, minimises what fails, writes the evidence.
use crate::lab::*;
use crate::rng::{hash_bytes, Rng};
use crate::sim::*;
use crate::{fs, repro, world, zk};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn generate(prop: &str, r: &mut Rng, lab: &mut Lab) -> Res<History> {
    match prop {
        "C01" | "C02" | "C03" | "C04" => fs::generate(prop, r, lab),
        "C05" | "C06" => repro::generate(prop, r, lab),
        "C16" | "C17" | "C18" | "C20" => world::generate(prop, r, lab),
        _ => zk::generate(prop, r, lab),
    }
}
pub fn judge(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    lab.trace = 0;
    lab.nontrivial = false;
    match h.property.as_str() {
        "C01" | "C02" | "C03" | "C04" => fs::judge(h, lab),
        "C05" | "C06" => repro::judge(h, lab),
        "C16" | "C17" | "C18" | "C20" => world::judge(h, lab),
        _ => zk::judge(h, lab),
    }
}
fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "one episode = a seeded disk, definition and request served one or two times under seeded I/O faults; distinct = different hash of the simulated system calls and their results (with outputs); non-trivial = at least one fault fired inside the request",
        "C02" => "one episode = a history of attempts killed or failed at seeded points over seeded earlier files, then one fault-free attempt; distinct = different hash of all system calls of the history; non-trivial = at least one attempt was killed or met a fault",
        "C03" => "one episode = a request that is damaged or wrong in a seeded way; distinct = different hash of system calls and reply; non-trivial = the request was refused",
        "C04" => "one episode = a seeded disk with neighbours and a request under seeded faults; distinct = different hash of system calls; non-trivial = at least one fault fired or outputs existed before",
        "C05" => "one episode = one definition compiled several times in differing simulated environments; distinct = different hash of all system calls; non-trivial = at least one twin differed in environment, route, or earlier calls",
        "C06" => "one episode = threads of one process calling the libraries under a seeded schedule; distinct = different hash of the interleaved system calls and switches; non-trivial = at least one switch away from a runnable thread happened",
        "C09" => "one episode = an author's history, the circuit read back, and a series of dishonest provers; distinct = different (circuit, assignment); non-trivial = the prover deviated (message values or chosen signals)",
        "C16" => "one episode = a request during which other programs replace its definition at seeded operations; distinct = different hash of system calls; non-trivial = a version other than the first was in place before the request ended",
        "C17" => "one episode = a request under faults that persist; distinct = different hash of system calls; non-trivial = at least one fault fired",
        "C18" => "one episode = a seeded series of calls, with its faults, made several times in one process; distinct = different hash of system calls; non-trivial = a call of the series failed, or a fault fired, or there were several calls",
        "C20" => "one episode = several requests carried out by separate processes in seeded turns of file operations on one disk; distinct = different hash of the system calls of all of them and of the turns; non-trivial = at least one of them was interrupted by another while it had begun and not ended",
        "C10" => "one episode = an author's history with faults, the circuit read back, and a series of honest provers; distinct = different (circuit, message); non-trivial = the message has a match or nearly one",
        "C11" => "one episode = one shipped circuit and a series of honest and dishonest provers; distinct = different (circuit, assignment); non-trivial = the message has a match or the prover deviated",
        _ => "one episode = an author's history with faults, the tables read back, and honest and dishonest claims of state sequences; distinct = different (tables, claim); non-trivial = the string matches or nearly does, or the claim deviates",
    }
}

pub struct Config {
    pub paths: Paths,
    pub verif: PathBuf,
    pub seed: u64,
    pub tier: String,
    pub secs: f64,
    pub threads: usize,
    pub max_episodes: u64,
}

pub fn episode(cfg: &Config, prop: &str, ep: u64, lab: &mut Lab) -> Res<(History, Option<Breach>)> {
    let mut r = Rng::of(&[cfg.seed, hash_bytes(prop.as_bytes()), ep]);
    lab.st.episodes += 1;
    let mut h = generate(prop, &mut r, lab)?;
    h.seed = ep;
    let b = judge(&h, lab)?;
    if lab.nontrivial {
        lab.st.distinct.insert(lab.trace);
    }
    Ok((h, b))
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub id: String,
    pub property: String,
    pub replay: String,
    pub text: String,
}
/// The findings listed as known; entries that begin with "fixed:" suppress nothing.
pub fn findings(cfg: &Config) -> Vec<Finding> {
    let t = std::fs::read_to_string(cfg.verif.join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix("finding: ") {
            let mut f = Finding { id: String::new(), property: String::new(), replay: String::new(), text: String::new() };
            let mut words = rest.split(' ').peekable();
            while let Some(w) = words.peek() {
                if let Some(x) = w.strip_prefix("property=") {
                    f.property = x.into();
                } else if let Some(x) = w.strip_prefix("id=") {
                    f.id = x.into();
                } else if let Some(x) = w.strip_prefix("replay=") {
                    f.replay = x.into();
                } else {
                    break;
                }
                words.next();
            }
            f.text = words.collect::<Vec<_>>().join(" ");
            v.push(f);
        }
    }
    v
}

/// For people: long texts and lists cut.
fn shorten(v: &mut Value) {
    match v {
        Value::String(s) if s.chars().count() > 200 => *s = s.chars().take(200).collect::<String>() + "...",
        Value::Array(a) => {
            a.truncate(12);
            a.iter_mut().for_each(shorten);
        }
        Value::Object(o) => o.values_mut().for_each(shorten),
        _ => {}
    }
}

pub fn check(cfg: &Config, prop: &str) -> i32 {
    let t0 = Instant::now();
    let known: Vec<Finding> = findings(cfg).into_iter().filter(|f| f.property == prop).collect();
    let mut lab = Lab::new(&cfg.paths);
    let mut reproduced = vec![];
    for f in &known {
        match load(&cfg.verif.join(&f.replay).to_string_lossy()) {
            Ok(h) => match judge(&h, &mut lab) {
                Ok(Some(b)) if b.known.as_deref() == Some(&f.id) => {
                    println!("KNOWN-FINDING: property={prop} {}", f.text);
                    reproduced.push(f.id.clone());
                }
                Ok(Some(b)) => {
                    // something else is wrong with it
                    return report(cfg, prop, h, b, lab, t0, 0, 0, &[]);
                }
                Ok(None) => {}
                Err(e) => eprintln!("known finding {}: {}", f.id, e.0),
            },
            Err(e) => eprintln!("known finding {}: {e}", f.id),
        }
    }
    let ids: Vec<String> = known.iter().map(|f| f.id.clone()).collect();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, History, Breach)>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(std::mem::take(&mut lab.st));
    let broken_count = AtomicU64::new(0);
    let broken_text: Mutex<String> = Mutex::new(String::new());
    let rerun = AtomicU64::new(0);
    let diverged = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..cfg.threads {
            s.spawn(|| {
                let mut lab = Lab::new(&cfg.paths);
                while !stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < cfg.secs {
                    let ep = next.fetch_add(1, Ordering::Relaxed);
                    if ep >= cfg.max_episodes {
                        break;
                    }
                    match episode(cfg, prop, ep, &mut lab) {
                        Err(b) => {
                            broken_count.fetch_add(1, Ordering::Relaxed);
                            *broken_text.lock().unwrap() = format!("episode {ep}: {}", b.0);
                        }
                        Ok((h, Some(b))) => match &b.known {
                            Some(k) if ids.contains(k) => *lab.st.known.entry(k.clone()).or_default() += 1,
                            _ => {
                                stop.store(true, Ordering::Relaxed);
                                let mut f = found.lock().unwrap();
                                if f.as_ref().is_none_or(|x| ep < x.0) {
                                    *f = Some((ep, h, b));
                                }
                            }
                        },
                        Ok((h, None)) => {
                            if lab.nontrivial && lab.st.samples.len() < 3 {
                                let mut v = json!({"episode": ep, "history": h});
                                shorten(&mut v);
                                lab.st.samples.push(v);
                            }
                            if ep % 40 == 7 {
                                // the same seed must give the same execution
                                let t = lab.trace;
                                rerun.fetch_add(1, Ordering::Relaxed);
                                let st = std::mem::take(&mut lab.st);
                                if judge(&h, &mut lab).is_err() || lab.trace != t {
                                    diverged.fetch_add(1, Ordering::Relaxed);
                                    eprintln!("episode {ep} of {prop} was not repeated exactly");
                                }
                                lab.st = st;
                            }
                        }
                    }
                }
                let st = std::mem::take(&mut lab.st);
                total.lock().unwrap().merge(st);
            });
        }
    });
    lab.st = total.into_inner().unwrap();
    let nbroken = broken_count.load(Ordering::Relaxed);
    if nbroken > 0 {
        eprintln!("{nbroken} episodes could not be simulated; last: {}", broken_text.lock().unwrap());
    }
    let (rr, dv) = (rerun.load(Ordering::Relaxed), diverged.load(Ordering::Relaxed));
    let found = found.into_inner().unwrap();
    match found {
        Some((ep, h, b)) => {
            eprintln!("episode {ep}: {} ({})", b.text, b.class);
            // as it was found, when somebody only wants to know whether anything is
            let (h, b) = if std::env::var_os("ZKSIM_RAW").is_some() { (h, b) } else { minimise(cfg, h, b, &ids) };
            report(cfg, prop, h, b, lab, t0, rr, dv, &reproduced)
        }
        None => {
            evidence(cfg, prop, &lab.st, t0, 0, rr, dv, nbroken, &reproduced);
            if lab.st.episodes <= nbroken {
                eprintln!("no episode could be simulated");
                return 2;
            }
            let s = &lab.st;
            println!(
                "{prop}: {} episodes, {} simulated runs, {} distinct non-trivial, {:.1} s{}",
                s.episodes,
                s.runs,
                s.distinct.len(),
                t0.elapsed().as_secs_f64(),
                if dv > 0 { " (some runs were not repeatable)" } else { "" }
            );
            0
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn report(cfg: &Config, prop: &str, h: History, b: Breach, lab: Lab, t0: Instant, rr: u64, dv: u64, known: &[String]) -> i32 {
    let mut l2 = Lab::new(&cfg.paths);
    l2.record = Some(vec![]);
    let _ = judge(&h, &mut l2);
    let mut v = serde_json::to_value(&h).unwrap();
    let o = v.as_object_mut().unwrap();
    o.insert("violation".into(), json!({"class": b.class, "text": b.text}));
    o.insert("verif_seed".into(), cfg.seed.into());
    o.insert("trace".into(), Value::Array(l2.record.take().unwrap()));
    let text = serde_json::to_string_pretty(&v).unwrap();
    let dir = cfg.verif.join("evidence/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{:016x}.json", hash_bytes(serde_json::to_string(&h).unwrap().as_bytes())));
    let _ = std::fs::write(&path, text);
    evidence(cfg, prop, &lab.st, t0, 1, rr, dv, 0, known);
    println!("{}", b.text);
    println!("VIOLATION property={prop} replay={}", path.display());
    1
}

pub fn load(path: &str) -> Result<History, String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    serde_json::from_str(&t).map_err(|e| format!("{path}: {e}"))
}

pub fn replay(cfg: &Config, path: &str) -> i32 {
    let h = match load(path) {
        Ok(h) => h,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let mut lab = Lab::new(&cfg.paths);
    lab.record = Some(vec![]);
    match judge(&h, &mut lab) {
        Err(e) => {
            eprintln!("{}", e.0);
            2
        }
        Ok(b) => {
            for l in lab.record.take().unwrap() {
                eprintln!("{}", serde_json::to_string(&l).unwrap().chars().take(2000).collect::<String>());
            }
            eprintln!("trace {:016x}", lab.trace);
            match b {
                Some(b) => {
                    println!("{}: {}{}", b.class, b.text, b.known.map_or(String::new(), |k| format!(" [known finding {k}]")));
                    println!("VIOLATION property={} replay={path}", h.property);
                    1
                }
                None => {
                    println!("the property holds on this history");
                    0
                }
            }
        }
    }
}

// ------------------------------------------------------------------ minimiser
struct Shrinker<'a> {
    lab: Lab,
    class: String,
    ids: &'a [String],
    t0: Instant,
    evals: u32,
    best: (History, Breach),
}
impl Shrinker<'_> {
    fn spent(&self) -> bool {
        self.evals > 600 || self.t0.elapsed() > Duration::from_secs(25)
    }
    fn attempt(&mut self, h: History) -> bool {
        if self.spent() || h == self.best.0 {
            return false;
        }
        self.evals += 1;
        match judge(&h, &mut self.lab) {
            Ok(Some(b)) if b.class == self.class && !b.known.as_ref().is_some_and(|k| self.ids.contains(k)) => {
                self.best = (h, b);
                true
            }
            _ => false,
        }
    }
    /// Removes elements of a list, in chunks first.
    fn list<T: Clone>(&mut self, get: impl Fn(&History) -> Vec<T>, set: impl Fn(&mut History, Vec<T>), keep: usize) {
        let mut size = get(&self.best.0).len().saturating_sub(keep);
        while size >= 1 && !self.spent() {
            let mut i = 0;
            loop {
                let v = get(&self.best.0);
                if i + size > v.len().saturating_sub(keep) || self.spent() {
                    break;
                }
                let mut w = v.clone();
                w.drain(i..i + size);
                let mut h = self.best.0.clone();
                set(&mut h, w);
                if !self.attempt(h) {
                    i += size;
                }
            }
            size /= 2;
        }
    }
}
fn env_of(h: &mut History, i: usize) -> Option<&mut Env> {
    match h.steps.get_mut(i) {
        Some(Step::Request(_, e)) | Some(Step::Script(_, e)) => Some(e),
        _ => None,
    }
}

pub fn minimise(cfg: &Config, mut h: History, b: Breach, ids: &[String]) -> (History, Breach) {
    zk::spell_out(&mut h);
    let mut s = Shrinker { lab: Lab::new(&cfg.paths), class: b.class.clone(), ids, t0: Instant::now(), evals: 0, best: (h, b) };
    for _ in 0..3 {
        let before = serde_json::to_string(&s.best.0).unwrap().len();
        let keep = if s.best.0.property == "C02" { 1 } else { 0 };
        s.list(|h| h.steps.clone(), |h, v| h.steps = v, keep);
        for key in ["attempts", "claims"] {
            s.list(
                |h| h.extra.get(key).and_then(Value::as_array).cloned().unwrap_or_default(),
                |h, v| {
                    if let Some(o) = h.extra.as_object_mut() {
                        o.insert(key.into(), Value::Array(v));
                    }
                },
                1,
            );
        }
        for i in 0..s.best.0.steps.len() {
            shrink_turns(&mut s, i);
            // calls of a script
            let nthreads = match &s.best.0.steps[i] {
                Step::Script(v, _) => v["threads"].as_array().map_or(0, |t| t.len()),
                _ => 0,
            };
            if nthreads > 1 {
                s.list(
                    |h| match &h.steps[i] {
                        Step::Script(v, _) => v["threads"].as_array().cloned().unwrap_or_default(),
                        _ => vec![],
                    },
                    |h, w| {
                        if let Step::Script(v, _) = &mut h.steps[i] {
                            v["threads"] = Value::Array(w);
                        }
                    },
                    1,
                );
            }
            for t in 0..nthreads {
                s.list(
                    |h| match &h.steps[i] {
                        Step::Script(v, _) => v["threads"].get(t).and_then(Value::as_array).cloned().unwrap_or_default(),
                        _ => vec![],
                    },
                    |h, w| {
                        if let Step::Script(v, _) = &mut h.steps[i] {
                            if let Some(x) = v["threads"].get_mut(t) {
                                *x = Value::Array(w);
                            }
                        }
                    },
                    0,
                );
            }
            if env_of(&mut s.best.0.clone(), i).is_none() {
                continue;
            }
            s.list(|h| env_of(&mut h.clone(), i).unwrap().faults.clone(), |h, v| env_of(h, i).unwrap().faults = v, 0);
            s.list(|h| env_of(&mut h.clone(), i).unwrap().preempts.clone(), |h, v| env_of(h, i).unwrap().preempts = v, 0);
            s.list(|h| env_of(&mut h.clone(), i).unwrap().hots.clone(), |h, v| env_of(h, i).unwrap().hots = v, 0);
            s.list(|h| env_of(&mut h.clone(), i).unwrap().moves.clone(), |h, v| env_of(h, i).unwrap().moves = v, 0);
            s.list(|h| env_of(&mut h.clone(), i).unwrap().vars.clone(), |h, v| env_of(h, i).unwrap().vars = v, 0);
            let quiet = Env::quiet("/sim/w");
            let edits: Vec<Box<dyn Fn(&mut Env)>> = vec![
                Box::new(|e| e.capacity = None),
                Box::new(|e| e.max_chunk_r = 0),
                Box::new(|e| e.max_chunk_w = 0),
                Box::new(|e| e.layout_salt = 0),
                Box::new(|e| e.ambient = 0),
                Box::new(|e| e.sched_mode = 0),
                Box::new(|e| {
                    e.clock_jump = 0;
                    e.clock_jump_at = 0;
                }),
                Box::new(move |e| {
                    e.clock0 = quiet.clock0;
                    e.clock_step = quiet.clock_step;
                    e.pid = quiet.pid;
                }),
                Box::new(|e| e.seed = 7),
                Box::new(|e| e.faults.iter_mut().for_each(|f| f.count = 1)),
            ];
            for ed in edits {
                let mut h = s.best.0.clone();
                ed(env_of(&mut h, i).unwrap());
                s.attempt(h);
            }
        }
        // files nobody needs
        let paths: Vec<String> = s.best.0.disk.keys().cloned().collect();
        for p in paths {
            let mut h = s.best.0.clone();
            h.disk.remove(&p);
            s.attempt(h);
        }
        // bytes of messages
        let natt = s.best.0.extra["attempts"].as_array().map_or(0, |a| a.len());
        for a in 0..natt {
            s.list(
                |h| h.extra["attempts"][a]["keep"].as_array().cloned().unwrap_or_default(),
                |h, v| h.extra["attempts"][a]["keep"] = Value::Array(v),
                0,
            );
            let len = s.best.0.extra["attempts"][a]["msg"].as_array().map_or(0, |m| m.len());
            for i in (0..len).rev() {
                let cur = s.best.0.extra["attempts"][a]["msg"][i].as_i64();
                if cur == Some(0) || cur.is_none() {
                    continue;
                }
                let mut h = s.best.0.clone();
                h.extra["attempts"][a]["msg"][i] = 0.into();
                s.attempt(h);
            }
        }
        shrink_definitions(&mut s);
        if s.spent() || serde_json::to_string(&s.best.0).unwrap().len() == before {
            break;
        }
    }
    eprintln!("minimised in {} evaluations", s.evals);
    s.best
}

/// Fewer processes, fewer turns, plainer surroundings.
fn shrink_turns(s: &mut Shrinker, i: usize) {
    let get = |h: &History| match h.steps.get(i) {
        Some(Step::Together(q, t)) => Some((q.clone(), t.clone())),
        _ => None,
    };
    let set = |h: &mut History, q: Vec<(Req, Env)>, t: Vec<(usize, u64)>| h.steps[i] = Step::Together(q, t);
    let Some((q, _)) = get(&s.best.0) else { return };
    for j in (0..q.len()).rev() {
        let Some((mut q, t)) = get(&s.best.0) else { return };
        q.remove(j);
        let t = t.into_iter().filter(|t| t.0 != j).map(|t| (if t.0 > j { t.0 - 1 } else { t.0 }, t.1)).collect();
        let mut h = s.best.0.clone();
        set(&mut h, q, t);
        s.attempt(h);
    }
    s.list(|h| get(h).unwrap().1, |h, t| set(h, get(h).unwrap().0, t), 0);
    // neighbouring turns of one process are one turn
    let (q, t) = get(&s.best.0).unwrap();
    let mut u: Vec<(usize, u64)> = vec![];
    for x in t {
        match u.last_mut() {
            Some(l) if l.0 == x.0 => l.1 = l.1.saturating_add(x.1),
            _ => u.push(x),
        }
    }
    let mut h = s.best.0.clone();
    set(&mut h, q.clone(), u);
    s.attempt(h);
    for j in 0..get(&s.best.0).unwrap().0.len() {
        s.list(
            |h| get(h).unwrap().0[j].1.faults.clone(),
            |h, v| {
                let (mut q, t) = get(h).unwrap();
                q[j].1.faults = v;
                set(h, q, t)
            },
            0,
        );
        let (mut q, t) = get(&s.best.0).unwrap();
        let e = &mut q[j].1;
        *e = Env { faults: e.faults.clone(), pid: e.pid, seed: e.seed, ..Env::quiet(&e.cwd) };
        let mut h = s.best.0.clone();
        set(&mut h, q, t);
        s.attempt(h);
    }
}

/// Drops parts and characters of the definitions on the disk.
fn shrink_definitions(s: &mut Shrinker) {
    if s.best.0.extra["must_refuse"] == Value::Bool(true) {
        // another definition need not be refused
        return;
    }
    let paths: Vec<String> = s.best.0.disk.keys().filter(|p| p.ends_with(".json")).cloned().collect();
    for p in paths {
        let get = |h: &History| -> Option<crate::def::Def> {
            let n = h.disk.get(&p)?;
            serde_json::from_slice::<Value>(&n.data.0).ok().and_then(|v| crate::def::Def::from_json(&v))
        };
        let set = |h: &mut History, d: &crate::def::Def| {
            let old = get(h).map_or(0, |d| d.publics());
            if let Some(n) = h.disk.get_mut(&p) {
                n.data = Bytes(d.json().to_string().into_bytes());
            }
            for st in h.steps.iter_mut() {
                if let Step::Request(q, _) = st {
                    if q.raw.is_none() && q.publics == old {
                        q.publics = d.publics();
                    }
                }
            }
        };
        let Some(d) = get(&s.best.0) else { continue };
        for i in (0..d.parts.len()).rev() {
            let Some(mut d) = get(&s.best.0) else { break };
            if d.parts.len() < 2 || i >= d.parts.len() {
                continue;
            }
            d.parts.remove(i);
            let mut h = s.best.0.clone();
            set(&mut h, &d);
            s.attempt(h);
        }
        let np = get(&s.best.0).map_or(0, |d| d.parts.len());
        for i in 0..np {
            let len = get(&s.best.0).map_or(0, |d| d.parts[i].text.chars().count());
            for size in [4usize, 1] {
                let mut c = len;
                while c >= size {
                    c -= 1;
                    let Some(mut d) = get(&s.best.0) else { break };
                    let t: Vec<char> = d.parts[i].text.chars().collect();
                    if c + size > t.len() || t.len() <= size {
                        continue;
                    }
                    d.parts[i].text = t[..c].iter().chain(&t[c + size..]).collect();
                    let mut h = s.best.0.clone();
                    set(&mut h, &d);
                    s.attempt(h);
                    if s.spent() {
                        return;
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ evidence
#[allow(clippy::too_many_arguments)]
fn evidence(cfg: &Config, prop: &str, s: &Stats, t0: Instant, violations: u64, rr: u64, dv: u64, nbroken: u64, known: &[String]) {
    let wall = t0.elapsed().as_secs_f64();
    let zk = ["C09", "C10", "C11", "C12"].contains(&prop);
    let real: Vec<&str> = if prop == "C11" {
        vec!["packages/circom/circuits/common/*.circom and regex_helpers.circom", "zk-regex command and library (recompiling the definitions)"]
    } else if zk {
        vec!["zk-regex command and library (unmodified binaries)", "the artefacts they wrote", "packages/circom/circuits/regex_helpers.circom", "zk-regex-apis extraction (C10)"]
    } else {
        vec!["zk-regex command (unmodified)", "zk-regex-compiler and zk-regex-apis libraries (unmodified)", "Rust std"]
    };
    let stub: Vec<&str> = if zk {
        vec![
            "file system, clock, randomness, scheduler (sim/shim)",
            "circom compiler and proof system (constraint interpreter over a prime field of 61 bits)",
            "circomlib (sim/circomlib)",
            "halo2 (table-lookup verifier)",
        ]
    } else {
        vec!["file system, descriptors, standard output and error, clock, randomness, process id, heap addresses, thread scheduler (sim/shim)"]
    };
    let mut samples = s.samples.clone();
    if samples.is_empty() {
        samples.push(json!("no sample"));
    }
    let marks: BTreeMap<&String, &u64> = s.marks.iter().collect();
    let v = json!({
        "property": prop,
        "tier": cfg.tier,
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.episodes,
            "distinct_nontrivial": s.distinct.len(),
            "rule": rule(prop),
            "samples": samples,
            "simulated_process_runs": s.runs,
            "episodes_per_hour": (s.episodes as f64 / wall.max(0.01) * 3600.0) as u64,
            "simulated_process_runs_per_hour": (s.runs as f64 / wall.max(0.01) * 3600.0) as u64,
            "simulated_seconds": s.sim_ns as f64 / 1e9,
            "faults_fired": s.faults,
            "scheduling_steps": s.steps,
            "thread_switches": s.switches,
            "instruction_level_preemption_steps": s.micro,
            "observed": marks,
            "repeated_for_determinism": rr,
            "not_repeated_exactly": dv,
            "episodes_not_simulated": nbroken,
            "known_findings_met": s.known,
            "known_findings_reproduced": known,
            "real": real,
            "stubbed": stub,
        },
        "assumptions": ["the simulated operating system and the reference models in /verif/sim are right", "sampling: executions that were not drawn were not checked"],
        "wall_s": (wall * 10.0).round() / 10.0,
        "violations": violations,
    });
    let dir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{prop}.json")), serde_json::to_string_pretty(&v).unwrap());
}

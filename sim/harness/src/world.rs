//! A request and the world around it: definitions that other programs replace (C16), faults that
//! do not go away (C17), processes that go on for long (C18), processes side by side (C20).
use crate::def::{self, Def};
use crate::fs::{differing, gen_env, gen_fault, gen_good, gen_request, stale, template, used, CWD};
use crate::image::CLASS_NAMES;
use crate::lab::*;
use crate::repro::{light_op, small_def};
use crate::rng::Rng;
use crate::sim::*;
use serde_json::{json, Value};

pub fn generate(prop: &str, r: &mut Rng, lab: &mut Lab) -> Res<History> {
    match prop {
        "C16" => replaced(r, lab),
        "C17" => stuck(r, lab),
        "C20" => side_by_side(r, lab),
        _ => lasting(r, lab),
    }
}
pub fn judge(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    match h.property.as_str() {
        "C16" => judge_replaced(h, lab),
        "C17" => judge_stuck(h, lab),
        "C20" => judge_side_by_side(h, lab),
        _ => judge_lasting(h, lab),
    }
}

fn file_ops(ops: &[u64]) -> u64 {
    ops.iter().zip(CLASS_NAMES).filter(|c| c.1 != "alloc").map(|c| *c.0).sum()
}

// ------------------------------------------------------------------ C16
/// The file that a request reads its definition from.
fn source(q: &Req) -> Option<String> {
    match q.via {
        Via::Struct => None,
        _ if q.raw.is_some() => q.substrs.as_ref().map(|s| absolute(CWD, s)),
        _ => Some(absolute(CWD, &q.def)),
    }
}
/// A definition that resembles another.
fn beside(r: &mut Rng, d: &Def) -> Def {
    let mut d2 = d.clone();
    let i = r.us(d2.parts.len());
    match r.below(8) {
        0 => d2.parts[i].public ^= true,
        1 => {
            let p = small_def(r).parts.remove(0);
            d2.parts.insert(i, p);
        }
        2 if d2.parts.len() > 1 => {
            d2.parts.remove(i);
        }
        3 => d2.parts.swap(i, 0),
        4 => {
            // of the same length
            let p = &mut d2.parts[i];
            if let Some(k) = p.text.find(|c: char| c.is_ascii_lowercase()) {
                let c = r.range(b'a' as u64, b'z' as u64) as u8 as char;
                p.text.replace_range(k..k + 1, &c.to_string());
            }
        }
        5 => d2.parts[i].text += "(k|l)",
        6 => d2 = small_def(r),
        _ => d2 = def::gen_def(r),
    }
    d2
}

fn transitions(r: &mut Rng) -> (String, usize) {
    let k = r.us(4);
    let t: Vec<Value> = (0..k).map(|_| {
        let n = 1 + r.us(3);
        json!((0..n).map(|_| { let j = r.us(3); [j, j + 1] }).collect::<Vec<_>>())
    }).collect();
    let v = json!({ "transitions": t });
    (if r.chance(1, 3) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() }, k)
}
fn replaced(r: &mut Rng, lab: &mut Lab) -> Res<History> {
    let mut found = None;
    for _ in 0..60 {
        let d = if r.chance(1, 3) { small_def(r) } else { def::gen_modelled(r, false, 60).0 };
        let (mut disk, mut q) = gen_request(r, &d);
        if r.chance(1, 4) {
            // a raw regex with definitions of its substrings
            if q.via == Via::Struct {
                q.via = Via::Lib;
            }
            q.config = None;
            q.raw = Some(r.pick(&["abcd", "a(b|c)+d", "[a-z]x[0-9]+y"]).to_string());
            let p = r.pick(&["/sim/w/s.json", "/sim/in/substrs.json"]).to_string();
            put_file(&mut disk, &p, transitions(r).0.as_bytes());
            q.substrs = Some(p);
            q.halo2 = None;
            q.circom = Some("o.circom".into());
            q.template = Some("T".into());
        }
        if source(&q).is_none() {
            continue;
        }
        let g = lab.golden(&disk, &q, CWD)?;
        if g.reply == Reply::Ok && !g.files.is_empty() {
            found = Some((disk, q, g, d));
            break;
        }
    }
    let Some((mut disk, mut q, g, d)) = found else { return broken("no definition that compiles") };
    let src = source(&q).unwrap();
    let total = file_ops(&g.ops);
    let mut env = gen_env(r);
    env.clock_step = 1000;
    env.max_chunk_r = 0;
    env.max_chunk_w = 0;
    let n = 1 + r.us(3);
    let mut ops: Vec<u64> = (0..n)
        .map(|_| match r.below(6) {
            0 => 1 + r.below(12),
            1 => 1 + r.below(4),
            2 => (total + 2).saturating_sub(r.below(30)).max(1),
            3 => 1 + r.below(total + 2),
            _ => {
                // where the definition has been read
                let read = g.ops[CLASS_NAMES.iter().position(|c| *c == "read").unwrap()];
                (read + r.below(8)).max(1)
            }
        })
        .collect();
    ops.sort();
    let style = r.next();
    for (i, at) in ops.iter().enumerate() {
        let next = format!("/sim/next/{i}.json");
        mkdirs(&mut disk, "/sim/next");
        let text: Vec<u8> = if q.raw.is_some() {
            let (t, k) = transitions(r);
            q.publics = q.publics.max(k);
            t.into_bytes()
        } else if r.chance(1, 12) {
            r.pick(&["", "{", "{\"parts\":[]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"(\"}]}"]).as_bytes().to_vec()
        } else {
            let d2 = beside(r, &d);
            q.publics = q.publics.max(d2.publics());
            let style = if r.chance(3, 4) { style } else { r.next() };
            d2.text(style).into_bytes()
        };
        put_file(&mut disk, &next, &text);
        if r.chance(1, 5) {
            // gone for a while
            let gap = if r.chance(1, 2) { 0 } else { r.below(6) };
            env.moves.push((at.saturating_sub(gap).max(1), src.clone(), format!("/sim/next/{i}.old")));
        }
        env.moves.push((*at, next, src.clone()));
    }
    env.moves.sort_by_key(|m| m.0);
    if r.chance(1, 4) {
        for (_, p) in q.outputs(CWD) {
            if r.chance(1, 2) {
                disk.insert(p.clone(), stale(r, None));
            }
        }
    }
    if r.chance(1, 4) {
        if let Some(f) = gen_fault(r, &g, false) {
            env.faults.push(f);
        }
    }
    if r.chance(1, 6) {
        env.max_chunk_r = 1 + r.skew(64);
    }
    Ok(History { property: "C16".into(), seed: 0, disk, steps: vec![Step::Request(q, env)], extra: Value::Null })
}

fn judge_replaced(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let Some(Step::Request(q, e)) = h.steps.first() else { return Ok(None) };
    let Some(src) = source(q) else { return Ok(None) };
    let mut disk = h.disk.clone();
    let (rep, o) = lab.request(&mut disk, q, e)?;
    // every state of the world, one after the other
    let mut world = h.disk.clone();
    let mut goldens = vec![(0, lab.golden(&world, q, &e.cwd)?)];
    let mut n = 0;
    for ((_, from, to), done) in e.moves.iter().zip(&o.moved) {
        if !done {
            continue;
        }
        if let Some(x) = world.remove(from) {
            world.insert(to.clone(), x);
        }
        if *from == src || *to == src {
            n += 1;
            goldens.push((n, lab.golden(&world, q, &e.cwd)?));
        }
    }
    lab.nontrivial = n > 0;
    let hard = o.capacity_hit || e.faults.iter().zip(&o.fired).any(|(f, n)| *n > 0 && !f.transparent());
    match &rep {
        Reply::Ok => {
            let outs = q.outputs(&e.cwd);
            let mut why = String::new();
            for (i, g) in &goldens {
                if g.reply != Reply::Ok {
                    continue;
                }
                // all of this version's outputs, and the rest as it was
                let t = outs.iter().find_map(|(role, p)| match (g.files.get(role), disk.get(p)) {
                    (Some(x), Some(y)) if *x == y.data.0 => None,
                    (None, y) if y == h.disk.get(p) => None,
                    (None, _) => Some(format!("{role} was written")),
                    (Some(x), Some(y)) => differing(&[(role.clone(), y.data.0.clone())].into(), &[(role.clone(), x.clone())].into()),
                    (Some(_), None) => Some(format!("{role} is missing")),
                });
                match t {
                    None => {
                        lab.st.mark(format!("compiled version {i}"));
                        return Ok(None);
                    }
                    Some(t) => why = format!("{why} version {i}: {t};"),
                }
            }
            Ok(breach("mixed", format!("the request was acknowledged, but its outputs are those of no version of the definition:{why}")))
        }
        Reply::Refused(m) => {
            lab.st.mark("reported failure");
            if !hard && goldens.iter().all(|g| g.1.reply == Reply::Ok) {
                return Ok(breach("spurious-failure", format!("failed although every version of the definition compiles: {}", m.trim())));
            }
            Ok(None)
        }
        Reply::Panic(m) => {
            if !hard && goldens.iter().all(|g| matches!(g.1.reply, Reply::Ok | Reply::Refused(_))) {
                return Ok(breach("panic", format!("panicked: {}", m.trim())));
            }
            Ok(None)
        }
        Reply::Hang | Reply::Deadlock => {
            if goldens.iter().any(|g| matches!(g.1.reply, Reply::Hang | Reply::Deadlock)) {
                return Ok(None);
            }
            Ok(breach("hang", "never ended"))
        }
        _ => Ok(None),
    }
}

// ------------------------------------------------------------------ C17
/// A fault that stays.
fn standing(r: &mut Rng, g: &Golden) -> Option<Fault> {
    use libc::*;
    let class = *r.pick(&["write", "write", "write", "open_write", "open_write", "read", "read", "open_read", "close", "sync", "namespace", "stat", "seek", "stdio", "stdio", "thread"]);
    let n = g.ops[CLASS_NAMES.iter().position(|c| *c == class).unwrap()];
    let nth = 1 + r.below(n.max(3));
    let many = 1 << 40;
    let e = *r.pick(&[ENOSPC, EDQUOT, EIO, EAGAIN, EACCES, EROFS, EMFILE, ENFILE, ENOMEM, EPIPE, EBADF, EFBIG, EBUSY, ETIMEDOUT, EPERM, ENOENT, EEXIST, ESTALE, ETXTBSY, EINVAL, ENODEV, ENXIO, ELOOP]);
    Some(match (class, r.below(6)) {
        ("write" | "stdio", 0) => Fault::new(class, "zero", nth, many, 0),
        ("write" | "read" | "stdio", 1) => Fault::new(class, "short", nth, many, 1 + r.skew(50) as i64),
        ("read", 2) => Fault::new(class, "zero", nth, many, 0),
        (_, 3) if class != "thread" => Fault::new(class, "errno", nth, 1 + r.below(300), EINTR as i64),
        // now and then it works, then not again
        (_, 4) => Fault::new(class, "errno", nth, 1 + r.skew(1000), e as i64),
        _ => Fault::new(class, "errno", nth, many, e as i64),
    })
}
fn stuck(r: &mut Rng, lab: &mut Lab) -> Res<History> {
    let (mut disk, mut q, g) = gen_good(r, lab)?;
    match r.below(6) {
        0 => {
            // one that is refused: its message has to go somewhere
            let t = *r.pick(&["", "{", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"(\"}]}", "{\"parts\":[]}", "\0"]);
            match q.via {
                Via::Struct => q.template = None,
                _ if q.raw.is_some() => q.raw = Some("(a".into()),
                _ => {
                    disk.insert(absolute(CWD, &q.def), Node::file(t.as_bytes()));
                }
            }
        }
        1 if q.via == Via::Cli => q.argv = Some(r.pick(&[&["--help"][..], &[], &["raw", "--help"], &["decomposed"], &["--version"], &["help", "raw"]]).iter().map(|s| s.to_string()).collect()),
        _ => {}
    }
    // what an earlier program, or an earlier attempt, may have left
    for (_, p) in q.outputs(CWD) {
        for end in [".lock", ".tmp", ".part", ".pid", "~", ".new", ".bak"] {
            if r.chance(1, 6) {
                put_file(&mut disk, &format!("{p}{end}"), b"4711\n");
            }
        }
        if r.chance(1, 3) {
            disk.insert(p, stale(r, None));
        }
    }
    if r.chance(1, 3) {
        for p in ["/sim/w/.lock", "/sim/w/zk-regex.lock", "/sim/tmp/zk-regex.lock", "/sim/out/.lock"] {
            put_file(&mut disk, p, b"");
        }
    }
    let mut steps = vec![];
    if r.chance(1, 4) {
        let mut e = gen_env(r);
        e.clock_jump = 0;
        if let Some(f) = gen_fault(r, &g, true) {
            e.faults.push(f);
        }
        steps.push(Step::Request(q.clone(), e));
    }
    for _ in 0..1 + r.us(2) {
        let mut e = gen_env(r);
        e.clock_jump = 0;
        if e.clock_step == 0 {
            e.clock_step = 1;
        }
        for _ in 0..[0, 1, 1, 1, 2, 3][r.us(6)] {
            e.faults.extend(standing(r, &g));
        }
        if r.chance(1, 5) {
            e.capacity = Some(used(&disk) + r.below(g.bytes + 50));
            e.capacity_errno = if r.chance(1, 2) { libc::ENOSPC } else { libc::EDQUOT } as u32;
        }
        steps.push(Step::Request(q.clone(), e));
    }
    Ok(History { property: "C17".into(), seed: 0, disk, steps, extra: Value::Null })
}
fn judge_stuck(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let mut disk = h.disk.clone();
    for s in &h.steps {
        let Step::Request(q, e) = s else { continue };
        let g = lab.golden(&h.disk, q, &e.cwd)?;
        if matches!(g.reply, Reply::Hang | Reply::Deadlock) {
            lab.st.mark("too large");
            return Ok(None);
        }
        let (rep, o) = lab.request(&mut disk, q, e)?;
        let fired: u64 = o.fired.iter().sum();
        lab.st.mark(match &rep {
            Reply::Ok if fired > 0 => "acknowledged despite a fault",
            Reply::Ok => "acknowledged",
            Reply::Refused(_) => "reported failure",
            _ => "ended otherwise",
        });
        match rep {
            Reply::Hang => return Ok(breach("hang", "never ended")),
            Reply::Deadlock => return Ok(breach("hang", "waits for ever")),
            _ => {}
        }
        // progress: what it does is bounded by what it does without faults and by the number of interruptions
        let n = file_ops(&o.ops);
        let moved: u64 = g.bytes + disk.values().map(|n| n.data.0.len() as u64).sum::<u64>() + 20_000;
        let interrupted: u64 = e.faults.iter().zip(&o.fired).filter(|f| f.0.transparent()).map(|f| *f.1).sum();
        let most = 10 * file_ops(&g.ops) + 2 * moved + 3 * interrupted + 500;
        if n > most {
            return Ok(breach("no-progress", format!("{n} operations on files, {} without faults", file_ops(&g.ops))));
        }
        if o.slept_ns > 60_000_000_000 {
            return Ok(breach("waits", format!("waits for {} s of simulated time", o.slept_ns / 1_000_000_000)));
        }
    }
    Ok(None)
}

// ------------------------------------------------------------------ C18
const ROUNDS: usize = 8;
/// Calls of the same size, each time with another text in their blanks.
fn varied(r: &mut Rng) -> Value {
    let key = if r.chance(1, 2) { "k@@@@=" } else { "key=" };
    let filler = r.pick(&["lorem ", "x1, ", "n\u{e9} "]).repeat(r.us(60));
    let config = json!({"parts": [{"is_public": false, "regex_def": key}, {"is_public": true, "regex_def": "[a-z]+"}, {"is_public": false, "regex_def": ";"}]});
    match r.below(5) {
        0 => json!({"op": "pad", "input": format!("@@@@{filler}"), "size": r.below(900)}),
        1 => json!({"op": r.pick(&["idxes", "substr"]), "config": config, "input": format!("{filler}k@@@@=@@@@;key=@@@@;"), "private": r.chance(1, 3)}),
        2 => json!({"op": "named", "name": r.pick(&["from_addr", "to_addr", "subject_all", "email_addr"]), "input": format!("{}:@@@@@a.co\r\n", r.pick(&["from", "to", "subject"]))}),
        3 => json!({"op": "struct", "config": config, "circom": "/sim/w/out/o.circom", "template": "T@@@@"}),
        _ => json!({"op": "raw", "raw": if r.chance(1, 3) { "(k@@@@=" } else { "k@@@@=" }, "circom": "/sim/w/out/r.circom", "halo2": "/sim/w/out", "template": "T@@@@", "gen": false}),
    }
}
fn lasting(r: &mut Rng, lab: &mut Lab) -> Res<History> {
    if r.chance(1, 5) {
        let mut disk = new_disk();
        mkdirs(&mut disk, CWD);
        mkdirs(&mut disk, "/sim/w/out");
        let ops: Vec<Value> = (0..1 + r.us(2)).map(|_| varied(r)).collect();
        let cheap = ops.iter().all(|o| !matches!(o["op"].as_str(), Some("struct" | "raw")));
        let times = if cheap { 20 + r.us(60) } else { 4 + r.us(12) };
        let mut env = gen_env(r);
        env.clock_jump = 0;
        let script = json!({"rounds": 12, "times": times, "threads": [ops]});
        return Ok(History { property: "C18".into(), seed: 0, disk, steps: vec![Step::Script(script, env)], extra: Value::Null });
    }
    let mut disk = new_disk();
    mkdirs(&mut disk, CWD);
    mkdirs(&mut disk, "/sim/w/out");
    let mut ops = vec![];
    let mut total = [0u64; crate::image::NCLASS];
    for i in 0..1 + r.us(4) {
        let op = if r.chance(1, 3) {
            light_op(r)
        } else {
            let d = if r.chance(1, 2) { small_def(r) } else { def::gen_modelled(r, false, 40).0 };
            let (from, mut q) = gen_request(r, &d);
            if q.via == Via::Cli {
                q.via = Via::Lib;
            }
            let mut text = d.text(r.next()).into_bytes();
            let g = lab.golden(&from, &q, CWD)?;
            if matches!(g.reply, Reply::Hang | Reply::Deadlock | Reply::Signal(_)) {
                continue;
            }
            for (a, b) in total.iter_mut().zip(g.ops) {
                *a += b;
            }
            for (p, n) in &from {
                if n.dir {
                    mkdirs(&mut disk, p);
                }
            }
            match r.below(8) {
                0 => {
                    let k = r.us(text.len());
                    text.truncate(k);
                }
                1 => text.clear(),
                2 => q.template = None,
                3 => q.circom = q.circom.map(|_| "/sim/nowhere/o.circom".into()),
                4 => q.halo2 = q.halo2.map(|_| "/sim/nowhere/h".into()),
                _ => {}
            }
            if q.via != Via::Struct && q.raw.is_none() {
                q.def = format!("/sim/w/def{i}.json");
                if !r.chance(1, 12) {
                    put_file(&mut disk, &q.def, &text);
                }
            }
            if let Some(s) = &q.substrs {
                let p = absolute(CWD, s);
                if let Some(n) = from.get(&p) {
                    put_file(&mut disk, &p, &n.data.0);
                }
            }
            if r.chance(1, 2) && q.template.is_some() {
                q.template = Some(template(r));
            }
            q.op()
        };
        ops.push(op);
    }
    if ops.is_empty() {
        ops.push(light_op(r));
    }
    let mut env = gen_env(r);
    env.clock_jump = 0;
    let g = Golden { reply: Reply::Ok, files: Default::default(), ops: total, steps: 0, bytes: 0 };
    for _ in 0..[0, 0, 1, 1, 2, 4][r.us(6)] {
        if let Some(mut f) = gen_fault(r, &g, false) {
            if f.class != "alloc" {
                f.count = f.count.min(400);
                env.faults.push(f);
            }
        }
    }
    let script = json!({"rounds": ROUNDS, "threads": [ops]});
    Ok(History { property: "C18".into(), seed: 0, disk, steps: vec![Step::Script(script, env)], extra: Value::Null })
}
fn judge_lasting(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let mut disk = h.disk.clone();
    for s in &h.steps {
        let Step::Script(script, e) = s else { continue };
        let o = lab.run(&mut disk, Prog::Driver, &[script.to_string()], e)?;
        match o.status {
            Status::Exit(0) => {}
            Status::Hang | Status::Deadlock => return Ok(breach("hang", "the calls never ended")),
            _ => {
                lab.st.mark("ended otherwise");
                continue;
            }
        }
        let Ok(v) = serde_json::from_slice::<Value>(&o.out) else {
            // its own output was cut by a fault
            lab.st.mark("nothing reported");
            continue;
        };
        let held: Vec<Vec<i64>> = serde_json::from_value(v["held"].clone()).unwrap_or_default();
        let good: Vec<u64> = serde_json::from_value(v["good"].clone()).unwrap_or_default();
        let calls = script["threads"][0].as_array().map_or(0, |a| a.len()) as u64 * script["times"].as_u64().unwrap_or(1);
        if held.len() < 3 || held.len() != good.len() + 1 {
            continue;
        }
        if calls > 1 || good.iter().any(|g| *g < calls) {
            lab.nontrivial = true;
        }
        lab.st.mark(if good.iter().all(|g| *g == calls) { "all calls succeed" } else if good.iter().all(|g| *g == 0) { "all calls fail" } else { "some calls fail" });
        for (i, w) in held.iter().enumerate().skip(1) {
            if w[1] > held[0][1] {
                return Ok(breach("files-open", format!("{} files are open after round {i}, {} before the first", w[1], held[0][1])));
            }
            if w[2] > held[0][2] {
                return Ok(breach("threads-left", format!("{} threads are left after round {i}, {} before the first", w[2], held[0][2])));
            }
        }
        // the first rounds may fill what is kept once
        let live: Vec<i64> = held.iter().map(|w| w[0]).collect();
        let last = &live[3.min(live.len() - 2)..];
        if last.len() >= 5 && last.windows(2).all(|w| w[1] > w[0]) {
            return Ok(breach("memory-grows", format!("the memory held after each round of the same calls grows: {live:?} bytes")));
        }
    }
    Ok(None)
}

// ------------------------------------------------------------------ C20
/// Puts another request on the same disk: its inputs and outputs under names of its own, its outputs
/// mostly in the directories that are used already.
fn join(r: &mut Rng, disk: &mut Disk, all: &[Req], i: usize, from: &Disk, mut q: Req) -> Req {
    let taken: Vec<String> = all.iter().flat_map(|a| a.outputs(CWD).into_values()).collect();
    for p in [&mut q.def] {
        if !p.is_empty() {
            let n = from.get(&absolute(CWD, p)).cloned();
            let to = r.pick(&["/sim/w", "/sim/in", "/sim/w/defs"]).to_string();
            *p = format!("{to}/in{i}.json");
            if let Some(n) = n {
                put_file(disk, p, &n.data.0);
            }
        }
    }
    if let Some(p) = &mut q.substrs {
        let n = from.get(&absolute(CWD, p)).cloned();
        *p = format!("/sim/w/s{i}.json");
        if let Some(n) = n {
            put_file(disk, p, &n.data.0);
        }
    }
    if let Some(c) = &mut q.circom {
        let mut dirs: Vec<String> = taken.iter().filter_map(|p| p.rsplit_once('/').map(|x| x.0.to_string())).collect();
        dirs.push("/sim/w/out".into());
        let d = r.pick(&dirs).clone();
        mkdirs(disk, &d);
        *c = format!("{d}/{}{i}{}", r.pick(&["o", "c", "regex"]), r.pick(&[".circom", "", ".circom.tmp"]));
    }
    if q.halo2.is_some() {
        let d = if r.chance(1, 2) { format!("/sim/w/h{i}") } else { format!("/sim/w/out/h{i}") };
        mkdirs(disk, &d);
        q.halo2 = Some(d);
    }
    q
}
fn turns(r: &mut Rng, lens: &[u64]) -> Vec<(usize, u64)> {
    let n = lens.len();
    let all = 1u64 << 40;
    let mut t = vec![];
    match r.below(6) {
        // all stop close to the end, where the files are, and go on in small steps
        0 | 1 => {
            for (i, l) in lens.iter().enumerate() {
                t.push((i, l.saturating_sub(r.below(14)).max(1)));
            }
            for _ in 0..r.us(50) {
                t.push((r.us(n), 1 + r.below(3)));
            }
        }
        // one stops somewhere, the others go through
        2 => {
            let i = r.us(n);
            t.push((i, if r.chance(1, 2) { 1 + r.below(lens[i].max(1)) } else { lens[i].saturating_sub(r.below(14)).max(1) }));
            for j in 0..n {
                if j != i {
                    t.push((j, all));
                }
            }
        }
        // each stops somewhere, and they end in another order
        3 => {
            for (i, l) in lens.iter().enumerate() {
                t.push((i, l.saturating_sub(r.below(14)).max(1)));
            }
            let k = r.us(n);
            for j in 0..n {
                t.push((n - 1 - (j + k) % n, all));
            }
        }
        // in step
        4 => {
            let from = r.below(12);
            for (i, l) in lens.iter().enumerate() {
                t.push((i, l.saturating_sub(from + r.below(3)).max(1)));
            }
            let size = 1 + r.below(2);
            for _ in 0..20 {
                for j in 0..n {
                    t.push((j, size));
                }
            }
        }
        // anything
        _ => {
            for _ in 0..3 + r.us(40) {
                let i = r.us(n);
                t.push((i, 1 + r.skew(lens[i].max(2))));
            }
        }
    }
    t
}
fn side_by_side(r: &mut Rng, lab: &mut Lab) -> Res<History> {
    let (mut disk, q, g) = gen_good(r, lab)?;
    let mut qs = vec![q.clone()];
    let kind = r.below(4);
    for i in 1..2 + r.us(3) {
        let mut p = q.clone();
        match if kind == 3 { r.below(3) } else { kind } {
            // the same once more
            0 => p.style = r.below(64) as u32,
            // the same definition, other outputs
            1 => {
                let from = disk.clone();
                p = join(r, &mut disk, &qs, i, &from, p);
                if p.template.is_some() {
                    p.template = Some(template(r));
                }
            }
            // another definition
            _ => {
                let (from, p2, _) = gen_good(r, lab)?;
                p = join(r, &mut disk, &qs, i, &from, p2);
            }
        }
        // one that is refused
        if r.chance(1, 6) {
            match r.below(4) {
                0 => p.template = None,
                1 if p.via != Via::Struct && p.raw.is_none() => {
                    p.def = format!("/sim/w/bad{i}.json");
                    if r.chance(1, 2) {
                        put_file(&mut disk, &p.def, r.pick(&["", "{", "{\"parts\":[]}", "{\"parts\":[{\"is_public\":true,\"regex_def\":\"(\"}]}"]).as_bytes());
                    }
                }
                2 => p.circom = p.circom.map(|_| "/sim/nowhere/o.circom".into()),
                _ => p.halo2 = p.halo2.map(|_| "/sim/nowhere/h".into()),
            }
        }
        qs.push(p);
    }
    if r.chance(1, 3) {
        for q in &qs {
            for p in q.outputs(CWD).into_values() {
                if r.chance(1, 2) && disk.contains_key(p.rsplit_once('/').map_or("", |x| x.0)) {
                    disk.insert(p, stale(r, g.files.values().next()));
                }
            }
        }
    }
    // a directory that is not there: nobody is served, or whoever makes it serves all
    if r.chance(1, 12) {
        let dirs: Vec<String> = qs.iter().flat_map(|q| q.outputs(CWD).into_values()).filter_map(|p| p.rsplit_once('/').map(|x| x.0.to_string())).collect();
        if let Some(d) = dirs.first().filter(|d| *d != CWD).cloned() {
            let inside = format!("{d}/");
            disk.retain(|p, _| *p != d && !p.starts_with(&inside));
        }
    }
    let steps = (0..1 + r.us(3)).map(|_| at_once(r, lab, &disk, &qs)).collect::<Res<Vec<Step>>>()?;
    Ok(History { property: "C20".into(), seed: 0, disk, steps, extra: Value::Null })
}
/// Their surroundings, faults and turns.
fn at_once(r: &mut Rng, lab: &mut Lab, disk: &Disk, qs: &[Req]) -> Res<Step> {
    let mut lens = vec![];
    let mut v = vec![];
    let mut calm = gen_env(r);
    calm.clock_jump = 0;
    let one_clock = r.chance(1, 2);
    let faulty = r.chance(1, 2);
    for (i, q) in qs.iter().enumerate() {
        let g = lab.golden(disk, q, CWD)?;
        let mut e = if r.chance(1, 2) { calm.clone() } else { gen_env(r) };
        e.clock_jump = 0;
        e.seed = r.next();
        e.pid = calm.pid + 1 + i as u32 * if r.chance(1, 2) { 1 } else { 1000 };
        if one_clock {
            e.clock0 = calm.clock0;
            e.clock_step = calm.clock_step;
        }
        if !r.chance(1, 6) {
            (e.max_chunk_r, e.max_chunk_w) = (0, 0);
        }
        if faulty && r.chance(1, 2) {
            for _ in 0..1 + r.us(2) {
                let crash = r.chance(1, 2);
                e.faults.extend(gen_fault(r, &g, crash));
            }
            if r.chance(1, 10) {
                e.capacity = Some(used(disk) + r.below(g.bytes + 50));
                e.capacity_errno = libc::ENOSPC as u32;
            }
        }
        lens.push(file_ops(&g.ops));
        v.push((q.clone(), e));
    }
    let t = turns(r, &lens);
    Ok(Step::Together(v, t))
}
fn judge_side_by_side(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let mut disk = h.disk.clone();
    for s in &h.steps {
        let Step::Together(qs, schedule) = s else { continue };
        let before = disk.clone();
        let mut goldens = vec![];
        for (q, e) in qs {
            let g = lab.golden(&before, q, &e.cwd)?;
            if matches!(g.reply, Reply::Hang | Reply::Deadlock | Reply::Signal(_)) {
                lab.st.mark("too large");
                return Ok(None);
            }
            goldens.push(g);
        }
        let switches = lab.st.switches;
        let ends = lab.together(&mut disk, qs, schedule)?;
        lab.nontrivial = lab.st.switches - switches >= qs.len() as u64;
        let mut hurt = vec![];
        for (((q, e), (rep, o)), g) in qs.iter().zip(&ends).zip(&goldens) {
            let bad = o.capacity_hit || e.faults.iter().zip(&o.fired).any(|(f, n)| *n > 0 && !f.transparent());
            hurt.push(bad);
            lab.st.mark(match rep {
                Reply::Crashed => "killed part-way",
                Reply::Ok if bad => "acknowledged despite a fault",
                Reply::Ok => "acknowledged",
                Reply::Refused(_) => "reported failure",
                _ => "ended otherwise",
            });
            if matches!(rep, Reply::Hang | Reply::Deadlock) {
                return Ok(breach("hang", format!("{:?} of several requests at the same time never ended", q.via)));
            }
            if bad {
                continue;
            }
            match (rep, &g.reply) {
                (Reply::Ok, Reply::Ok) | (Reply::Refused(_), Reply::Refused(_)) | (Reply::Panic(_), Reply::Panic(_)) => {}
                (x, y) => return Ok(breach("disturbed", format!("a request beside others ended with {x:?}, alone with {y:?}"))),
            }
        }
        // what the disk holds at the end
        let mut claims: std::collections::BTreeMap<String, Vec<Option<&Vec<u8>>>> = Default::default();
        for (((q, e), g), bad) in qs.iter().zip(&goldens).zip(&hurt) {
            for (role, p) in q.outputs(&e.cwd) {
                let c = claims.entry(p).or_default();
                match (g.files.get(&role), g.reply == Reply::Ok && !bad) {
                    (Some(f), true) => c.push(Some(f)),
                    // who knows
                    (Some(_), false) => c.push(None),
                    (None, _) => {}
                }
            }
        }
        for (p, c) in &claims {
            let have = disk.get(p);
            let Some(first) = c.first() else {
                if have != before.get(p) {
                    return Ok(breach("mixed", format!("{p} was written, but by none of the requests alone")));
                }
                continue;
            };
            if c.iter().any(|x| x.is_none() || x != first) {
                continue;
            }
            lab.st.mark(if c.len() > 1 { "outputs written by several requests" } else { "outputs of one request" });
            let want: std::collections::BTreeMap<String, Vec<u8>> = [(p.clone(), first.unwrap().clone())].into();
            let have = have.map(|n| [(p.clone(), n.data.0.clone())].into()).unwrap_or_default();
            if let Some(t) = differing(&have, &want) {
                return Ok(breach("mixed", format!("after all requests have ended, {t}")));
            }
        }
        for p in diff(&before, &disk) {
            // directories for the outputs are not what this is about
            let above = format!("{p}/");
            if disk.get(&p).is_some_and(|n| n.dir) && claims.keys().any(|c| c.starts_with(&above)) {
                continue;
            }
            if !claims.contains_key(&p) && (before.contains_key(&p) || !hurt.contains(&true)) {
                return Ok(breach("leftover", format!("{p} was created or changed and is no artefact of the requests")));
            }
        }
        // whoever was killed or failed is repaired by asking again
        if hurt.contains(&true) {
            for ((q, e), g) in qs.iter().zip(&goldens) {
                if g.reply != Reply::Ok {
                    continue;
                }
                let (rep, _) = lab.request(&mut disk, q, &Env::quiet(&e.cwd))?;
                if rep != Reply::Ok {
                    return Ok(breach("not-repaired", format!("after requests at the same time, of which some were killed or failed, one alone does not succeed: {rep:?}")));
                }
                let have = q.outputs(&e.cwd).into_iter().filter_map(|(role, p)| disk.get(&p).map(|n| (role, n.data.0.clone()))).collect();
                if let Some(t) = differing(&have, &g.files) {
                    return Ok(breach("not-repaired", format!("after requests at the same time, of which some were killed or failed, one alone succeeds, but {t}")));
                }
            }
        }
    }
    Ok(None)
}

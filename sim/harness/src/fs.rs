//! Compile requests on a simulated disk: C01 to C04.
use crate::def::{self, Def};
use crate::image::CLASS_NAMES;
use crate::lab::*;
use crate::re::Model;
use crate::rng::Rng;
use crate::sim::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const CWD: &str = "/sim/w";

fn spell(r: &mut Rng, abs: &str) -> String {
    if r.chance(1, 3) {
        return abs.to_string();
    }
    match abs.strip_prefix("/sim/w/") {
        Some(x) if r.chance(1, 4) => format!("./{x}"),
        Some(x) => x.to_string(),
        None if r.chance(1, 2) => format!("..{}", &abs[4..]),
        None => abs.to_string(),
    }
}
pub fn template(r: &mut Rng) -> String {
    r.pick(&["T", "MyRegex", "FromAllRegex", "A_1", "Template0", "x"]).to_string()
}

/// A disk with a definition, neighbours and older outputs, and a request for it.
pub fn gen_request(r: &mut Rng, d: &Def) -> (Disk, Req) {
    let mut disk = new_disk();
    mkdirs(&mut disk, CWD);
    let def_path = r.pick(&["/sim/w/d.json", "/sim/w/defs/regex.json", "/sim/in/a.json"]).to_string();
    put_file(&mut disk, &def_path, d.text(r.next()).as_bytes());
    let via = *r.pick(&[Via::Cli, Via::Cli, Via::Lib, Via::Lib, Via::Struct]);
    let mut q = Req::blank(via);
    q.style = r.below(64) as u32;
    q.publics = d.publics();
    let circom_path = r.pick(&["/sim/w/o.circom", "/sim/w/out/regex.circom", "/sim/out/c"]).to_string();
    let halo_dir = r.pick(&["/sim/w/h", "/sim/w", "/sim/w/out", "/sim/out/tables"]).to_string();
    let (mut c, mut h) = match r.below(4) {
        0 => (true, false),
        1 => (false, true),
        _ => (true, true),
    };
    let raw = via != Via::Struct && r.chance(1, 6);
    if via == Via::Struct {
        q.config = Some(d.json());
        (c, h) = (true, false);
    } else if raw {
        q.raw = Some(d.parts.iter().map(|p| p.text.as_str()).collect::<String>());
        q.publics = 0;
        if c && !h && r.chance(1, 2) {
            let n = 1 + r.us(2);
            let t: Vec<Value> = (0..n).map(|k| json!([[k, k + 1]])).collect();
            let p = r.pick(&["/sim/w/s.json", "/sim/in/substrs.json"]).to_string();
            put_file(&mut disk, &p, json!({ "transitions": t }).to_string().as_bytes());
            q.substrs = Some(spell(r, &p));
            q.publics = n;
        }
    } else {
        q.def = spell(r, &def_path);
    }
    if r.chance(1, 40) {
        (c, h) = (false, false);
    }
    if c {
        q.circom = Some(spell(r, &circom_path));
        if let Some(i) = circom_path.rfind('/') {
            mkdirs(&mut disk, &circom_path[..i]);
        }
    }
    if c || r.chance(1, 4) {
        q.template = Some(template(r));
    }
    if h {
        let mut s = spell(r, &halo_dir);
        if r.chance(1, 4) {
            s.push('/');
        }
        q.halo2 = Some(s);
        mkdirs(&mut disk, &halo_dir);
    }
    q.gen = *r.pick(&[Some(true), Some(true), Some(false), None]);
    // neighbours
    if h && r.chance(1, 2) {
        let p = format!("{halo_dir}/substr_{}.txt", if r.chance(1, 2) { q.publics } else { r.us(12) });
        if !q.outputs(CWD).values().any(|o| *o == p) || q.gen == Some(false) {
            put_file(&mut disk, &p, b"1 \n2 \n1 2\n");
        }
    }
    for p in ["/sim/w/notes.txt", "/sim/w/out/other.circom", "/sim/w/h/substr_9.txt", "/sim/w/o.circom~", "/sim/out/tables/allstr.txt.bak", "/sim/home/.profile", "/sim/tmp/x"] {
        if r.chance(1, 3) && !disk.contains_key(p) {
            put_file(&mut disk, p, b"do not touch\n");
        }
    }
    (disk, q)
}

pub fn stale(r: &mut Rng, golden: Option<&Vec<u8>>) -> Node {
    let g: &[u8] = golden.map_or(b"x", |v| v.as_slice());
    let v = match r.below(6) {
        0 => vec![],
        1 => g[..r.us(g.len() + 1)].to_vec(),
        2 => {
            let mut v = g.to_vec();
            v.extend_from_slice(b"\nleftover of something longer\n0 0 0\n");
            v
        }
        3 => {
            let mut v = g.to_vec();
            for _ in 0..1 + r.us(4) {
                if !v.is_empty() {
                    let i = r.us(v.len());
                    v[i] ^= 1 << r.below(8);
                }
            }
            v
        }
        4 => {
            let n = r.skew(20000) as usize;
            (0..n).map(|_| r.next() as u8).collect()
        }
        _ => b"template Old(msg_bytes) {\n}\n".to_vec(),
    };
    Node::file(&v)
}

pub fn gen_env(r: &mut Rng) -> Env {
    let mut e = Env::quiet(CWD);
    e.seed = r.next();
    if r.chance(1, 2) {
        e.layout_salt = r.next();
    }
    if r.chance(1, 4) {
        e.ambient = r.next();
    }
    e.pid = r.range(2, 4_000_000) as u32;
    e.clock0 = r.range(1, 4_000_000_000_000_000_000);
    e.clock_step = r.below(10_000_000);
    if r.chance(1, 10) {
        e.clock_jump = r.next() as i64 >> 20;
        e.clock_jump_at = r.below(20);
    }
    for (k, vs) in [
        ("HOME", vec!["/root", "/nonexistent", ""]),
        ("TMPDIR", vec!["/sim/tmp", "/tmp"]),
        ("LANG", vec!["C", "tr_TR.UTF-8", "de_DE"]),
        ("RUST_BACKTRACE", vec!["1", "full", "0"]),
        ("TERM", vec!["dumb", "xterm-256color"]),
        ("COLUMNS", vec!["1", "200"]),
    ] {
        if r.chance(1, 4) {
            e.vars.push((k.into(), r.pick(&vs).to_string()));
        }
    }
    if r.chance(1, 6) {
        e.max_chunk_r = 1 + r.skew(64);
    }
    if r.chance(1, 6) {
        e.max_chunk_w = 1 + r.skew(2000);
    }
    e
}

fn class_of(name: &str) -> usize {
    CLASS_NAMES.iter().position(|n| *n == name).unwrap()
}
/// One fault that lands inside the operations of a request.
pub fn gen_fault(r: &mut Rng, g: &Golden, crash: bool) -> Option<Fault> {
    let class = match r.below(20) {
        0..=7 => "write",
        8..=11 => "open_write",
        12 | 13 => "read",
        14 | 15 => "open_read",
        16 => "close",
        17 => *r.pick(&["sync", "namespace", "stat", "seek"]),
        18 if r.chance(1, 2) => "alloc",
        _ => "write",
    };
    let n = g.ops[class_of(class)];
    if n == 0 {
        return None;
    }
    let nth = if r.chance(1, 12) { n + r.below(4) } else { 1 + r.below(n) };
    if crash && class != "alloc" && r.chance(2, 3) {
        let kind = if class == "write" && r.chance(2, 3) { "crash_inside" } else { *r.pick(&["crash_before", "crash_after"]) };
        let arg = if kind == "crash_inside" { r.skew(20000) as i64 } else { 0 };
        return Some(Fault::new(class, kind, nth, 1, arg));
    }
    if crash && class == "alloc" {
        return Some(Fault::new(class, *r.pick(&["crash_before", "crash_after"]), nth, 1, 0));
    }
    let count = match r.below(6) {
        0 => 2 + r.below(4),
        1 => 1 + r.skew(200),
        2 if r.chance(1, 2) => 1_000_000,
        _ => 1,
    };
    let e = |v: &[i32], r: &mut Rng| *r.pick(v) as i64;
    use libc::*;
    Some(match class {
        "open_read" => Fault::new(class, "errno", nth, count.min(500), e(&[EINTR, EINTR, EMFILE, ENFILE, EACCES, EIO, ENOMEM], r)),
        "open_write" => Fault::new(class, "errno", nth, count.min(500), e(&[EINTR, ENOSPC, EMFILE, ENFILE, EACCES, EROFS, EDQUOT, EIO], r)),
        "read" => match r.below(4) {
            0 => Fault::new(class, "short", nth, count, 1 + r.skew(100) as i64),
            1 => Fault::new(class, "zero", nth, count, 0),
            2 => Fault::new(class, "errno", nth, count.min(300), EINTR as i64),
            _ => Fault::new(class, "errno", nth, count.min(300), e(&[EIO, ENOMEM, EAGAIN], r)),
        },
        "write" => match r.below(8) {
            0 | 1 => Fault::new(class, "short", nth, count, 1 + r.skew(5000) as i64),
            2 => Fault::new(class, "zero", nth, count.min(100), 0),
            3 => Fault::new(class, "errno", nth, count.min(300), EINTR as i64),
            _ => Fault::new(class, "errno", nth, count.min(300), e(&[ENOSPC, EDQUOT, EIO, EFBIG, EAGAIN], r)),
        },
        "close" => Fault::new(class, "errno", nth, 1, e(&[EINTR, EIO], r)),
        "alloc" => Fault::new(class, "errno", nth, 1, ENOMEM as i64),
        _ => Fault::new(class, "errno", nth, count.min(50), e(&[EIO, ENOSPC, EINTR], r)),
    })
}
pub fn add_faults(r: &mut Rng, e: &mut Env, g: &Golden, crash: bool) {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => 2,
        _ => 3 + r.us(4),
    };
    for _ in 0..n {
        if let Some(f) = gen_fault(r, g, crash) {
            e.faults.push(f);
        }
    }
    if r.chance(1, 6) && g.bytes > 0 {
        // the space left when the request starts; the definition is on the disk already
        e.capacity = Some(r.below(g.bytes + 200));
        e.capacity_errno = if r.chance(1, 2) { libc::ENOSPC } else { libc::EDQUOT } as u32;
    }
}
pub fn used(d: &Disk) -> u64 {
    d.values().map(|n| n.data.0.len() as u64).sum()
}

fn modelled(r: &mut Rng) -> Def {
    if r.chance(1, 4) {
        def::gen_def(r)
    } else {
        def::gen_modelled(r, false, 80).0
    }
}

/// A request that compiles when nothing goes wrong (mostly).
pub fn gen_good(r: &mut Rng, lab: &mut Lab) -> Res<(Disk, Req, Golden)> {
    for _ in 0..40 {
        let d = if r.chance(1, 25) {
            shipped(r)
        } else if r.chance(1, 80) {
            // tables that do not fit a buffer
            let w = format!("[0-9]{{{}}}", r.range(900, 1300));
            let long = format!("a{{{}}}", r.range(1000, 1600));
            match r.below(6) {
                3 => Def::of(&[(true, &long), (false, "x")]),
                4 | 5 => Def::of(&[(true, &long), (true, "b{1100}")]),
                0 => Def::of(&[(true, &w)]),
                1 => Def::of(&[(true, &w), (true, "[a-c]+")]),
                _ => Def::of(&[(false, "x"), (true, &w), (r.chance(1, 2), "yz")]),
            }
        } else {
            modelled(r)
        };
        let (disk, q) = gen_request(r, &d);
        let g = lab.golden(&disk, &q, CWD)?;
        if g.reply == Reply::Ok || r.chance(1, 20) {
            return Ok((disk, q, g));
        }
    }
    let d = Def::of(&[(true, "a+"), (false, "b")]);
    let (disk, q) = gen_request(r, &d);
    let g = lab.golden(&disk, &q, CWD)?;
    Ok((disk, q, g))
}
/// A definition of the common folder.
pub fn shipped(r: &mut Rng) -> Def {
    let dir = format!("{}/packages/circom/circuits/common", crate::repo());
    let mut v: Vec<_> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect())
        .unwrap_or_default();
    v.sort();
    if v.is_empty() {
        return Def::of(&[(true, "a")]);
    }
    let p = r.pick(&v);
    std::fs::read_to_string(p)
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .and_then(|v: Value| Def::from_json(&v))
        .unwrap_or_else(|| Def::of(&[(true, "a")]))
}

pub fn damage_outputs(r: &mut Rng, disk: &mut Disk, q: &Req, g: &Golden) -> Vec<(String, Option<Node>)> {
    let mut v = vec![];
    for (role, p) in q.outputs(CWD) {
        if r.chance(1, 2) {
            let n = if r.chance(1, 6) { None } else { Some(stale(r, g.files.get(&role))) };
            match &n {
                Some(n) => {
                    disk.insert(p.clone(), n.clone());
                }
                None => {
                    disk.remove(&p);
                }
            }
            v.push((p, n));
        }
    }
    v
}

pub fn generate(prop: &str, r: &mut Rng, lab: &mut Lab) -> Res<History> {
    if prop == "C03" {
        return generate_bad(r);
    }
    let (mut disk, q, g) = gen_good(r, lab)?;
    let mut steps = vec![];
    if r.chance(2, 3) {
        damage_outputs(r, &mut disk, &q, &g);
    }
    if prop == "C04" && r.chance(1, 8) {
        // a request that cannot succeed must leave the rest alone as well
        let p = absolute(CWD, if q.raw.is_none() { &q.def } else { q.substrs.as_deref().unwrap_or("none") });
        if let Some(n) = disk.get_mut(&p) {
            let k = r.us(n.data.0.len() + 1);
            n.data.0.truncate(k);
        }
    }
    if prop == "C04" && r.chance(1, 8) {
        // no directory for an output, or something else in its place
        let homes: Vec<String> = q.outputs(CWD).values().filter_map(|p| Some(p[..p.rfind('/')?].to_string())).filter(|p| p != CWD).collect();
        if !homes.is_empty() {
            let p = r.pick(&homes).clone();
            let inside = format!("{p}/");
            if disk.iter().all(|(k, n)| !k.starts_with(&inside) || !n.dir) {
                disk.retain(|k, _| !k.starts_with(&inside));
                disk.remove(&p);
                if r.chance(1, 3) {
                    disk.insert(p, Node::file(b"a file\n"));
                }
            }
        }
    }
    let runs = match prop {
        "C02" => 1 + r.us(4),
        _ => 1 + r.us(2),
    };
    for _ in 0..runs {
        let mut e = gen_env(r);
        let mut f = r.fork();
        add_faults(&mut f, &mut e, &g, prop == "C02");
        if let Some(c) = e.capacity {
            e.capacity = Some(c + used(&disk).saturating_sub(q.outputs(CWD).values().filter_map(|p| disk.get(p)).map(|n| n.data.0.len() as u64).sum::<u64>()));
        }
        let mut q2 = q.clone();
        if q.via != Via::Struct && r.chance(1, 4) {
            q2.style = r.below(64) as u32;
            q2.via = if r.chance(1, 2) { Via::Cli } else { Via::Lib };
        }
        steps.push(Step::Request(q2, e));
        if prop == "C02" && r.chance(1, 3) {
            for (p, n) in damage_outputs(r, &mut disk, &q, &g) {
                steps.push(Step::Damage(p, n));
            }
        }
    }
    if prop == "C02" {
        let mut e = gen_env(r);
        e.max_chunk_r = 0;
        e.max_chunk_w = 0;
        steps.push(Step::Request(q, e));
    }
    Ok(History { property: prop.into(), seed: 0, disk, steps, extra: Value::Null })
}

// ------------------------------------------------------------------ C03
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct StrictPart {
    is_public: bool,
    regex_def: String,
}
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct Strict {
    parts: Vec<StrictPart>,
}
#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct StrictSubstrs {
    transitions: Vec<Vec<(usize, usize)>>,
}
/// Is this text certainly not a definition?
fn not_a_definition(t: &[u8]) -> bool {
    match serde_json::from_slice::<Strict>(t) {
        Err(_) => true,
        Ok(s) => s.parts.is_empty(),
    }
}
fn not_substrs(t: &[u8]) -> bool {
    serde_json::from_slice::<StrictSubstrs>(t).is_err()
}
/// Damaged repetition counts may ask for automata of any size: not a subject here.
fn explosive(t: &[u8]) -> bool {
    let mut run = 0;
    for (i, b) in t.iter().enumerate() {
        if b.is_ascii_digit() {
            run += 1;
            if run >= 3 && t[..i].contains(&b'{') {
                return true;
            }
        } else {
            run = 0;
        }
    }
    false
}

const BAD_REGEX: [&str; 26] = [
    "(", ")", "a(b", "a)b", "[", "[a", "[]", "[^", "[z-a]", "a{2,1}", "a{", "a{,", "*a", "+", "?", "a|*", "\\", "a\\", "(?<", "(?=a)b", "(?!a)", "(a)\\1",
    "(?P<x", "\\xZZ", "\\p{Nonsense}", "(?zz)a",
];
const BAD_JSON: [&str; 24] = [
    "",
    " ",
    "\n\n",
    "null",
    "[]",
    "{}",
    "42",
    "\"parts\"",
    "{\"parts\":{}}",
    "{\"parts\":[]}",
    "{\"parts\":null}",
    "{\"parts\":[{}]}",
    "{\"parts\":[{\"is_public\":true}]}",
    "{\"parts\":[{\"regex_def\":\"a\"}]}",
    "{\"parts\":[{\"is_public\":\"true\",\"regex_def\":\"a\"}]}",
    "{\"parts\":[{\"is_public\":1,\"regex_def\":\"a\"}]}",
    "{\"parts\":[{\"is_public\":true,\"regex_def\":7}]}",
    "{\"parts\":[{\"is_public\":true,\"regex_def\":null}]}",
    "{\"parts\":[{\"is_public\":true,\"regex_def\":\"a\"},]}",
    "{\"parts\":[{\"is_public\":true,\"regex_def\":\"a\"}]",
    "{\"parts\":[{\"is_public\":true,\"regex_def\":\"a\"}]} x",
    "{'parts':[{'is_public':true,'regex_def':'a'}]}",
    "{\"parts\":[{\"is_public\":true,\"regex_def\":\"\\ud800\"}]}",
    "{\"parts\":[null]}",
];

fn generate_bad(r: &mut Rng) -> Res<History> {
    let d = modelled(r);
    let (mut disk, mut q) = gen_request(r, &d);
    let must: bool;
    let what: &str;
    let mut env = gen_env(r);
    if q.circom.is_none() && q.halo2.is_none() {
        q.circom = Some("o.circom".into());
        q.template = Some("T".into());
    }
    let def_file = |q: &Req| absolute(CWD, &q.def);
    let kind = r.below(15);
    // most kinds need a definition file
    if kind <= 6 && (q.raw.is_some() || q.via == Via::Struct) {
        q.raw = None;
        q.config = None;
        q.substrs = None;
        q.publics = d.publics();
        if q.via == Via::Struct {
            q.via = Via::Lib;
        }
        let p = disk.keys().find(|p| p.ends_with(".json")).cloned().unwrap();
        disk.insert(p.clone(), Node::file(d.text(r.next()).as_bytes()));
        q.def = p;
    }
    match kind {
        0 => {
            must = true;
            match r.below(3) {
                0 => {
                    what = "missing definition";
                    disk.remove(&def_file(&q));
                }
                1 => {
                    what = "directory as definition";
                    disk.insert(def_file(&q), Node::dir());
                }
                _ => {
                    what = "unreadable definition";
                    disk.get_mut(&def_file(&q)).unwrap().noread = true;
                }
            }
        }
        1 | 2 => {
            what = "truncated definition";
            let n = disk.get_mut(&def_file(&q)).unwrap();
            let k = r.us(n.data.0.len());
            n.data.0.truncate(k);
            must = not_a_definition(&n.data.0);
        }
        3 | 4 => {
            what = "corrupted definition";
            let n = disk.get_mut(&def_file(&q)).unwrap();
            for _ in 0..1 + r.us(4) {
                let v = &mut n.data.0;
                if v.is_empty() {
                    break;
                }
                let i = r.us(v.len());
                match r.below(6) {
                    0 => v[i] ^= 1 << r.below(8),
                    1 => v[i] = r.next() as u8,
                    2 => {
                        v.remove(i);
                    }
                    3 => v.insert(i, *r.pick(b"{}[]\",:\\0(|)*+?^$a\x00\xff")),
                    4 => {
                        let a = r.us(v.len());
                        let (a, b) = (a.min(i), a.max(i));
                        v[a..b].fill(0);
                    }
                    _ => {
                        let a = r.us(v.len());
                        let t = v[a.min(i)..a.max(i)].to_vec();
                        v.extend(t);
                    }
                }
            }
            must = not_a_definition(&n.data.0);
            if explosive(&n.data.0) {
                n.data.0 = b"{".to_vec();
                return generate_bad(r);
            }
        }
        5 => {
            what = "not a definition";
            must = true;
            let t: Vec<u8> = match r.below(10) {
                0 => vec![0xef, 0xbb, 0xbf, b'{', b'}'],
                1 => vec![0; r.us(100)],
                2 => (0..r.us(300)).map(|_| r.next() as u8).collect(),
                3 => "[".repeat(1 + r.us(5000)).into_bytes(),
                4 => format!("{{\"parts\":{}", "[{\"parts\":".repeat(1 + r.us(2000))).into_bytes(),
                _ => r.pick(&BAD_JSON).as_bytes().to_vec(),
            };
            if !not_a_definition(&t) {
                return generate_bad(r);
            }
            disk.insert(def_file(&q), Node::file(&t));
        }
        6 => {
            what = "$ before the last part";
            must = true;
            let mut d2 = d.clone();
            let i = r.us(d2.parts.len());
            d2.parts[i].text = "ab$".into();
            d2.parts.insert(i + 1, crate::re::Part { public: r.chance(1, 2), text: "c".into() });
            q.publics = d2.publics();
            disk.insert(def_file(&q), Node::file(d2.text(r.next()).as_bytes()));
        }
        7 | 8 => {
            what = "invalid regex";
            must = true;
            let mut d2 = d.clone();
            let i = r.us(d2.parts.len());
            let b = *r.pick(&BAD_REGEX);
            if q.raw.is_some() {
                q.raw = Some(b.to_string());
                if b == ")" || b == "a)b" {
                    q.raw = Some("(".into());
                }
            } else {
                d2.parts[i].text = b.to_string();
                if regexish(&d2.parts) {
                    return generate_bad(r);
                }
                if q.via == Via::Struct {
                    q.config = Some(d2.json());
                } else {
                    disk.insert(def_file(&q), Node::file(d2.text(r.next()).as_bytes()));
                }
            }
        }
        13 => {
            what = "anchor out of place";
            must = true;
            let mut w = || *r.pick(&["a", "b", "ab", "[a-z]", "x+", "(c|d)", "=", "(?:e|fg)"]);
            let (a, b, c) = (w(), w(), w());
            // where an automaton for a part of the message would not see what they mean
            let whole = match r.below(16) {
                0 => format!("({a}|{b}$)"),
                1 => format!("({a}|{b}$){c}"),
                2 => format!("{a}|{b}$"),
                3 => format!("{a}$|{b}$"),
                4 => format!("({a}|^{b}){c}"),
                5 => format!("({a}^|{b}){c}"),
                6 => format!("{a}|^{b}"),
                7 => format!("^{a}|{b}"),
                8 => format!("\\A{a}{b}"),
                9 => format!("{a}{b}\\z"),
                10 => format!("(?m:^){a}"),
                11 => format!("(?m:^|{a}){b}"),
                12 => format!("{a}({b}|$)"),
                13 => format!("{a}({b}|^){c}"),
                14 => format!("({a}|{b})(^|{b}){c}"),
                _ => format!("{a}(?:{b}$|{c})"),
            };
            if q.raw.is_some() {
                q.raw = Some(whole);
            } else {
                let mut d2 = d.clone();
                let publics = r.chance(1, 2);
                d2.parts = vec![crate::re::Part { public: publics, text: whole }];
                if r.chance(1, 2) {
                    // a caret of a later part
                    let t = match r.below(4) {
                        0 => format!("^{b}"),
                        1 => format!("({b}|^){c}"),
                        2 => format!("(^|{c}){a}"),
                        _ => format!("{c}|^{b}"),
                    };
                    d2.parts = vec![crate::re::Part { public: publics, text: a.into() }, crate::re::Part { public: !publics, text: t }];
                }
                q.publics = d2.publics();
                if q.via == Via::Struct {
                    q.config = Some(d2.json());
                } else {
                    disk.insert(def_file(&q), Node::file(d2.text(r.next()).as_bytes()));
                }
            }
        }
        9 => {
            what = "no template name";
            must = true;
            q.template = None;
            if q.circom.is_none() {
                q.circom = Some("o.circom".into());
            }
        }
        10 => {
            what = "empty parts";
            must = true;
            if q.via == Via::Struct {
                q.config = Some(json!({"parts": []}));
            } else {
                q.raw = None;
                q.substrs = None;
                q.def = "/sim/w/e.json".into();
                put_file(&mut disk, "/sim/w/e.json", b"{\"parts\":[]}");
            }
            q.publics = 0;
        }
        11 => {
            // substring definitions of a raw request
            if q.via == Via::Struct {
                q.via = Via::Lib;
            }
            q.config = None;
            q.raw = Some(r.pick(&["a(b|c)+d", "1=(a|b) (2=(b|c)+ )+d", "[a-z]+@x"]).to_string());
            let p = "/sim/w/sub.json";
            q.substrs = Some(p.into());
            q.halo2 = None;
            q.circom = Some("o.circom".into());
            q.template = Some("T".into());
            q.gen = *r.pick(&[Some(true), None]);
            q.publics = 1;
            let good = br#"{"transitions":[[[1,2],[2,2]]]}"#.to_vec();
            match r.below(5) {
                0 => {
                    what = "missing substring definitions";
                    must = true;
                }
                1 => {
                    what = "truncated substring definitions";
                    let k = r.us(good.len());
                    put_file(&mut disk, p, &good[..k]);
                    must = true;
                }
                2 => {
                    what = "corrupted substring definitions";
                    let mut v = good;
                    let i = r.us(v.len());
                    v[i] = r.next() as u8;
                    must = not_substrs(&v);
                    put_file(&mut disk, p, &v);
                }
                3 => {
                    what = "substring transitions out of range";
                    let k = r.range(1000, 1 << 40);
                    let t = if r.chance(1, 2) { json!([[[1, k]]]) } else { json!([[[1, 2]], [[k, 1]]]) };
                    put_file(&mut disk, p, json!({ "transitions": t }).to_string().as_bytes());
                    must = true;
                }
                _ => {
                    what = "not substring definitions";
                    let t = *r.pick(&["", "{}", "[]", "{\"transitions\":7}", "{\"transitions\":[[[1]]]}", "{\"transitions\":[[[-1,2]]]}", "{\"transitions\":[[[1,2,3]]]}"]);
                    put_file(&mut disk, p, t.as_bytes());
                    must = true;
                }
            }
        }
        12 => {
            what = "wrong command line";
            must = true;
            q.via = Via::Cli;
            let a: Vec<&str> = match r.below(8) {
                0 => vec![],
                1 => vec!["decomposed"],
                2 => vec!["decomposed", "-c", "o.circom", "-t", "T"],
                3 => vec!["raw", "-c", "o.circom", "-t", "T"],
                4 => vec!["decomposed", "-d", "d.json", "-c", "o.circom", "-t", "T", "-g", "maybe"],
                5 => vec!["compile", "-d", "d.json"],
                6 => vec!["decomposed", "-d", "d.json", "-c"],
                _ => vec!["decomposed", "-d", "d.json", "-c", "o.circom", "-t", "T", "extra"],
            };
            put_file(&mut disk, "/sim/w/d.json", d.text(0).as_bytes());
            q.argv = Some(a.into_iter().map(String::from).collect());
            q.circom = Some("o.circom".into());
            q.raw = None;
        }
        _ => {
            // anything at all: it compiles or is refused, but cleanly
            what = "unusual regex";
            must = false;
            let odd = [
                "", "()", "(|a)", "a|", "a**", "(a?)+", "a{0}", "\\b", "\\B", "(?i)abc", "(?s).", "(?x) a b", "\\d+", "\\w", "\\s*", "\\pL", "[[:alpha:]]+", "[a&&b]",
                "[^\\x00-\\x{10FFFF}]", "(?-u:\\xff)", "\\z", "\\A", "^^a", "a^b", "(^a|b)", "[^^]^", "$$", "^$", "\\x00+", "\\0", ".*", "(.*)", "^*", "(^)?a", "x*$", "a|b$", "($)",
                "\\$", "\\\\$", "[$]", "a=>b", "=> 1", "' '", "[=-?]", "[^-]-", "a{3}{2}", "(?<n>a)b", "EOI", "é|\\u{1F600}",
            ];
            let n = 1 + r.us(3);
            let mut v: Vec<crate::re::Part> = vec![];
            for _ in 0..n {
                let text = if r.chance(1, 2) { r.pick(&odd).to_string() } else { d.parts[r.us(d.parts.len())].text.clone() };
                v.push(crate::re::Part { public: r.chance(1, 2), text });
            }
            let d2 = Def { parts: v };
            if q.raw.is_some() {
                q.raw = Some(d2.parts.iter().map(|p| p.text.as_str()).collect());
            } else if q.via == Via::Struct {
                q.config = Some(d2.json());
                q.publics = d2.publics();
            } else {
                q.publics = d2.publics();
                disk.insert(def_file(&q), Node::file(d2.text(r.next()).as_bytes()));
            }
        }
    }
    // older outputs of another definition at the paths
    for (_, p) in q.outputs(CWD) {
        if r.chance(2, 3) && !disk.get(&p).is_some_and(|n| n.dir) {
            disk.insert(p, stale(r, None));
        }
    }
    // interrupted calls must change nothing about it
    if r.chance(1, 2) {
        let class = *r.pick(&["read", "open_read", "read", "write", "stdio"]);
        let kind = if class == "open_read" || r.chance(1, 2) { "errno" } else { "short" };
        let arg = if kind == "short" { 1 + r.below(9) as i64 } else { libc::EINTR as i64 };
        env.faults.push(Fault::new(class, kind, 1 + r.below(30), 1 + r.below(20), arg));
    }
    let twice = r.chance(1, 4);
    let mut steps = vec![Step::Request(q.clone(), env.clone())];
    if twice {
        steps.push(Step::Request(q, gen_env(r)));
    }
    Ok(History { property: "C03".into(), seed: 0, disk, steps, extra: json!({ "what": what, "must_refuse": must }) })
}
/// Would the parts be valid after all, one by one?
fn regexish(parts: &[crate::re::Part]) -> bool {
    // each part is compiled on its own, so one bad part is enough; nothing repairs it
    parts.iter().all(|p| Model::new(std::slice::from_ref(p)).is_ok())
}

// ------------------------------------------------------------------ judges
fn damage(disk: &mut Disk, p: &str, n: &Option<Node>) {
    match n {
        Some(n) => {
            disk.insert(p.to_string(), n.clone());
        }
        None => {
            disk.remove(p);
        }
    }
}
fn files(disk: &Disk, outs: &BTreeMap<String, String>) -> BTreeMap<String, Vec<u8>> {
    outs.iter().filter_map(|(role, p)| disk.get(p).filter(|n| !n.dir).map(|n| (role.clone(), n.data.0.clone()))).collect()
}
pub fn differing(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for (k, v) in b {
        match a.get(k) {
            None => return Some(format!("{k} is missing")),
            Some(w) if w != v => {
                let at = w.iter().zip(v).position(|(x, y)| x != y).unwrap_or(w.len().min(v.len()));
                return Some(format!("{k} has {} bytes where {} are expected and differs from byte {at} on", w.len(), v.len()));
            }
            _ => {}
        }
    }
    None
}

pub fn judge(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    match h.property.as_str() {
        "C01" => judge_ack(h, lab),
        "C02" => judge_repair(h, lab),
        "C03" => judge_refusal(h, lab),
        _ => judge_extent(h, lab),
    }
}

fn judge_ack(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let mut disk = h.disk.clone();
    for s in &h.steps {
        match s {
            Step::Request(q, e) => {
                let g = lab.golden(&h.disk, q, &e.cwd)?;
                let (rep, o) = lab.request(&mut disk, q, e)?;
                let excuse = o.capacity_hit || e.faults.iter().zip(&o.fired).any(|(f, n)| *n > 0 && !f.transparent());
                let alloc = e.faults.iter().zip(&o.fired).any(|(f, n)| *n > 0 && f.class == "alloc");
                lab.st.mark(match &rep {
                    Reply::Ok if excuse => "acknowledged despite a fault",
                    Reply::Ok => "acknowledged",
                    Reply::Refused(_) => "reported failure",
                    _ => "ended otherwise",
                });
                match rep {
                    Reply::Ok => {
                        if g.reply != Reply::Ok {
                            return Ok(breach("ack-of-refused", format!("acknowledged, but without faults the answer is {:?}", g.reply)));
                        }
                        let have = files(&disk, &q.outputs(&e.cwd));
                        if let Some(t) = differing(&have, &g.files) {
                            return Ok(breach("ack-incomplete", format!("the request was acknowledged, but {t}")));
                        }
                    }
                    Reply::Refused(m) => {
                        if g.reply == Reply::Ok && !excuse {
                            return Ok(breach("spurious-failure", format!("failed although calls were at most interrupted or short: {}", m.trim())));
                        }
                    }
                    Reply::Panic(m) => {
                        if q.via != Via::Cli || (!excuse && g.reply == Reply::Ok) {
                            return Ok(breach("panic", format!("panicked: {}", m.trim())));
                        }
                    }
                    Reply::Signal(s) => {
                        if !alloc {
                            return Ok(breach("signal", format!("ended by signal {s}")));
                        }
                    }
                    Reply::Hang | Reply::Deadlock => return Ok(breach("hang", "never ended")),
                    Reply::Crashed => {}
                }
            }
            Step::Damage(p, n) => damage(&mut disk, p, n),
            Step::Script(..) | Step::Together(..) => {}
        }
    }
    Ok(None)
}

fn judge_repair(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let mut disk = h.disk.clone();
    // what the disk should hold besides the outputs
    let mut rest = h.disk.clone();
    let last = h.steps.len() - 1;
    let mut crashes = 0;
    for (i, s) in h.steps.iter().enumerate() {
        match s {
            Step::Request(q, e) => {
                let (rep, _) = lab.request(&mut disk, q, e)?;
                if i < last {
                    match rep {
                        Reply::Crashed => crashes += 1,
                        Reply::Ok => lab.st.mark("acknowledged before the last attempt"),
                        _ => lab.st.mark("failed before the last attempt"),
                    }
                    continue;
                }
                lab.st.add("killed part-way", crashes);
                let g = lab.golden(&h.disk, q, &e.cwd)?;
                if g.reply != Reply::Ok {
                    // nothing to repair, but it must go on being refused
                    if rep == Reply::Ok {
                        return Ok(breach("ack-of-refused", "acknowledged after a history of faults, but refused on a fresh disk"));
                    }
                    return Ok(None);
                }
                if rep != Reply::Ok {
                    return Ok(breach("not-repaired", format!("the first attempt after the faults does not succeed: {rep:?}")));
                }
                let outs = q.outputs(&e.cwd);
                let have = files(&disk, &outs);
                if let Some(t) = differing(&have, &g.files) {
                    return Ok(breach("repair-differs", format!("after the successful attempt {t}")));
                }
                for p in diff(&rest, &disk) {
                    let role = outs.iter().find(|o| *o.1 == p).map(|o| o.0);
                    if role.is_some_and(|r| g.files.contains_key(r)) {
                        continue;
                    }
                    return Ok(breach("leftover", format!("{p} was created or changed by the history and is no artefact")));
                }
            }
            Step::Damage(p, n) => {
                damage(&mut disk, p, n);
                damage(&mut rest, p, n);
            }
            Step::Script(..) | Step::Together(..) => {}
        }
    }
    Ok(None)
}

fn judge_refusal(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let must = h.extra["must_refuse"].as_bool().unwrap_or(false);
    let what = h.extra["what"].as_str().unwrap_or("").to_string();
    let mut disk = h.disk.clone();
    for s in &h.steps {
        if let Step::Request(q, e) = s {
            let before = disk.clone();
            let (rep, o) = lab.request(&mut disk, q, e)?;
            lab.st.mark(format!("{what}: {}", match &rep {
                Reply::Ok => "acknowledged",
                Reply::Refused(_) => "refused",
                _ => "other",
            }));
            match &rep {
                Reply::Ok => {
                    if must {
                        return Ok(breach("acknowledged", format!("{what}: acknowledged")));
                    }
                    continue;
                }
                Reply::Refused(m) => {
                    if m.trim().is_empty() {
                        return Ok(breach("no-message", format!("{what}: failed without a message (status {})", o.status)));
                    }
                }
                Reply::Panic(m) => return Ok(breach("panic", format!("{what}: panicked: {}", m.trim()))),
                Reply::Signal(n) => return Ok(breach("signal", format!("{what}: ended by signal {n}"))),
                Reply::Hang | Reply::Deadlock => return Ok(breach("hang", format!("{what}: never ended"))),
                Reply::Crashed => {}
            }
            let outs = q.outputs(&e.cwd);
            for p in diff(&before, &disk) {
                let known = outs.values().any(|o| *o == p);
                return Ok(breach("outputs-touched", format!("{what}: refused, but {p} was changed or created{}", if known { "" } else { " (not even an output)" })));
            }
        }
    }
    Ok(None)
}

fn judge_extent(h: &History, lab: &mut Lab) -> Res<Option<Breach>> {
    let mut disk = h.disk.clone();
    for s in &h.steps {
        match s {
            Step::Request(q, e) => {
                let before = disk.clone();
                let (rep, o) = lab.request(&mut disk, q, e)?;
                lab.st.mark(match &rep {
                    Reply::Ok => "returned success",
                    Reply::Refused(_) => "returned failure",
                    _ => "ended otherwise",
                });
                if let Some(x) = o.escapes.first() {
                    return Ok(breach("escape", format!("it tried to change {x}")));
                }
                if !rep.returned() {
                    continue;
                }
                let mut outs = q.outputs(&e.cwd);
                if !crate::zk::generates(q) || q.raw.is_some() {
                    outs.retain(|k, _| !k.starts_with("substr_"));
                }
                for p in diff(&before, &disk) {
                    if !outs.values().any(|o| *o == p) {
                        return Ok(breach("touched", format!("{p} was changed or created and is no output of the request")));
                    }
                }
            }
            Step::Damage(p, n) => damage(&mut disk, p, n),
            Step::Script(..) | Step::Together(..) => {}
        }
    }
    Ok(None)
}

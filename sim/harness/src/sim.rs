//! Runs one process of zk-regex inside the simulated operating system.
use crate::image::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const ROOT: &str = "/sim";

/// Bytes kept in JSON as a string of one character per byte.
#[derive(Clone, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct Bytes(pub Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|b| *b as char).collect::<String>())
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Ok(Bytes(s.chars().map(|c| c as u32 as u8).collect()))
    }
}
impl From<&str> for Bytes {
    fn from(s: &str) -> Self {
        Bytes(s.as_bytes().to_vec())
    }
}

fn is_false(b: &bool) -> bool {
    !*b
}
fn is_default<T: Default + PartialEq>(t: &T) -> bool {
    *t == T::default()
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub struct Node {
    #[serde(default, skip_serializing_if = "is_false")]
    pub dir: bool,
    #[serde(default, skip_serializing_if = "is_default")]
    pub data: Bytes,
    #[serde(default, skip_serializing_if = "is_false")]
    pub noread: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub nowrite: bool,
}
impl Node {
    pub fn file(b: &[u8]) -> Node {
        Node { data: Bytes(b.to_vec()), ..Default::default() }
    }
    pub fn dir() -> Node {
        Node { dir: true, ..Default::default() }
    }
}

/// The simulated disk: absolute path to node.
pub type Disk = BTreeMap<String, Node>;

pub fn mkdirs(d: &mut Disk, path: &str) {
    let mut at = String::new();
    for c in path.split('/').filter(|c| !c.is_empty()) {
        at.push('/');
        at.push_str(c);
        if at == ROOT || at.starts_with("/sim/") {
            d.entry(at.clone()).or_insert_with(Node::dir);
        }
    }
}
pub fn put_file(d: &mut Disk, path: &str, data: &[u8]) {
    if let Some(i) = path.rfind('/') {
        mkdirs(d, &path[..i]);
    }
    d.insert(path.to_string(), Node::file(data));
}
pub fn new_disk() -> Disk {
    let mut d = Disk::new();
    mkdirs(&mut d, "/sim");
    d
}
/// Absolute, normalised.
pub fn absolute(cwd: &str, p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("{cwd}/{p}") };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub class: String,
    pub kind: String,
    /// The first operation of the class that it hits (from 1).
    pub nth: u64,
    /// How many in a row.
    pub count: u64,
    /// errno, or the length of a short transfer.
    #[serde(default)]
    pub arg: i64,
}
impl Fault {
    pub fn new(class: &str, kind: &str, nth: u64, count: u64, arg: i64) -> Fault {
        Fault { class: class.into(), kind: kind.into(), nth, count, arg }
    }
    pub fn class_id(&self) -> u32 {
        CLASS_NAMES.iter().position(|n| *n == self.class).expect("fault class") as u32
    }
    pub fn kind_id(&self) -> u32 {
        KIND_NAMES.iter().position(|n| *n == self.kind).expect("fault kind") as u32
    }
    /// Never a reason for a request to fail: an interrupted call or a short transfer.
    pub fn transparent(&self) -> bool {
        match self.kind.as_str() {
            "short" => true,
            "errno" => self.arg == libc::EINTR as i64 && ["open_read", "open_write", "read", "write", "stdio", "close"].contains(&self.class.as_str()),
            _ => false,
        }
    }
    pub fn crash(&self) -> bool {
        self.kind.starts_with("crash")
    }
    pub fn label(&self) -> String {
        match self.kind.as_str() {
            "errno" => format!("{}:{}", self.class, errno_name(self.arg)),
            k => format!("{}:{}", self.class, k),
        }
    }
}
pub fn errno_name(e: i64) -> String {
    match e as i32 {
        libc::EINTR => "EINTR".into(),
        libc::EIO => "EIO".into(),
        libc::ENOSPC => "ENOSPC".into(),
        libc::EDQUOT => "EDQUOT".into(),
        libc::EMFILE => "EMFILE".into(),
        libc::ENFILE => "ENFILE".into(),
        libc::EACCES => "EACCES".into(),
        libc::EROFS => "EROFS".into(),
        libc::ENOMEM => "ENOMEM".into(),
        libc::EFBIG => "EFBIG".into(),
        libc::ENOENT => "ENOENT".into(),
        libc::EAGAIN => "EAGAIN".into(),
        libc::EPERM => "EPERM".into(),
        e => format!("errno{e}"),
    }
}

/// What the simulated environment does to one process.
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Env {
    pub seed: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub clock0: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub clock_step: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub clock_jump: i64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub clock_jump_at: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub capacity: Option<u64>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub capacity_errno: u32,
    #[serde(default, skip_serializing_if = "is_default")]
    pub pid: u32,
    #[serde(default, skip_serializing_if = "is_default")]
    pub layout_salt: u64,
    /// The rest of the surroundings: processors, user, host, terminal, variables nobody planned
    #[serde(default, skip_serializing_if = "is_default")]
    pub ambient: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub max_chunk_r: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub max_chunk_w: u64,
    #[serde(default, skip_serializing_if = "is_default")]
    pub sched_mode: u32,
    pub cwd: String,
    #[serde(default, skip_serializing_if = "is_default")]
    pub vars: Vec<(String, String)>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub faults: Vec<Fault>,
    /// (scheduling step, thread to run, instructions to single-step first)
    #[serde(default, skip_serializing_if = "is_default")]
    pub preempts: Vec<(u64, u32, u32)>,
    /// The same, counted in the points where threads meet (all but allocations)
    #[serde(default, skip_serializing_if = "is_default")]
    pub hots: Vec<(u64, u32, u32)>,
    /// Another program renames a file just before that file operation: (operation, from, to)
    #[serde(default, skip_serializing_if = "is_default")]
    pub moves: Vec<(u64, String, String)>,
}
impl Env {
    pub fn quiet(cwd: &str) -> Env {
        Env {
            seed: 7,
            clock0: 1_700_000_000_000_000_000,
            clock_step: 1000,
            clock_jump: 0,
            clock_jump_at: 0,
            capacity: None,
            capacity_errno: 0,
            pid: 4242,
            layout_salt: 0,
            ambient: 0,
            max_chunk_r: 0,
            max_chunk_w: 0,
            sched_mode: 0,
            cwd: cwd.into(),
            vars: vec![],
            faults: vec![],
            preempts: vec![],
            hots: vec![],
            moves: vec![],
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Prog {
    Cli,
    Driver,
    /// The driver compiled with calls at atomic operations and accesses of statics.
    Threads,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Exit(i32),
    Signal(i32),
    /// Ended by a planned crash.
    Crashed,
    /// Ran over its budget of operations, allocations or processor time.
    Hang,
    Deadlock,
}
impl std::fmt::Display for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Status::Exit(c) => write!(f, "exit {c}"),
            Status::Signal(s) => write!(f, "signal {s}"),
            Status::Crashed => write!(f, "killed by the plan"),
            Status::Hang => write!(f, "hang"),
            Status::Deadlock => write!(f, "deadlock"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: [u64; NCLASS],
    pub fired: Vec<u64>,
    pub capacity_hit: bool,
    pub escapes: Vec<String>,
    pub steps: u64,
    pub hot: u64,
    pub atomics: u64,
    pub statics: u64,
    pub switches: u64,
    pub micro_steps: u64,
    pub threads: u64,
    pub rand_calls: u64,
    pub clock_ns: u64,
    pub loghash: u64,
    pub log: Vec<(u8, u8, u16, i32, u64)>,
    /// Simulated time spent waiting.
    pub slept_ns: u64,
    /// Which of the planned renames happened.
    pub moved: Vec<bool>,
}
impl Outcome {
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.err).into_owned()
    }
    pub fn ok(&self) -> bool {
        self.status == Status::Exit(0)
    }
    pub fn panicked(&self) -> bool {
        self.status == Status::Exit(101) || self.err_text().contains("panicked at")
    }
}

/// A problem of the machinery, not of zk-regex.
#[derive(Debug)]
pub struct Broken(pub String);
pub type Res<T> = Result<T, Broken>;
pub fn broken<T>(s: impl Into<String>) -> Res<T> {
    Err(Broken(s.into()))
}

#[derive(Clone)]
pub struct Paths {
    pub shim: PathBuf,
    pub cli: PathBuf,
    pub driver: PathBuf,
    pub threads: PathBuf,
}

pub struct Machine {
    pub shared: Shared,
    /// Of the other processes on the same disk.
    more: Vec<Shared>,
    pub paths: Paths,
    pub runs: u64,
}

/// What one process is told about its environment.
fn tell(sh: &mut Shared, env: &Env) {
    let im = sh.im();
    im.magic = MAGIC;
    im.seed = env.seed;
    im.clock0 = env.clock0;
    im.clock_step = env.clock_step;
    im.clock_jump = env.clock_jump;
    im.clock_jump_at = env.clock_jump_at;
    im.capacity = env.capacity.unwrap_or(u64::MAX);
    im.capacity_errno = if env.capacity_errno != 0 { env.capacity_errno } else { libc::ENOSPC as u32 };
    im.pid = if env.pid != 0 { env.pid } else { 4242 };
    im.layout_salt = env.layout_salt;
    im.ambient = env.ambient;
    im.max_ops = 20_000_000;
    im.max_allocs = 60_000_000;
    im.max_chunk_r = env.max_chunk_r;
    im.max_chunk_w = env.max_chunk_w;
    im.sched_mode = env.sched_mode;
    put(&mut im.cwd, &env.cwd);
    put(&mut im.root, ROOT);
    im.nfaults = env.faults.len() as u32;
    for (i, f) in env.faults.iter().enumerate() {
        im.faults[i] = CFault { cls: f.class_id(), kind: f.kind_id(), nth: f.nth, count: f.count, arg: f.arg, fired: 0 };
    }
    im.npreempt = env.preempts.len() as u32;
    for (i, p) in env.preempts.iter().enumerate() {
        im.preempts[i] = CPreempt { step: p.0, target: p.1, micro: p.2 };
    }
    im.nhot = env.hots.len() as u32;
    for (i, p) in env.hots.iter().enumerate() {
        im.hots[i] = CPreempt { step: p.0, target: p.1, micro: p.2 };
    }
    im.nmoves = env.moves.len() as u64;
    for (i, m) in env.moves.iter().enumerate() {
        im.moves[i].op = m.0;
        put(&mut im.moves[i].from, &m.1);
        put(&mut im.moves[i].to, &m.2);
    }
    im.proc = 0;
    im.nprocs = 1;
}
fn too_large(env: &Env) -> bool {
    env.faults.len() > NFAULTS || env.preempts.len() > NPREEMPT || env.hots.len() > NPREEMPT || env.moves.len() > NMOVES
}
fn fill(sh: &mut Shared, disk: &Disk) -> Res<()> {
    if disk.len() + 16 > NFILES {
        return broken("plan too large");
    }
    sh.im().fs.nextino = 100;
    let mut ext = 0usize;
    for (i, (path, n)) in disk.iter().enumerate() {
        if n.data.0.len() > FILECAP {
            return broken("file too large");
        }
        let fs = &mut sh.im().fs;
        let f = &mut fs.files[i];
        put(&mut f.path, path);
        f.kind = if n.dir { 2 } else { 1 };
        f.outside = !(path == ROOT || path.starts_with("/sim/")) as u8;
        f.noread = n.noread as u8;
        f.nowrite = n.nowrite as u8;
        fs.nextino += 1;
        f.ino = fs.nextino;
        if !n.dir {
            f.extent = ext as u32;
            f.size = n.data.0.len() as u64;
            fs.extent_used[ext] = 1;
            sh.data(ext, n.data.0.len()).copy_from_slice(&n.data.0);
            ext += 1;
        }
    }
    sh.im().fs.nfiles_used = disk.len() as u32;
    Ok(())
}
fn read_back(sh: &mut Shared) -> Disk {
    let mut new = Disk::new();
    for i in 0..sh.im().fs.nfiles_used as usize {
        let f = sh.im().fs.files[i];
        if f.kind == 0 || f.unlinked != 0 {
            continue;
        }
        let data = if f.kind == 1 { sh.data(f.extent as usize, f.size as usize).to_vec() } else { vec![] };
        new.insert(cstr(&f.path), Node { dir: f.kind == 2, data: Bytes(data), noread: f.noread != 0, nowrite: f.nowrite != 0 });
    }
    new
}
fn status_of(sh: &mut Shared, st: std::process::ExitStatus) -> Res<Status> {
    let (crashed, hang, deadlock, unsup) = {
        let im = sh.im();
        (im.crashed != 0, im.hang != 0, im.deadlock != 0, im.unsupported != 0)
    };
    if unsup {
        let what = cstr(&sh.im().unsup);
        return broken(format!("the simulator does not support: {what}"));
    }
    let status = match (st.code(), st.signal()) {
        (Some(137), _) if crashed => Status::Crashed,
        (Some(98), _) if hang => Status::Hang,
        (Some(99), _) if deadlock => Status::Deadlock,
        (Some(c), _) if (93..=97).contains(&c) && sh.im().steps == 0 => return broken(format!("shim failed to start: {c}")),
        (Some(c), _) => Status::Exit(c),
        (_, Some(s)) if s == libc::SIGALRM => return broken("a simulated process was blocked outside the simulator"),
        (_, Some(s)) if s == libc::SIGXCPU => Status::Hang,
        (_, Some(s)) => Status::Signal(s),
        _ => return broken("no exit status"),
    };
    if status == Status::Signal(libc::SIGKILL) {
        return broken("a simulated process was killed from outside");
    }
    Ok(status)
}
fn outcome(sh: &mut Shared, status: Status) -> Outcome {
    let im = sh.im();
    let mut out = [vec![], vec![]];
    for k in 0..2 {
        out[k] = im.out[k][..(im.outlen[k] as usize).min(OUTCAP)].to_vec();
    }
    let [o, e] = out;
    Outcome {
        status,
        out: o,
        err: e,
        ops: im.opcount,
        fired: im.faults[..im.nfaults as usize].iter().map(|f| f.fired).collect(),
        capacity_hit: im.nospace != 0,
        escapes: (0..im.nesc.min(8) as usize).map(|i| cstr(&im.esc[i])).collect(),
        steps: im.steps,
        hot: im.hot,
        atomics: im.atomics,
        statics: im.statics,
        switches: im.switches,
        micro_steps: im.micro_steps,
        threads: im.threads,
        rand_calls: im.rand_calls,
        clock_ns: im.clock_now,
        loghash: im.loghash,
        slept_ns: im.slept,
        moved: im.moves[..im.nmoves as usize].iter().map(|m| m.done > 0).collect(),
        log: im.log[..im.nlog as usize].iter().map(|l| (l.op, l.thr, l.file, l.res, l.arg)).collect(),
    }
}

impl Machine {
    pub fn new(paths: &Paths) -> Machine {
        Machine { shared: Shared::new(), more: vec![], paths: paths.clone(), runs: 0 }
    }
    fn command(&self, prog: Prog, args: &[String], env: &Env, fd: i32) -> Command {
        let exe: &Path = match prog {
            Prog::Cli => &self.paths.cli,
            Prog::Driver => &self.paths.driver,
            Prog::Threads => &self.paths.threads,
        };
        let mut cmd = Command::new(exe);
        cmd.args(args).env_clear().stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).current_dir("/");
        for (k, v) in &env.vars {
            cmd.env(k, v);
        }
        if env.layout_salt != 0 {
            // the stack begins elsewhere
            cmd.env("ZKSIM_PAD", "-".repeat((env.layout_salt >> 30) as usize % 48_000));
        }
        cmd.env("LD_PRELOAD", &self.paths.shim).env("ZKSIM_FD", fd.to_string());
        cmd
    }

    /// Runs a program to its end on the disk, which it changes.
    pub fn run(&mut self, disk: &mut Disk, prog: Prog, args: &[String], env: &Env) -> Res<Outcome> {
        self.runs += 1;
        if too_large(env) {
            return broken("plan too large");
        }
        self.shared.reset();
        tell(&mut self.shared, env);
        fill(&mut self.shared, disk)?;
        let st = match self.command(prog, args, env, self.shared.fd).status() {
            Ok(s) => s,
            Err(e) => return broken(format!("cannot run a program: {e}")),
        };
        self.shared.mark_used();
        let status = status_of(&mut self.shared, st)?;
        *disk = read_back(&mut self.shared);
        Ok(outcome(&mut self.shared, status))
    }

    /// Runs several programs at the same time on one disk. The schedule says who does how many file
    /// operations next; after it they take turns until all have ended. Also returns the turns that were
    /// taken: who, how many operations were allowed, and how the turn ended ('.' its operations were
    /// done, 'S' it sleeps, 'B' it waits for a lock, 'E' it ended).
    pub fn together(&mut self, disk: &mut Disk, procs: &[(Prog, Vec<String>, Env)], schedule: &[(usize, u64)]) -> Res<(Vec<Outcome>, Vec<(usize, u64, char)>)> {
        let n = procs.len();
        if n > 8 || procs.iter().any(|p| too_large(&p.2)) {
            return broken("plan too large");
        }
        self.runs += n as u64;
        while self.more.len() + 1 < n {
            self.more.push(Shared::new());
        }
        self.shared.reset();
        fill(&mut self.shared, disk)?;
        let dfd = self.shared.fd;
        let mut kids: Vec<Kid> = vec![];
        for (i, (prog, args, env)) in procs.iter().enumerate() {
            if i > 0 {
                self.more[i - 1].reset();
            }
            let sh = if i == 0 { &mut self.shared } else { &mut self.more[i - 1] };
            tell(sh, env);
            sh.im().proc = i as u32;
            sh.im().nprocs = n.max(2) as u32;
            let fd = sh.fd;
            let mut cmd = self.command(*prog, args, env, fd);
            if i > 0 {
                cmd.env("ZKSIM_DISK", dfd.to_string());
            }
            let c = match cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn() {
                Ok(mut c) => {
                    let (tx, rx) = (c.stdin.take().unwrap(), c.stdout.take().unwrap());
                    Kid { c, tx, rx, end: None }
                }
                Err(e) => {
                    return broken(format!("cannot run a program: {e}"));
                }
            };
            kids.push(c);
            // it has reached the start, where it waits
            if kids[i].turn()? == 'E' {
                self.gone(i, &mut kids[i])?;
            }
        }
        let mut turns = vec![];
        let mut blocked = 0;
        let (mut at, mut size) = (0, 40u64);
        loop {
            let alive: Vec<usize> = (0..n).filter(|i| kids[*i].end.is_none()).collect();
            if alive.is_empty() {
                break;
            }
            let (p, k) = if at < schedule.len() {
                schedule[at]
            } else {
                let j = (at - schedule.len()) % n;
                if j == 0 {
                    size = size.saturating_mul(2).min(1 << 40);
                }
                (j, size)
            };
            at += 1;
            if p >= n || kids[p].end.is_some() || k == 0 {
                continue;
            }
            if kids[p].tx.write_all(&k.to_le_bytes()).is_err() {
                return broken("a simulated process does not listen");
            }
            let why = kids[p].turn()?;
            if turns.len() < 10_000 {
                turns.push((p, k, why));
            }
            match why {
                'E' => {
                    self.gone(p, &mut kids[p])?;
                    blocked = 0;
                }
                'B' => blocked += 1,
                _ => blocked = 0,
            }
            if at >= schedule.len() && blocked > 2 * n {
                // nobody can go on
                for k in kids.iter_mut().filter(|k| k.end.is_none()) {
                    k.end = Some(Status::Deadlock);
                }
                break;
            }
        }
        let ends: Vec<Status> = kids.iter().map(|k| k.end.clone().unwrap()).collect();
        drop(kids);
        self.shared.mark_used();
        *disk = read_back(&mut self.shared);
        let mut outs = vec![];
        for (i, s) in ends.into_iter().enumerate() {
            outs.push(outcome(if i == 0 { &mut self.shared } else { &mut self.more[i - 1] }, s));
        }
        Ok((outs, turns))
    }
    /// A process has ended: its locks are free, and what only it held open is gone.
    fn gone(&mut self, i: usize, k: &mut Kid) -> Res<()> {
        let st = match k.c.wait() {
            Ok(s) => s,
            Err(e) => return broken(format!("wait: {e}")),
        };
        self.shared.mark_used();
        let fs = &mut self.shared.im().fs;
        for j in 0..fs.nfiles_used as usize {
            let f = &mut fs.files[j];
            if f.lockp == i as u32 + 1 {
                f.lockp = 0;
            }
            if f.kind != 0 && f.holders & (1 << i) != 0 {
                f.holders &= !(1 << i);
                if f.unlinked != 0 && f.holders == 0 {
                    if f.kind == 1 {
                        fs.extent_used[f.extent as usize] = 0;
                    }
                    f.kind = 0;
                }
            }
        }
        k.end = Some(status_of(if i == 0 { &mut self.shared } else { &mut self.more[i - 1] }, st)?);
        Ok(())
    }
}
struct Kid {
    c: std::process::Child,
    tx: std::process::ChildStdin,
    rx: std::process::ChildStdout,
    end: Option<Status>,
}
impl Kid {
    /// Waits until it pauses or ends.
    fn turn(&mut self) -> Res<char> {
        let mut b = [0u8];
        match self.rx.read(&mut b) {
            Ok(1) => Ok(b[0] as char),
            Ok(_) => Ok('E'),
            Err(e) => broken(format!("a simulated process cannot be heard: {e}")),
        }
    }
}
impl Drop for Kid {
    fn drop(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}

/// Turns address space randomisation off for every child.
pub fn fix_address_space() {
    unsafe {
        libc::personality(libc::ADDR_NO_RANDOMIZE as libc::c_ulong);
    }
}

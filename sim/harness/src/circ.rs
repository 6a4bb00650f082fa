//! Circuits read back from a disk, simulated provers, and the verifier's judgement.
use crate::circom::{self, Circuit, Kind, Sig, Source, E};
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::path::PathBuf;

const LIB: [(&str, &str); 4] = [
    ("comparators.circom", include_str!("../../circomlib/comparators.circom")),
    ("bitify.circom", include_str!("../../circomlib/bitify.circom")),
    ("gates.circom", include_str!("../../circomlib/gates.circom")),
    ("mux1.circom", include_str!("../../circomlib/mux1.circom")),
];

/// Includes: circomlib is this repository's own stand-in, zk-regex-circom is /repo's package, and
/// `over` replaces files of it.
pub struct Includes {
    pub package: PathBuf,
    pub over: BTreeMap<String, String>,
}
impl Includes {
    pub fn new() -> Includes {
        Includes { package: PathBuf::from(crate::repo()).join("packages/circom"), over: BTreeMap::new() }
    }
}
impl Source for Includes {
    fn load(&self, from: &str, path: &str) -> E<(String, String, bool)> {
        if let Some(i) = path.find("circomlib/circuits/") {
            let name = &path[i + "circomlib/circuits/".len()..];
            return match LIB.iter().find(|l| l.0 == name) {
                Some(l) => Ok((l.1.to_string(), format!("circomlib/{name}"), true)),
                None => Err(format!("no such file: {path}")),
            };
        }
        if from.starts_with("circomlib/") {
            return self.load("", &format!("circomlib/circuits/{}", path.trim_start_matches("./")));
        }
        let rel = if let Some(p) = path.strip_prefix("@zk-email/zk-regex-circom/") {
            p.to_string()
        } else {
            let dir = from.rfind('/').map_or("", |i| &from[..i]);
            crate::sim::absolute(&format!("/{dir}"), path)[1..].to_string()
        };
        if let Some(t) = self.over.get(&rel) {
            return Ok((t.clone(), rel, false));
        }
        match std::fs::read_to_string(self.package.join(&rel)) {
            Ok(t) => Ok((t, rel, false)),
            Err(e) => Err(format!("cannot include {path} from {from}: {e}")),
        }
    }
}

/// A circuit ready to serve provers.
pub struct Ready {
    pub c: Circuit,
    pub n: usize,
    pub out: Sig,
    pub reveals: Vec<Vec<Sig>>,
    targets: Vec<Sig>,
    groups: Vec<Vec<Sig>>,
    lib_targets: Vec<Sig>,
}
impl Ready {
    /// Err: what is wrong with the circuit.
    pub fn new(text: &str, at: &str, template: &str, n: usize, src: &Includes) -> E<Ready> {
        let p = circom::load(text, at, src)?;
        if !p.main_templates.iter().any(|t| t == template) {
            return Err(format!("template {template} is not there"));
        }
        let c = p.elaborate(template, &[n as u64])?;
        if let Some(m) = c.missing.first() {
            return Err(format!("{m} is never assigned"));
        }
        match c.inputs.get("msg") {
            Some(m) if m.len() == n && c.inputs.len() == 1 => {}
            _ => return Err("the input is not msg[msg_bytes]".into()),
        }
        let out = match c.outputs.get("out").map(Vec::as_slice) {
            Some([s]) => *s,
            _ => return Err("there is no output out".into()),
        };
        let mut reveals = vec![];
        while let Some(v) = c.outputs.get(&format!("reveal{}", reveals.len())) {
            if v.len() != n {
                return Err("reveal has another size than msg".into());
            }
            reveals.push(v.clone());
        }
        if c.outputs.len() != 1 + reveals.len() {
            return Err(format!("outputs are {:?}", c.outputs.keys().collect::<Vec<_>>()));
        }
        let mut targets = vec![];
        let mut lib_targets = vec![];
        let mut by: BTreeMap<(u32, u32), Vec<Sig>> = BTreeMap::new();
        for s in 0..c.nsig as Sig {
            let k = c.kind[s as usize];
            if !(k == Kind::Hint || (k == Kind::Free && c.used[s as usize])) {
                continue;
            }
            if c.by_lib[s as usize] {
                lib_targets.push(s);
            } else {
                targets.push(s);
                by.entry(c.origin[s as usize]).or_default().push(s);
            }
        }
        let groups = by.into_values().collect();
        Ok(Ready { c, n, out, reveals, targets, groups, lib_targets })
    }
    pub fn chosen_targets(&self) -> usize {
        self.targets.len()
    }
    /// A dishonest prover's choice of values.
    pub fn dishonest(&self, r: &mut Rng, honest: &[u64]) -> Vec<(Sig, u64)> {
        let mut picks: Vec<Sig> = vec![];
        if self.targets.is_empty() || r.chance(1, 10) {
            for _ in 0..1 + r.us(2) {
                if !self.lib_targets.is_empty() {
                    picks.push(*r.pick(&self.lib_targets));
                }
            }
        } else if r.chance(1, 2) {
            let g = r.pick(&self.groups);
            if r.chance(1, 3) {
                picks.extend(g);
            } else {
                for _ in 0..1 + r.skew(6) as usize {
                    picks.push(*r.pick(g));
                }
            }
        } else {
            for _ in 0..1 + r.skew(8) as usize {
                picks.push(*r.pick(&self.targets));
            }
        }
        let way = r.below(6);
        let one = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => circom::P - 1,
            4 => r.below(256),
            _ => r.next() % circom::P,
        };
        let mut v: Vec<(Sig, u64)> = vec![];
        for s in picks {
            if v.iter().any(|x| x.0 == s) {
                continue;
            }
            let h = honest[s as usize];
            let x = match way {
                0 | 1 => one,
                2 => {
                    if h == 0 {
                        1
                    } else {
                        0
                    }
                }
                3 => circom::add(h, one),
                4 => r.below(4),
                _ => {
                    if r.chance(1, 2) {
                        1
                    } else {
                        0
                    }
                }
            };
            v.push((s, x));
        }
        v
    }
    /// What the circuit lets a dishonest prover claim of another message: all of it, or only in some places.
    pub fn pretend(&self, r: &mut Rng, honest: &[u64], other: &[i64]) -> Vec<(Sig, u64)> {
        let lib = r.chance(1, 12);
        if self.targets.is_empty() && !lib {
            return self.dishonest(r, honest);
        }
        let w = self.prove(other, &[]).all;
        let mut all: Vec<Sig> = self.targets.iter().copied().filter(|s| w[*s as usize] != honest[*s as usize]).collect();
        if lib {
            all.extend(self.lib_targets.iter().copied().filter(|s| w[*s as usize] != honest[*s as usize]));
        }
        match r.below(8) {
            0 if !all.is_empty() => all = vec![*r.pick(&all)],
            1 => {
                let (k, of) = (r.below(3), 3);
                all.retain(|_| r.below(of) != k);
            }
            2 if !all.is_empty() => {
                let o = self.c.origin[*r.pick(&all) as usize];
                all.retain(|s| self.c.origin[*s as usize] == o);
            }
            _ => {}
        }
        all.into_iter().map(|s| (s, w[s as usize])).collect()
    }
    pub fn prove(&self, msg: &[i64], choose: &[(Sig, u64)]) -> Proof {
        let input: Vec<u64> = msg.iter().map(|x| circom::field(*x)).collect();
        let map: HashMap<Sig, u64> = choose.iter().copied().collect();
        let w = self.c.witness(&input, &map);
        Proof {
            accepted: w.broken.is_none(),
            broken: w.broken,
            out: w.v[self.out as usize],
            reveals: self.reveals.iter().map(|r| r.iter().map(|s| w.v[*s as usize]).collect()).collect(),
            all: w.v,
        }
    }
}
pub struct Proof {
    pub accepted: bool,
    pub broken: Option<usize>,
    pub out: u64,
    pub reveals: Vec<Vec<u64>>,
    pub all: Vec<u64>,
}
/// The message masked to the marked bytes.
pub fn masked(msg: &[i64], mark: &[bool]) -> Vec<u64> {
    msg.iter().zip(mark).map(|(b, m)| if *m { circom::field(*b) } else { 0 }).collect()
}

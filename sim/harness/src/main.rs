//! zksim: deterministic simulation of zk-regex in its surroundings.
mod circ;
mod circom;
mod def;
mod fs;
mod image;
mod lab;
mod re;
mod repro;
mod rng;
mod run;
mod sim;
mod world;
mod zk;
use std::path::PathBuf;

pub fn repo() -> String {
    std::env::var("ZKSIM_REPO").unwrap_or_else(|_| "/repo".into())
}
fn num<T: std::str::FromStr>(k: &str) -> Option<T> {
    std::env::var(k).ok().and_then(|s| s.parse().ok())
}

fn main() {
    sim::fix_address_space();
    let verif = PathBuf::from(std::env::var("ZKSIM_VERIF").unwrap_or_else(|_| "/verif".into()));
    let target = std::env::var("ZKSIM_TARGET").map(PathBuf::from).unwrap_or_else(|_| verif.join("sim/target"));
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let cfg = run::Config {
        paths: sim::Paths {
            shim: target.join("shim.so"),
            cli: target.join("driver/release/zk-regex"),
            driver: target.join("driver/release/driver"),
            threads: target.join("threads/release/driver"),
        },
        verif,
        seed: num("VERIF_SEED").unwrap_or(1),
        secs: num("ZKSIM_SECS").unwrap_or(if tier == "thorough" { 1200.0 } else { 50.0 }),
        threads: num("ZKSIM_THREADS").unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
        max_episodes: num("ZKSIM_EPISODES").unwrap_or(u64::MAX),
        tier,
    };
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(String::as_str), a.get(2)) {
        (Some("check"), Some(p)) => run::check(&cfg, p),
        (Some("replay"), Some(p)) => run::replay(&cfg, p),
        (Some("episode"), Some(p)) => {
            // one episode again: zksim episode C01 17
            let mut lab = lab::Lab::new(&cfg.paths);
            let ep = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
            match run::episode(&cfg, p, ep, &mut lab) {
                Ok((h, b)) => {
                    println!("{}", serde_json::to_string_pretty(&h).unwrap());
                    println!("trace {:016x}", lab.trace);
                    println!("{b:?}");
                    b.is_some() as i32
                }
                Err(e) => {
                    println!("{}", e.0);
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: zksim check ID | replay FILE | episode ID NUMBER");
            2
        }
    };
    std::process::exit(code);
}

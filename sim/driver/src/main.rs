//! A user of the zk-regex libraries: makes the calls of a script, from several threads if asked to,
//! and prints the result of each.
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::thread;
use zk_regex_apis::{extract_substrs as ex, padding::pad_string};

fn opt<'a>(v: &'a Value, k: &str) -> Option<&'a str> {
    v.get(k).and_then(Value::as_str)
}

fn result<T, E: std::fmt::Display>(r: Result<T, E>, show: impl Fn(T) -> Value) -> Value {
    match r {
        Ok(v) => json!({ "ok": show(v) }),
        Err(e) => json!({ "err": e.to_string() }),
    }
}
fn pairs(v: Vec<(usize, usize)>) -> Value {
    json!(v.iter().map(|p| vec![p.0, p.1]).collect::<Vec<_>>())
}

fn call(op: &Value) -> Value {
    let s = |k: &str| opt(op, k).unwrap_or("");
    let gen = op.get("gen").and_then(Value::as_bool);
    let private = op.get("private").and_then(Value::as_bool).unwrap_or(false);
    match s("op") {
        "decomposed" => result(
            zk_regex_compiler::gen_from_decomposed(s("def"), opt(op, "halo2"), opt(op, "circom"), opt(op, "template"), gen),
            |_| json!(null),
        ),
        "raw" => result(
            zk_regex_compiler::gen_from_raw(s("raw"), opt(op, "substrs"), opt(op, "halo2"), opt(op, "circom"), opt(op, "template"), gen),
            |_| json!(null),
        ),
        "struct" => match serde_json::from_value::<zk_regex_compiler::DecomposedRegexConfig>(op["config"].clone()) {
            Err(e) => json!({ "baddef": e.to_string() }),
            Ok(mut c) => result(
                zk_regex_compiler::gen_circom_from_decomposed_regex(&mut c, opt(op, "circom"), opt(op, "template"), gen),
                |_| json!(null),
            ),
        },
        "idxes" | "substr" => match serde_json::from_value::<ex::DecomposedRegexConfig>(op["config"].clone()) {
            Err(e) => json!({ "baddef": e.to_string() }),
            Ok(c) => {
                if s("op") == "idxes" {
                    result(ex::extract_substr_idxes(s("input"), &c, private), pairs)
                } else {
                    result(ex::extract_substr(s("input"), &c, private), |v| json!(v))
                }
            }
        },
        "named" => {
            let i = s("input");
            let r = match s("name") {
                "email_addr" => ex::extract_email_addr_idxes(i),
                "email_domain" => ex::extract_email_domain_idxes(i),
                "from_all" => ex::extract_from_all_idxes(i),
                "from_addr" => ex::extract_from_addr_idxes(i),
                "to_all" => ex::extract_to_all_idxes(i),
                "to_addr" => ex::extract_to_addr_idxes(i),
                "subject_all" => ex::extract_subject_all_idxes(i),
                "body_hash" => ex::extract_body_hash_idxes(i),
                "timestamp" => ex::extract_timestamp_idxes(i),
                "message_id" => ex::extract_message_id_idxes(i),
                n => return json!({ "badname": n }),
            };
            result(r, pairs)
        }
        "pad" => json!({ "ok": pad_string(s("input"), op["size"].as_u64().unwrap_or(0) as usize) }),
        o => json!({ "badop": o }),
    }
}

fn guarded(op: &Value) -> Value {
    match catch_unwind(AssertUnwindSafe(|| call(op))) {
        Ok(v) => v,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            json!({ "panic": m })
        }
    }
}

extern "C" {
    fn dlsym(handle: *mut std::ffi::c_void, name: *const std::os::raw::c_char) -> *mut std::ffi::c_void;
}
/// Memory held, open files, threads; and the simulator starts a new round.
fn round() -> [i64; 3] {
    type F = unsafe extern "C" fn(*mut u64, *mut u64) -> u64;
    unsafe {
        let p = dlsym(std::ptr::null_mut(), b"zksim_round\0".as_ptr() as *const _);
        if p.is_null() {
            return [0; 3];
        }
        let f: F = std::mem::transmute(p);
        let (mut fds, mut threads) = (0, 0);
        let live = f(&mut fds, &mut threads);
        [live as i64, fds as i64, threads as i64]
    }
}
/// The call with its blanks filled in, with another text each time.
fn filled(op: &Value, serial: usize) -> Value {
    let mut k = serial;
    let mut text = String::new();
    for i in 0..4 {
        text.push((b'a' + ((k * 7 + i) % 26) as u8) as char);
        k = k / 26 + i;
    }
    serde_json::from_str(&op.to_string().replace("@@@@", &text)).expect("a call")
}
/// The same calls over and over, nothing kept. Calls with blanks are of the same size each time, and
/// another call each time.
fn rounds(ops: &[Value], n: usize, times: usize) {
    let mut held: Vec<[i64; 3]> = Vec::with_capacity(n + 1);
    let mut good: Vec<u64> = Vec::with_capacity(n + 1);
    let mut serial = 0;
    held.push(round());
    for _ in 0..n {
        let mut ok = 0;
        for o in ops {
            for _ in 0..times {
                let r = if times > 1 { guarded(&filled(o, serial)) } else { guarded(o) };
                serial += 1;
                ok += r.get("ok").is_some() as u64;
            }
        }
        good.push(ok);
        held.push(round());
    }
    println!("{}", json!({ "held": held, "good": good }));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let script: Value = serde_json::from_str(&std::env::args().nth(1).expect("script")).expect("script");
    let threads = script["threads"].as_array().expect("threads").clone();
    if let Some(n) = script["rounds"].as_u64() {
        return rounds(threads[0].as_array().expect("calls"), n as usize, script["times"].as_u64().unwrap_or(1) as usize);
    }
    let results: Vec<Value> = if threads.len() == 1 {
        vec![threads[0].as_array().unwrap().iter().map(guarded).collect()]
    } else {
        let handles: Vec<_> = threads
            .into_iter()
            .map(|t| thread::spawn(move || t.as_array().unwrap().iter().map(guarded).collect::<Value>()))
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| json!("thread died"))).collect()
    };
    // calls made when all threads have ended
    let after: Option<Value> = script["after"].as_array().map(|a| a.iter().map(guarded).collect());
    println!("{}", json!({ "threads": results, "after": after }));
}

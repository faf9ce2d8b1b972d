//! vharness: bounded search for failing inputs against the real weaver crates.
//!
//! usage: vharness <PROPERTY> --seed N --secs S --out FILE [--replay FILE] [--max N]
//! Every case is a function of (suite, index, seed): a replay names those three.
#[cfg(any(feature = "a06", feature = "a07", feature = "a08"))]
mod live;
#[cfg(any(feature = "a02", feature = "a15"))]
mod gen;
mod reg;
mod rng;
mod suites;

use rng::Rng;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// A failing input.
pub struct Fail {
    pub input: Value,
    pub msg: String,
}
pub type R = Result<(), Fail>;

/// One family of cases.
pub struct Suite {
    pub name: &'static str,
    /// `Some(n)`: the cases 0..n are all there are; `None`: random, as many as time allows
    pub total: Option<u64>,
    pub run: fn(&mut Rng, u64) -> R,
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $input:expr, $($a:tt)*) => { if !$c { return Err($crate::Fail { input: $input, msg: format!($($a)*) }); } };
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn one(s: &Suite, seed: u64, idx: u64) -> R {
    let mut rng = Rng::new(seed ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ fnv(s.name));
    match catch_unwind(AssertUnwindSafe(|| (s.run)(&mut rng, idx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Fail { input: json!({"suite": s.name, "index": idx, "seed": seed}), msg: format!("panic: {m}") })
        }
    }
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let max: u64 = opt("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    #[cfg(feature = "a14")]
    if prop == "A14" && std::env::var_os("VH_SCRATCH").is_none() {
        std::process::exit(suites::a14::confined(&args));
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let suites = suites::of(&prop);
    if suites.is_empty() {
        eprintln!("no suites for {prop}");
        std::process::exit(3);
    }
    if let Some(f) = opt("--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
        let v = v.get("failing_input").unwrap_or(&v);
        let s = suites.iter().find(|s| v["suite"] == s.name).expect("suite");
        match one(s, v["seed"].as_u64().unwrap(), v["index"].as_u64().unwrap()) {
            Ok(()) => {
                println!("replay: the property holds on this input");
            }
            Err(f) => {
                println!("replay: FAILS: {}\ninput: {}", f.msg, serde_json::to_string_pretty(&f.input).unwrap());
                std::process::exit(1);
            }
        }
        return;
    }
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let start = Instant::now();
    let mut summary = vec![];
    let fails: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let n_random = suites.iter().filter(|s| s.total.is_none()).count().max(1) as f64;
    for s in &suites {
        let t0 = Instant::now();
        let budget = Duration::from_secs_f64(secs / n_random);
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                let _ = sc.spawn(|| loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let idx = next.fetch_add(1, Ordering::Relaxed);
                    if idx >= s.total.unwrap_or(u64::MAX).min(max) || (s.total.is_none() && t0.elapsed() > budget) {
                        break;
                    }
                    if let Err(f) = one(s, seed, idx) {
                        let mut g = fails.lock().unwrap();
                        if g.len() < 5 {
                            g.push(json!({"suite": s.name, "index": idx, "seed": seed, "message": f.msg, "input": f.input}));
                        }
                        stop.store(true, Ordering::Relaxed);
                    }
                    let _ = done.fetch_add(1, Ordering::Relaxed);
                });
            }
        });
        summary.push(json!({"suite": s.name, "cases": done.load(Ordering::Relaxed), "exhaustive": s.total.is_some(), "wall_s": t0.elapsed().as_secs_f64()}));
    }
    let fails = fails.into_inner().unwrap();
    let out = json!({"property": prop, "seed": seed, "suites": summary, "failures": fails, "wall_s": start.elapsed().as_secs_f64()});
    let text = serde_json::to_string_pretty(&out).unwrap();
    match opt("--out") {
        Some(p) => std::fs::write(p, text).expect("write"),
        None => println!("{text}"),
    }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}

//! conform SUITE SCRIPTS TRACES: executes every script (one JSON object per
//! line: `{"cfg":..,"ev":[{"op":..,..}]}`) against the real code and writes the
//! same lines with an `obs` record added to every event. A panic of the code
//! under test is recorded as `{"r":"PANIC"}` and ends that script; a call that
//! does not return is recorded as `{"r":"HANG"}` and ends the run.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub trait Sut {
    fn step(&mut self, op: &Value) -> Value;
}

/// Field accessors: a script that lacks a field is a bug of the generator.
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("SCRIPT: field {k} missing in {v}"))
}
pub fn it(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("SCRIPT: field {k} missing in {v}"))
}
pub fn bo(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or_else(|| panic!("SCRIPT: field {k} missing in {v}"))
}
pub fn has(v: &Value, k: &str) -> bool {
    !v[k].is_null()
}

pub type Maker = fn(&Value) -> Box<dyn Sut>;

static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn drive(maker: fn(&str) -> Option<Maker>) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 {
        eprintln!("usage: conform SUITE SCRIPTS TRACES");
        std::process::exit(2);
    }
    let Some(make) = maker(&args[1]) else {
        eprintln!("unknown suite {}", args[1]);
        std::process::exit(2);
    };
    let input = std::io::BufReader::new(std::fs::File::open(&args[2]).expect("scripts"));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(
        std::fs::File::create(&args[3]).expect("traces"),
    )));
    // The trace under construction, for the watchdog.
    let cur: Arc<Mutex<(Value, Vec<Value>, Value)>> =
        Arc::new(Mutex::new((Value::Null, vec![], Value::Null)));
    {
        let (out, cur) = (out.clone(), cur.clone());
        let limit: u64 = std::env::var("CONFORM_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        std::thread::spawn(move || {
            let mut last = (PROGRESS.load(SeqCst), 0u64);
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                let p = PROGRESS.load(SeqCst);
                last = if p == last.0 { (p, last.1 + 1) } else { (p, 0) };
                if last.1 >= limit {
                    let c = cur.lock().unwrap();
                    let mut ev = c.1.clone();
                    let mut e = c.2.clone();
                    e["obs"] = json!({"r":"HANG"});
                    ev.push(e);
                    let mut o = out.lock().unwrap();
                    let _ = writeln!(o, "{}", json!({"cfg": c.0, "ev": ev}));
                    let _ = o.flush();
                    std::process::exit(0);
                }
            }
        });
    }
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        if s.contains("SCRIPT:") || std::env::var("CONFORM_VERBOSE").is_ok() {
            eprintln!("{s}");
        }
        if s.contains("SCRIPT:") {
            std::process::exit(2);
        }
    }));
    for line in input.lines() {
        let line = line.expect("read");
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("script json");
        crate::clock::freeze();
        let cfg = v["cfg"].clone();
        *cur.lock().unwrap() = (cfg.clone(), vec![], Value::Null);
        let mut sut = match catch_unwind(AssertUnwindSafe(|| make(&cfg))) {
            Ok(s) => s,
            Err(_) => {
                let mut e = v["ev"][0].clone();
                e["obs"] = json!({"r":"PANIC"});
                writeln!(out.lock().unwrap(), "{}", json!({"cfg": cfg, "ev": [e]})).unwrap();
                continue;
            }
        };
        let mut evs = vec![];
        for e in v["ev"].as_array().expect("ev") {
            PROGRESS.fetch_add(1, SeqCst);
            cur.lock().unwrap().2 = e.clone();
            let r = catch_unwind(AssertUnwindSafe(|| sut.step(e)));
            let dead = r.is_err();
            let mut e = e.clone();
            // A step may add facts to the event itself ("ev" wrapper).
            let mut r = r.unwrap_or_else(|_| json!({"r":"PANIC"}));
            if let Some(extra) = r.as_object_mut().and_then(|m| m.remove("_ev")) {
                for (k, x) in extra.as_object().unwrap() {
                    e[k] = x.clone();
                }
            }
            e["obs"] = r;
            evs.push(e.clone());
            cur.lock().unwrap().1.push(e);
            if dead {
                break;
            }
        }
        PROGRESS.fetch_add(1, SeqCst);
        let _ = catch_unwind(AssertUnwindSafe(move || drop(sut)));
        writeln!(out.lock().unwrap(), "{}", json!({"cfg": cfg, "ev": evs})).unwrap();
    }
    out.lock().unwrap().flush().unwrap();
}

//! Suite `ratelimit`: sip-ratelimit's limiters under the virtual clock.
use crate::{bo, clock, it, st, Sut};
use serde_json::{json, Value};
use sip_ratelimit::{RateLimitConfig, RateLimiter, RateLimiterSet};
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier};
use std::time::Duration;

struct S {
    set: Option<RateLimiterSet>,
    lims: BTreeMap<String, RateLimiter>,
    fillers: u64,
}

fn config(c: &Value) -> RateLimitConfig {
    if !bo(c, "on") && it(c, "max") == 0 {
        return RateLimitConfig::disabled();
    }
    RateLimitConfig::new(it(c, "max") as u32, it(c, "win") as u64)
        .expect("config")
        .with_burst_capacity(it(c, "burst") as u32)
        .expect("burst")
        .with_idle_timeout(it(c, "idle") as u64)
        .with_enabled(bo(c, "on"))
}

pub fn make(cfg: &Value) -> Box<dyn Sut> {
    let names = cfg.as_object().expect("cfg");
    let mut s = S { set: None, lims: BTreeMap::new(), fillers: 0 };
    if names.contains_key("auth") {
        let get = |n: &str| config(&cfg[n]);
        // `preset` marks configurations that must equal the documented defaults.
        let set = if cfg["auth"]["preset"].as_bool() == Some(true) {
            RateLimiterSet::new()
        } else {
            RateLimiterSet::with_configs(get("auth"), get("register"), get("invite"), get("connections"))
        };
        s.lims.insert("auth".into(), set.auth().clone());
        s.lims.insert("register".into(), set.register().clone());
        s.lims.insert("invite".into(), set.invite().clone());
        s.lims.insert("connections".into(), set.connections().clone());
        s.set = Some(set);
    } else {
        for (n, c) in names {
            s.lims.insert(n.clone(), RateLimiter::new(config(c)));
        }
    }
    Box::new(s)
}

impl Sut for S {
    fn step(&mut self, op: &Value) -> Value {
        let name = st(op, "op");
        match name {
            "tick" => {
                clock::advance_ms(it(op, "dt"));
                return json!({"r":"ok"});
            }
            "cleanup_all" => {
                let n = match &self.set {
                    Some(s) => s.cleanup_idle(),
                    None => self.lims.values().map(|l| l.cleanup_idle()).sum(),
                };
                return json!({"r":"n","n":n});
            }
            _ => {}
        }
        let l = &self.lims[st(op, "l")];
        match name {
            "check" => {
                let k = st(op, "k");
                let ok = match k.parse() {
                    Ok(ip) => l.check_by_ip(ip),
                    Err(_) => l.check_rate_limit(k),
                };
                json!({"r": if ok {"allow"} else {"block"}})
            }
            "checks" => {
                let n = (0..it(op, "n")).filter(|_| l.check_rate_limit(st(op, "k"))).count();
                json!({"r":"n","n":n})
            }
            "fill" => {
                let mut n = 0;
                for _ in 0..it(op, "n") {
                    self.fillers += 1;
                    n += l.check_rate_limit(&format!("filler-{}", self.fillers)) as u64;
                }
                json!({"r":"n","n":n})
            }
            "storm" => {
                let ks: Vec<String> =
                    op["ks"].as_array().unwrap().iter().map(|k| k.as_str().unwrap().to_string()).collect();
                let (n, threads) = (it(op, "n"), it(op, "threads"));
                assert!(n % threads == 0, "SCRIPT: n must divide");
                let bar = Arc::new(Barrier::new(threads as usize));
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        let (l, ks, bar) = (l.clone(), ks.clone(), bar.clone());
                        std::thread::spawn(move || {
                            let mut c = vec![0u64; ks.len()];
                            bar.wait();
                            for i in 0..n / threads {
                                for j in 0..ks.len() {
                                    let j = (j + t as usize) % ks.len();
                                    c[j] += l.check_rate_limit(&ks[j]) as u64;
                                }
                                if t == 0 && i % 4 == 0 {
                                    l.remaining_tokens(&ks[0]);
                                    l.get_limit_info(&ks[0]);
                                    l.should_log_blocked("nobody", Duration::from_secs(1 << 31));
                                }
                            }
                            c
                        })
                    })
                    .collect();
                let mut c = vec![0u64; ks.len()];
                for h in hs {
                    for (a, b) in c.iter_mut().zip(h.join().expect("storm thread")) {
                        *a += b;
                    }
                }
                json!({"r":"storm","c":c})
            }
            "bad" => {
                let k = match op["kind"].as_str().unwrap_or("long") {
                    "long" => "k".repeat(257),
                    "nl" => "k\nx".to_string(),
                    "nul" => "k\0".to_string(),
                    _ => "k\u{85}".to_string(),
                };
                json!({"r": if l.check_rate_limit(&k) {"allow"} else {"block"}})
            }
            "remaining" => match l.remaining_tokens(st(op, "k")) {
                None => json!({"r":"none"}),
                Some(n) => json!({"r":"n","n":n}),
            },
            "info" => match l.get_limit_info(st(op, "k")) {
                None => json!({"r":"none"}),
                Some(i) => json!({"r":"info","limit":i.limit(),"n":i.remaining(),
                                  "wait":i.retry_after(),"at":i.reset_at()}),
            },
            "log" => match l.should_log_blocked(st(op, "k"), Duration::from_secs(it(op, "min") as u64)) {
                None => json!({"r":"none"}),
                Some(n) => json!({"r":"n","n":n}),
            },
            "cleanup" => json!({"r":"n","n":l.cleanup_idle()}),
            "reset" => {
                l.reset(st(op, "k"));
                json!({"r":"ok"})
            }
            "clear" => {
                l.clear();
                json!({"r":"ok"})
            }
            "count" => json!({"r":"n","n":l.active_count()}),
            "metrics" => {
                let m = l.metrics();
                json!({"r":"m","m":{"tot":m.total_checks(),"all":m.allowed_requests(),
                                    "blk":m.blocked_requests(),"run":m.cleanup_runs()}})
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

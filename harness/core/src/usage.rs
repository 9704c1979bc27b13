//! Suites `prack`, `timers` and `subs`: reliable provisionals, session timers
//! and subscriptions of sip-dialog.
use crate::{bo, dialog::cseq, has, it, msg, st, Sut};
use serde_json::{json, Value};
use sip_core::{MinSessionExpires, RefresherRole, Request, Response, SessionExpires, SipUri};
use sip_dialog::prack_validator::{PrackValidator, RAck};
use sip_dialog::session_timer_manager as stm;
use sip_dialog::{DialogId, RSeqManager, Subscription, SubscriptionId, SubscriptionManager, SubscriptionState};
use std::collections::HashMap;
use std::sync::{Arc, Barrier};
use std::time::Duration;

fn did(k: &str) -> DialogId {
    DialogId::unchecked_new(k, "l", "r")
}

// ------------------------------------------------------------------ prack
struct Prack {
    v: PrackValidator,
    r: RSeqManager,
    first: HashMap<String, u32>,
}
pub fn make_prack(_: &Value) -> Box<dyn Sut> {
    Box::new(Prack { v: PrackValidator::new(), r: RSeqManager::new(), first: HashMap::new() })
}

/// RAck values: form 0 and 1 are well-formed, the others are not.
fn rack(op: &Value) -> Option<String> {
    let (r, c, m) = (it(op, "rseq"), it(op, "cseq"), st(op, "method"));
    Some(match it(op, "form") {
        0 => format!("{r} {c} {m}"),
        1 => format!("  {r}   {c}  {m} "),
        2 => format!("{r} {c}"),
        3 => format!("{r} {c} {m} x"),
        4 => format!("{r}x {c} {m}"),
        5 => format!("{r} {c}.0 {m}"),
        6 => format!("-{r} {c} {m}"),
        7 => format!("{} {c} {m}", r as i128 + (1i128 << 32)),
        8 => format!("{r} {} {m}", c as i128 + (1i128 << 32)),
        9 => format!("{r} {c} BOGUS"),
        10 => String::new(),
        _ => return None,
    })
}

impl Sut for Prack {
    fn step(&mut self, op: &Value) -> Value {
        let d = op["d"].as_str().unwrap_or("");
        match st(op, "op") {
            "reg" => {
                let m = sip_core::Method::from_token(st(op, "method")).unwrap();
                self.v.register_reliable_provisional(d, it(op, "rseq") as u32, it(op, "cseq") as u32, m, it(op, "code") as u16);
                json!({"r":"ok"})
            }
            "prack" => {
                let mut h = vec![("Call-ID".to_string(), "c".to_string())];
                if let Some(v) = rack(op) {
                    h.push((if it(op, "form") == 0 { "RAck" } else { "rack" }.into(), v));
                }
                let r: Request = msg::request("PRACK", "sip:bob@example.com", &h);
                match self.v.validate_prack(d, &r) {
                    Ok(a) => json!({"r":"ok","rseq":a.rseq,"cseq":a.cseq,"method":a.method.as_str()}),
                    Err(_) => json!({"r":"refused"}),
                }
            }
            "is" => json!({"r": if self.v.is_pracked(d, it(op, "rseq") as u32) {"yes"} else {"no"}}),
            "pending" => {
                let v: Vec<Value> = self.v.get_pending(d).iter().map(|(r, c)| json!([r, c])).collect();
                json!({"r":"list","v":v})
            }
            "rmd" => {
                self.v.remove_dialog(d);
                json!({"r":"ok"})
            }
            "rmp" => {
                self.v.remove_pracked(d, it(op, "rseq") as u32);
                json!({"r":"ok"})
            }
            "tick" => {
                crate::clock::advance_ms(it(op, "dt"));
                json!({"r":"ok"})
            }
            "rack" => match rack(op).map(|v| RAck::parse(&v)) {
                Some(Ok(a)) => {
                    let again = RAck::parse(&a.format()).ok().as_ref() == Some(&a) && a.to_string() == a.format();
                    json!({"r": if again {"ok"} else {"changed"},"rseq":a.rseq,"cseq":a.cseq,"method":a.method.as_str()})
                }
                _ => json!({"r":"refused"}),
            },
            // -- RSeq numbers: reported relative to the first one of the dialog
            "rseq" => {
                let n = self.r.next_rseq(&did(d));
                match self.first.get(d) {
                    None => {
                        self.first.insert(d.to_string(), n);
                        json!({"r": if (1..=0x7fff_ffff).contains(&n) {"first"} else {"bad"}})
                    }
                    Some(f) => json!({"r":"n","n": n as i64 - *f as i64}),
                }
            }
            "cur" => match self.r.current_rseq(&did(d)) {
                None => json!({"r":"none"}),
                Some(n) => json!({"r":"n","n": n as i64 - *self.first.get(d).unwrap_or(&0) as i64}),
            },
            "rrm" => {
                self.r.remove(&did(d));
                self.first.remove(d);
                json!({"r":"ok"})
            }
            "rlen" => json!({"r": if self.r.is_empty() == (self.r.len() == 0) {"n"} else {"bad"},"n":self.r.len()}),
            // first numbers of many dialogs: all in range, not all alike
            "rand" => {
                let v: Vec<u32> = (0..it(op, "n")).map(|i| self.r.next_rseq(&did(&format!("rand{i}")))).collect();
                for i in 0..it(op, "n") {
                    self.r.remove(&did(&format!("rand{i}")));
                }
                let mut w = v.clone();
                w.sort_unstable();
                w.dedup();
                let spread = w.len() as i64 * 2 > it(op, "n");
                json!({"r": if spread && v.iter().all(|n| (1..=0x7fff_ffff).contains(n)) {"ok"} else {"bad"}})
            }
            // numbers drawn by eight threads for one dialog are all different
            "rstorm" => {
                let bar = Arc::new(Barrier::new(8));
                let hs: Vec<_> = (0..8)
                    .map(|_| {
                        let (r, b, i, n) = (self.r.clone(), bar.clone(), did(d), it(op, "n"));
                        std::thread::spawn(move || {
                            b.wait();
                            (0..n).map(|_| r.next_rseq(&i)).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                let mut all: Vec<u32> = vec![];
                let mut up = true;
                for h in hs {
                    let v = h.join().unwrap();
                    up &= v.windows(2).all(|w| w[0] < w[1]);
                    all.extend(v);
                }
                all.sort_unstable();
                let f = *self.first.entry(d.to_string()).or_insert(all[0]);
                let exact = all.windows(2).all(|w| w[1] == w[0] + 1);
                json!({"r": if up && exact {"n"} else {"bad"}, "n": all[all.len() - 1] as i64 - f as i64})
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

// ----------------------------------------------------------------- timers
struct Timers {
    rt: tokio::runtime::Runtime,
    m: stm::SessionTimerManager,
    rx: tokio::sync::mpsc::UnboundedReceiver<stm::SessionTimerEvent>,
}
pub fn make_timers(_: &Value) -> Box<dyn Sut> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let (m, rx) = rt.block_on(async {
        let m = stm::SessionTimerManager::new();
        let rx = m.subscribe().await;
        (m, rx)
    });
    Box::new(Timers { rt, m, rx })
}

async fn settle() {
    for _ in 0..50 {
        tokio::task::yield_now().await;
    }
}
fn drain(rx: &mut tokio::sync::mpsc::UnboundedReceiver<stm::SessionTimerEvent>) -> Vec<Value> {
    let mut v = vec![];
    while let Ok(e) = rx.try_recv() {
        v.push(match e {
            stm::SessionTimerEvent::RefreshNeeded(d) => json!(["refresh", d.call_id()]),
            stm::SessionTimerEvent::SessionExpired(d) => json!(["expired", d.call_id()]),
        });
    }
    v
}
fn act(m: &stm::SessionTimerManager, op: &Value, what: &str) {
    let k = did(st(op, "k"));
    match what {
        "start" => m.start_timer(k, Duration::from_millis(it(op, "se") as u64), bo(op, "ref")),
        "refresh" => m.refresh_timer(k, Duration::from_millis(it(op, "se") as u64), bo(op, "ref")),
        _ => m.stop_timer(&k),
    }
}
fn secs(n: i64) -> Option<Duration> {
    (n >= 0).then(|| Duration::from_secs(n as u64))
}
fn verdict(r: Result<Duration, Duration>) -> Value {
    match r {
        Ok(d) => json!({"r":"ok","n":d.as_secs()}),
        Err(d) => json!({"r":"refused","n":d.as_secs()}),
    }
}
fn role(r: Option<RefresherRole>) -> &'static str {
    r.map_or("", |r| r.as_str())
}

impl Sut for Timers {
    fn step(&mut self, op: &Value) -> Value {
        let (m, rx) = (&self.m, &mut self.rx);
        match st(op, "op") {
            o @ ("start" | "refresh" | "stop") => {
                self.rt.block_on(async {
                    act(m, op, o);
                    settle().await;
                });
                json!({"r":"ok"})
            }
            "tick" => self.rt.block_on(async {
                tokio::time::sleep(Duration::from_millis(it(op, "dt") as u64)).await;
                settle().await;
                json!({"r":"events","v":drain(rx)})
            }),
            // the operation is issued at the very instant other events fall due
            "race" => self.rt.block_on(async {
                tokio::time::sleep(Duration::from_millis(it(op, "dt") as u64)).await;
                let a = drain(rx);
                act(m, op, st(op, "what"));
                settle().await;
                json!({"r":"race","v":a,"w":drain(rx)})
            }),
            // as above, but with due events already being handled
            "race2" => self.rt.block_on(async {
                tokio::time::sleep(Duration::from_millis(it(op, "dt") as u64)).await;
                tokio::task::yield_now().await;
                let a = drain(rx);
                act(m, op, st(op, "what"));
                settle().await;
                json!({"r":"race","v":a,"w":drain(rx)})
            }),
            "has" => json!({"r": if m.has_timer(&did(st(op, "k"))) {"yes"} else {"no"}}),
            "left" => self.rt.block_on(async {
                match m.time_remaining(&did(st(op, "k"))) {
                    None => json!({"r":"none"}),
                    Some(d) => json!({"r":"n","n":d.as_millis() as u64}),
                }
            }),
            "count" => json!({"r":"n","n":m.active_count()}),
            "clear" => {
                self.rt.block_on(async {
                    m.clear();
                    settle().await;
                });
                json!({"r":"ok"})
            }
            "fill" => {
                self.rt.block_on(async {
                    for i in 0..it(op, "n") {
                        m.start_timer(did(&format!("fill{i}")), Duration::from_secs(1_000_000), false);
                    }
                });
                json!({"r":"n","n":m.active_count()})
            }
            // -- negotiation
            "valid" => verdict(stm::validate_session_expires(secs(it(op, "se")).unwrap(), secs(it(op, "min")))),
            "nego" => verdict(stm::negotiate_session_expires(
                secs(it(op, "se")).unwrap(), secs(it(op, "lmin")).unwrap(), secs(it(op, "rmin")), secs(it(op, "pref")))),
            "role" => {
                let p = st(op, "p");
                let p = if p == "-" { None } else { Some(p) };
                json!({"r":"role","uac":stm::determine_refresher_role(p, true),"uas":stm::determine_refresher_role(p, false)})
            }
            "half" => json!({"r":"n","n":stm::calculate_refresh_time(Duration::from_millis(it(op, "ms") as u64)).as_millis() as u64}),
            "senew" => match SessionExpires::new(it(op, "n") as u32) {
                Ok(s) => json!({"r":"ok","n":s.delta_seconds(),"rf":role(s.refresher())}),
                Err(_) => json!({"r":"refused"}),
            },
            "minnew" => match MinSessionExpires::new(it(op, "n") as u32) {
                Ok(s) => json!({"r":"ok","n":s.delta_seconds()}),
                Err(_) => json!({"r":"refused"}),
            },
            "separse" => {
                let n = it(op, "n");
                let p = st(op, "rf");
                let t = match it(op, "form") {
                    0 if p.is_empty() => format!("{n}"),
                    0 => format!("{n};refresher={p}"),
                    1 => format!(" {n} ; x ; Refresher = {p};y=z"),
                    2 => format!("{n};x=refresher=nobody;refresher={p}"),
                    3 => format!("{n}s;refresher={p}"),
                    4 => format!(";refresher={p}"),
                    5 => format!("{n};refresher={p}\r\nX: y"),
                    6 => format!("-{n};refresher={p}"),
                    7 => format!("{};refresher={p}", n as i128 + (1i128 << 32)),
                    _ => format!("{n}.5;refresher={p}"),
                };
                match SessionExpires::parse(&t) {
                    None => json!({"r":"refused"}),
                    Some(s) => {
                        let same = SessionExpires::parse(&s.to_string()) == Some(s.clone())
                            && s.is_valid()
                            && sip_parse::parse_session_expires(&t.as_str().into()) == Some(s.clone());
                        json!({"r": if same {"ok"} else {"changed"},"n":s.delta_seconds(),"rf":role(s.refresher())})
                    }
                }
            }
            "minparse" => {
                let n = it(op, "n");
                let t = match it(op, "form") {
                    0 => format!("{n}"),
                    1 => format!("  {n} "),
                    2 => format!("{n}\n"),
                    3 => format!("-{n}"),
                    4 => format!("{}", n as i128 + (1i128 << 32)),
                    _ => format!("{n};x"),
                };
                match MinSessionExpires::parse(&t) {
                    None => json!({"r":"refused"}),
                    Some(s) => {
                        let same = MinSessionExpires::parse(&s.to_string()) == Some(s.clone()) && s.is_valid();
                        json!({"r": if same {"ok"} else {"changed"},"n":s.delta_seconds()})
                    }
                }
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

// ------------------------------------------------------------------- subs
struct Subs {
    s: HashMap<String, Subscription>,
    m: SubscriptionManager,
    fill: u64,
}
pub fn make_subs(_: &Value) -> Box<dyn Sut> {
    Box::new(Subs { s: HashMap::new(), m: SubscriptionManager::new(), fill: 0 })
}

fn hdrs(v: &Value) -> Vec<(String, String)> {
    let sty = v["sty"].as_i64().unwrap_or(0);
    let mut h: Vec<(String, String)> = vec![];
    let mut add = |n: &str, v: String| h.push((n.to_string(), v));
    if st(v, "call") != "" {
        add("Call-ID", st(v, "call").to_string());
    }
    if st(v, "ft") != "!" {
        add("From", msg::name_addr(sty % 6, "alice", st(v, "ft")));
    }
    if st(v, "tt") != "!" {
        add("To", msg::name_addr((sty / 6) % 6, "bob", st(v, "tt")));
    }
    if let Some(c) = cseq(it(v, "cseq"), "SUBSCRIBE") {
        add("CSeq", c);
    }
    if st(v, "ct") != "" {
        add("Contact", msg::contact(sty % 3, st(v, "ct")));
    }
    if st(v, "event") != "" {
        add("Event", st(v, "event").to_string());
    }
    match it(v, "exp") {
        -1 => {}
        -2 => add("Expires", "soon".into()),
        n => add("Expires", n.to_string()),
    }
    h
}
fn req(v: &Value) -> Request {
    msg::request("SUBSCRIBE", "sip:bob@example.com", &hdrs(v))
}
fn resp(v: &Value) -> Response {
    msg::response(it(v, "code") as u16, &hdrs(v))
}
fn sid_json(i: &SubscriptionId) -> Value {
    json!([i.call_id(), i.from_tag(), i.to_tag(), i.event()])
}
fn sid(v: &Value) -> SubscriptionId {
    let g = |i: usize| v[i].as_str().unwrap().to_string();
    SubscriptionId::unchecked_new(g(0), g(1), g(2), g(3))
}
fn state(s: &str) -> SubscriptionState {
    match s {
        "active" => SubscriptionState::Active,
        "pending" => SubscriptionState::Pending,
        "terminated" => SubscriptionState::Terminated,
        o => panic!("SCRIPT: state {o}"),
    }
}
fn proj(s: &Subscription) -> Value {
    let c = s.contact().as_str();
    let ct = match s.contact().user() {
        Some(u) if c == format!("sip:{u}@c.example.com:5070;transport=tcp") => u,
        _ => c,
    };
    json!({"id":sid_json(s.id()),"st":s.state().as_str(),"ct":ct,"exp":s.expires().as_secs(),
           "lc":s.local_cseq(),"rc":s.remote_cseq(),"lu":s.local_uri().as_str(),"ru":s.remote_uri().as_str()})
}
fn opt(s: Option<Subscription>) -> Value {
    s.map_or(json!({"r":"none"}), |s| json!({"r":"some","s":proj(&s)}))
}
impl Subs {
    fn filler(&mut self) -> Subscription {
        self.fill += 1;
        let u = |s| SipUri::parse(s).unwrap();
        Subscription::unchecked_new(
            SubscriptionId::unchecked_new(format!("fill{}", self.fill), "a", "b", "filler"),
            SubscriptionState::Active, u("sip:a@b"), u("sip:a@b"), u("sip:a@b"), Duration::from_secs(60), 1, 0)
    }
}

impl Sut for Subs {
    fn step(&mut self, op: &Value) -> Value {
        let x = op["x"].as_str().unwrap_or("").to_string();
        match st(op, "op") {
            "new" => {
                let (l, r) = (SipUri::parse("sip:l@example.com").unwrap(), SipUri::parse("sip:r@example.com").unwrap());
                let (q, w) = (req(&op["req"]), resp(&op["resp"]));
                let s = if bo(op, "notifier") { Subscription::new_notifier(&q, &w, l, r) } else { Subscription::new_subscriber(&q, &w, l, r) };
                self.s.remove(&x);
                if let Some(s) = s.clone() {
                    self.s.insert(x, s);
                }
                opt(s)
            }
            "sid" => {
                let i = SubscriptionId::from_request(&req(&op["req"]));
                json!({"r":"ids","v":i.map_or(json!([]), |i| sid_json(&i))})
            }
            "newid" => {
                let g = |k: &str| match it(op, k) {
                    -1 => "a\r\nb".to_string(),
                    -2 => "\u{e9}".repeat(100),
                    n => "x".repeat(n as usize),
                };
                // the event: a package of n characters, optionally with an id of m
                let mut e = g("e");
                if has(op, "id") {
                    e = format!("{e} ; p\u{e9} ; Id={}", g("id"));
                }
                match SubscriptionId::new(g("c"), g("f"), g("t"), &e) {
                    Ok(i) => json!({"r": if sid_json(&i) == json!([g("c"), g("f"), g("t"), e]) {"ok"} else {"changed"}}),
                    Err(_) => json!({"r":"refused"}),
                }
            }
            o @ ("next" | "state" | "expires" | "put") => {
                let Some(s) = self.s.get_mut(&x) else { return json!({"r":"nosub"}) };
                match o {
                    "next" => return json!({"r":"n","n":s.next_local_cseq()}),
                    "state" => s.update_state(state(st(op, "st"))),
                    "expires" => s.update_expires(Duration::from_secs(it(op, "n") as u64)),
                    _ => return json!({"r": if self.m.insert(s.clone()).is_ok() {"ok"} else {"full"}}),
                }
                json!({"r":"some","s":proj(s)})
            }
            "get" => opt(self.m.get(&sid(&op["id"]))),
            "load" => {
                let s = self.m.get(&sid(&op["id"]));
                self.s.remove(&x);
                if let Some(s) = s.clone() {
                    self.s.insert(x, s);
                }
                opt(s)
            }
            "rm" => opt(self.m.remove(&sid(&op["id"]))),
            "all" => {
                let v: Vec<Value> = self.m.all().iter().filter(|s| s.id().event() != "filler").map(proj).collect();
                json!({"r":"list","n":self.m.all().len(),"v":v})
            }
            "byev" => {
                let l = self.m.by_event(st(op, "event"));
                json!({"r":"list","n":l.len(),"v":l.iter().map(proj).collect::<Vec<_>>()})
            }
            "clean" => json!({"r":"n","n":self.m.cleanup_terminated()}),
            "fill" => {
                let mut n = 0;
                for _ in 0..it(op, "n") {
                    let s = self.filler();
                    n += self.m.insert(s).is_ok() as u64;
                }
                json!({"r":"n","n":n})
            }
            "storm" => {
                let per = it(op, "n") / 8;
                let l: Vec<Vec<Subscription>> = (0..8).map(|_| (0..per).map(|_| self.filler()).collect()).collect();
                let bar = Arc::new(Barrier::new(8));
                let hs: Vec<_> = l
                    .into_iter()
                    .map(|l| {
                        let (m, b) = (self.m.clone(), bar.clone());
                        std::thread::spawn(move || {
                            b.wait();
                            l.into_iter().filter(|s| m.insert(s.clone()).is_ok()).count()
                        })
                    })
                    .collect();
                let n: usize = hs.into_iter().map(|h| h.join().unwrap()).sum();
                json!({"r":"n","n":n})
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

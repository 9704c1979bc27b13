//! Suite `dialog`: sip-dialog's dialogs, dialog manager and dialog store.
use crate::{bo, has, it, msg, st, Sut};
use serde_json::{json, Value};
use sip_core::{RefresherRole, Request, Response, SipUri};
use sip_dialog::storage::{DialogStore, InMemoryDialogStore};
use sip_dialog::{Dialog, DialogError, DialogId, DialogManager, DialogStateType};
use std::collections::HashMap;
use std::sync::{Arc, Barrier};
use std::time::Duration;

struct S {
    d: HashMap<String, Dialog>,
    m: Arc<DialogManager>,
    s: InMemoryDialogStore,
    rt: tokio::runtime::Runtime,
    fill: u64,
}

pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(S {
        d: HashMap::new(),
        m: Arc::new(DialogManager::new()),
        s: InMemoryDialogStore::default(),
        rt: tokio::runtime::Builder::new_current_thread().build().unwrap(),
        fill: 0,
    })
}

pub fn cseq(n: i64, method: &str) -> Option<String> {
    match n {
        -1 => None,
        -2 => Some(format!("2147483648 {method}")),
        -3 => Some(format!("abc {method}")),
        -4 => Some(format!("4294967296 {method}")),
        n => Some(format!("{n} {method}")),
    }
}

fn route(name: &str) -> String {
    format!("sip:{name}.example.com;lr")
}

/// Headers of a message from the script's abstract fields.
pub fn hdrs(v: &Value, method: &str) -> Vec<(String, String)> {
    let sty = v["sty"].as_i64().unwrap_or(0);
    let mut h: Vec<(String, String)> = vec![];
    let mut add = |n: &str, v: String| h.push((n.to_string(), v));
    if st(v, "call") != "" {
        add("Call-ID", st(v, "call").to_string());
    }
    if st(v, "ft") != "!" {
        add("From", msg::name_addr(sty % 6, "alice", st(v, "ft")));
    }
    if st(v, "tt") != "!" {
        add("To", msg::name_addr((sty / 6) % 6, "bob", st(v, "tt")));
    }
    if let Some(c) = cseq(it(v, "cseq"), method) {
        add("CSeq", c);
    }
    if st(v, "ct") != "" {
        add("Contact", msg::contact(sty % 3, st(v, "ct")));
    }
    if has(v, "rr") {
        // A list of header lines, each a list of routes.
        for line in v["rr"].as_array().unwrap() {
            let l: Vec<String> =
                line.as_array().unwrap().iter().map(|r| format!("<{}>", route(r.as_str().unwrap()))).collect();
            add("Record-Route", l.join(", "));
        }
    }
    if has(v, "rrn") {
        for i in 0..it(v, "rrn") {
            add("Record-Route", format!("<{}>", route(&format!("n{}", i + 1))));
        }
    }
    if has(v, "se") && it(v, "se") >= 0 {
        let p = match st(v, "rf") {
            "" => String::new(),
            r if sty % 2 == 0 => format!(";refresher={r}"),
            r => format!(" ; Refresher={}", r.to_uppercase()),
        };
        add("Session-Expires", format!("{}{p}", it(v, "se")));
    }
    h
}

pub fn req(v: &Value) -> Request {
    let m = st(v, "method");
    msg::request(m, "sip:bob@example.com", &hdrs(v, m))
}
pub fn resp(v: &Value) -> Response {
    msg::response(it(v, "code") as u16, &hdrs(v, st(v, "method")))
}

fn user(u: &SipUri) -> String {
    let s = u.as_str();
    match u.user() {
        Some(x) if s == format!("sip:{x}@c.example.com:5070;transport=tcp") => x.to_string(),
        _ => s.to_string(),
    }
}
fn rname(u: &SipUri) -> String {
    let s = u.as_str();
    match s.strip_prefix("sip:").and_then(|s| s.strip_suffix(".example.com;lr")) {
        Some(x) => x.to_string(),
        None => s.to_string(),
    }
}

fn id_json(i: &DialogId) -> Value {
    json!([i.call_id(), i.local_tag(), i.remote_tag()])
}

pub fn proj(d: &Dialog) -> Value {
    json!({
        "id": id_json(d.id()),
        "st": match d.state() { DialogStateType::Early => 0, DialogStateType::Confirmed => 1, DialogStateType::Terminated => 2 },
        "tgt": user(d.remote_target()),
        "rs": d.route_set().iter().map(rname).collect::<Vec<_>>(),
        "lc": d.local_cseq(), "rc": d.remote_cseq(),
        "ack": d.last_ack_cseq().map_or(-1, |x| x as i64),
        "sec": d.secure(),
        "se": d.session_expires().map_or(-1, |x| x.as_secs() as i64),
        "rf": match d.refresher() { None => "", Some(RefresherRole::Uac) => "uac", Some(RefresherRole::Uas) => "uas" },
        "uac": d.is_uac(),
        "lu": d.local_uri().as_str(), "ru": d.remote_uri().as_str(),
    })
}

fn opt(d: Option<Dialog>) -> Value {
    match d {
        None => json!({"r":"none"}),
        Some(d) => json!({"r":"some","d":proj(&d)}),
    }
}

impl S {
    fn filler(&mut self, call: &str, state: &str) -> Dialog {
        self.fill += 1;
        let call = if call == "*" { format!("fillcall{}", self.fill) } else { call.to_string() };
        let u = |s| SipUri::parse(s).unwrap();
        let id = DialogId::new(call, format!("fill{}", self.fill), "x").unwrap();
        Dialog::unchecked_new(
            id,
            match state {
                "early" => DialogStateType::Early,
                "conf" => DialogStateType::Confirmed,
                _ => DialogStateType::Terminated,
            },
            u("sip:alice@example.com"), u("sip:bob@example.com"), u("sip:x@c.example.com"),
            1, 0, None, vec![], false, None, None, true,
        )
    }
}

fn did(v: &Value) -> DialogId {
    let a = v.as_array().unwrap();
    DialogId::unchecked_new(a[0].as_str().unwrap(), a[1].as_str().unwrap(), a[2].as_str().unwrap())
}

fn err(e: DialogError) -> &'static str {
    match e {
        DialogError::TooManyDialogs { .. } => "full",
        _ => "refused",
    }
}

impl Sut for S {
    fn step(&mut self, op: &Value) -> Value {
        let slot = op["x"].as_str().unwrap_or("").to_string();
        match st(op, "op") {
            "new" => {
                let (rq, rs) = (req(&op["req"]), resp(&op["resp"]));
                let scheme = |w: &str| if st(op, "sips").contains(w) { "sips" } else { "sip" };
                let l = SipUri::parse(&format!("{}:l@example.com", scheme("l"))).unwrap();
                let r = SipUri::parse(&format!("{}:r@example.com", scheme("r"))).unwrap();
                let d = if bo(op, "uac") { Dialog::new_uac(&rq, &rs, l, r) } else { Dialog::new_uas(&rq, &rs, l, r) };
                self.d.remove(&slot);
                if let Some(d) = d.clone() {
                    self.d.insert(slot, d);
                }
                opt(d)
            }
            "newid" => {
                // n characters; -1 a control character, -2 a hundred two-byte characters
                let g = |k: &str| match it(op, k) {
                    -1 => "a\r\nb".to_string(),
                    -2 => "\u{e9}".repeat(100),
                    n => "x".repeat(n as usize),
                };
                match DialogId::new(g("c"), g("l"), g("t")) {
                    Ok(i) => json!({"r": if (i.call_id(), i.local_tag(), i.remote_tag())
                        == (g("c").as_str(), g("l").as_str(), g("t").as_str()) {"ok"} else {"changed"}}),
                    Err(_) => json!({"r":"refused"}),
                }
            }
            "req" => {
                let Some(d) = self.d.get_mut(&slot) else { return json!({"r":"nodialog"}) };
                let r = match d.update_from_request(&req(&op["req"])) {
                    Ok(()) => "ok",
                    Err(_) => "refused",
                };
                json!({"r": r, "d": proj(d)})
            }
            "resp" => {
                let Some(d) = self.d.get_mut(&slot) else { return json!({"r":"nodialog"}) };
                d.update_from_response(&resp(&op["resp"]));
                json!({"r": "some", "d": proj(d)})
            }
            "matches" => {
                let Some(d) = self.d.get(&slot) else { return json!({"r":"nodialog"}) };
                json!({"r": if d.matches_request(&req(&op["req"])) {"yes"} else {"no"}})
            }
            o @ ("confirm" | "terminate" | "next" | "setse" | "needs") => {
                let Some(d) = self.d.get_mut(&slot) else { return json!({"r":"nodialog"}) };
                match o {
                    "confirm" => d.confirm(),
                    "terminate" => d.terminate(),
                    "next" => {
                        let n = d.next_local_cseq();
                        return json!({"r":"n","n":n});
                    }
                    "needs" => {
                        return json!({"r": if d.needs_refresh(Duration::from_secs(it(op, "n") as u64)) {"yes"} else {"no"}})
                    }
                    _ => {
                        // -1 stands for 2^32 + 100 seconds
                        let n = match it(op, "n") { -1 => (1u64 << 32) + 100, n => n as u64 };
                        if d.set_session_expires(Duration::from_secs(n)).is_err() {
                            return json!({"r":"refused","d":proj(d)});
                        }
                    }
                }
                json!({"r":"some","d":proj(d)})
            }
            "ids" => {
                // identities as the two sides compute them from a message
                let (rq, rs) = (req(&op["req"]), resp(&op["resp"]));
                let f = |x: Option<DialogId>| x.map_or(json!([]), |i| id_json(&i));
                json!({"r":"ids","a":f(DialogId::from_request(&rq)),"b":f(DialogId::from_response_uac(&rs)),
                       "c":f(DialogId::from_response_uas(&rs))})
            }
            // -- manager
            "mput" => {
                let Some(d) = self.d.get(&slot) else { return json!({"r":"nodialog"}) };
                match self.m.insert(d.clone()) {
                    Ok(()) => json!({"r":"ok"}),
                    Err(e) => json!({"r":err(e)}),
                }
            }
            "mget" => opt(self.m.get(&did(&op["id"]))),
            "mload" => {
                // takes the stored copy into a slot
                let d = self.m.get(&did(&op["id"]));
                self.d.remove(&slot);
                if let Some(d) = d.clone() {
                    self.d.insert(slot, d);
                }
                opt(d)
            }
            "mfind" => opt(self.m.find_by_request(&req(&op["req"]))),
            "mrm" => opt(self.m.remove(&did(&op["id"]))),
            "mcall" => opt(self.m.find_by_call_id(st(op, "call"))),
            "mcount" => json!({"r":"n","n":self.m.count()}),
            "mclean" => {
                self.m.cleanup_terminated();
                json!({"r":"ok"})
            }
            "mids" => {
                let v: Vec<Value> = self.m.all_ids().iter().filter(|i| !i.local_tag().starts_with("fill")).map(id_json).collect();
                json!({"r":"ids","v":v})
            }
            "mfill" => {
                let mut n = 0;
                for _ in 0..it(op, "n") {
                    let d = self.filler(st(op, "call"), st(op, "st"));
                    n += self.m.insert(d).is_ok() as u64;
                }
                json!({"r":"n","n":n})
            }
            "mstorm" => {
                // concurrent inserts of new dialogs
                let per = it(op, "n") / 8;
                let ds: Vec<Vec<Dialog>> = (0..8)
                    .map(|_| (0..per).map(|_| self.filler(st(op, "call"), st(op, "st"))).collect())
                    .collect();
                let bar = Arc::new(Barrier::new(8));
                let hs: Vec<_> = ds
                    .into_iter()
                    .map(|l| {
                        let (m, bar) = (self.m.clone(), bar.clone());
                        std::thread::spawn(move || {
                            bar.wait();
                            l.into_iter().filter(|d| m.insert(d.clone()).is_ok()).count()
                        })
                    })
                    .collect();
                let n: usize = hs.into_iter().map(|h| h.join().unwrap()).sum();
                json!({"r":"n","n":n})
            }
            // -- store
            "sput" => {
                let Some(d) = self.d.get(&slot) else { return json!({"r":"nodialog"}) };
                self.rt.block_on(self.s.put(d.clone()));
                json!({"r":"ok"})
            }
            "sget" => opt(self.rt.block_on(self.s.get(&did(&op["id"])))),
            "srm" => {
                self.rt.block_on(self.s.remove(&did(&op["id"])));
                json!({"r":"ok"})
            }
            "slist" => {
                let v: Vec<Value> =
                    self.rt.block_on(self.s.list_by_call_id(&st(op, "call").into())).iter().map(proj).collect();
                json!({"r":"list","n":v.len(),"v":v})
            }
            "slen" => {
                let n = self.rt.block_on(self.s.len());
                let e = self.rt.block_on(self.s.is_empty());
                json!({"r": if e == (n == 0) && n == self.s.count() {"n"} else {"inconsistent"},"n":n})
            }
            "sfill" => {
                for _ in 0..it(op, "n") {
                    let d = self.filler("*", "conf");
                    self.rt.block_on(self.s.put(d));
                }
                json!({"r":"ok"})
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

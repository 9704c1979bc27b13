//! Security agreement: entries, headers, negotiation (sip-core).
use crate::{it, st, Sut};
use serde_json::{json, Value};
use sip_core::*;

#[derive(Default)]
pub struct A {
    cur: Option<SecurityEntry>,
    client: Vec<SecurityEntry>,
    server: Vec<SecurityEntry>,
    verify: Vec<SecurityEntry>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(A::default())
}
impl A {
    fn side(&mut self, n: &str) -> &mut Vec<SecurityEntry> {
        match n {
            "client" => &mut self.client,
            "server" => &mut self.server,
            "verify" => &mut self.verify,
            _ => panic!("SCRIPT: side"),
        }
    }
}
fn view(e: &SecurityEntry) -> Value {
    let ps: Vec<Value> = e
        .params()
        .iter()
        .map(|(n, v)| {
            assert_eq!(e.get_param(n), Some(v));
            assert_eq!(e.get_param(&n.to_uppercase()), Some(v));
            json!({"n": n.to_lowercase(), "v": v.iter().map(|x| x.as_str()).collect::<Vec<_>>()})
        })
        .collect();
    let m = e.mechanism().as_str();
    assert_eq!(m, e.mechanism().to_string());
    assert_eq!(SecurityMechanism::parse(m).as_ref(), Ok(e.mechanism()));
    json!({"m": m.to_lowercase(), "ps": ps, "q": e.preference().map_or(-1, |q| (q * 1000.0).round() as i64)})
}
/// positions (from 1) of the entries in their order of preference
fn order(es: &[SecurityEntry], sorted: Vec<&SecurityEntry>) -> Vec<usize> {
    assert_eq!(es.len(), sorted.len());
    sorted.iter().map(|e| place(es, e)).collect()
}
fn place(es: &[SecurityEntry], e: &SecurityEntry) -> usize {
    es.iter().position(|x| std::ptr::eq(x, e)).expect("one of the entries") + 1
}
fn set(e: &mut SecurityEntry, n: &str, v: Option<&str>) -> bool {
    e.set_param(n, v).is_ok()
}
impl Sut for A {
    fn step(&mut self, a: &Value) -> Value {
        let op = st(a, "op");
        let ok = |b| json!({"r": if b { "ok" } else { "err" }});
        match op {
            "entry" => {
                let vs: Vec<&str> = a["vs"].as_array().map(|v| v.iter().map(|x| x.as_str().expect("SCRIPT: text")).collect()).unwrap_or_default();
                let e = match st(a, "via") {
                    "parse" => SecurityMechanism::parse(st(a, "x")).map(SecurityEntry::new),
                    "tls" => Ok(SecurityEntry::tls()),
                    "digest" => SecurityEntry::digest(vs[0], vs.get(1).copied()),
                    "ipsec" => SecurityEntry::ipsec_ike(vs[0], vs[1], vs[2]),
                    _ => panic!("SCRIPT: via"),
                };
                let r = ok(e.is_ok());
                if let Ok(e) = e {
                    self.cur = Some(e);
                }
                return r;
            }
            "read" | "again" => {
                let y;
                let x = if op == "read" {
                    st(a, "x")
                } else {
                    let es = self.side(st(a, "side")).clone();
                    y = match st(a, "side") {
                        "client" => SecurityClientHeader::new(es).expect("as many as fit").to_string(),
                        "server" => SecurityServerHeader::new(es).expect("as many as fit").to_string(),
                        _ => SecurityVerifyHeader::new(es).expect("as many as fit").to_string(),
                    };
                    &y
                };
                let es = match st(a, "side") {
                    "client" => parse_security_client(x).map(|h| h.entries().to_vec()),
                    "server" => parse_security_server(x).map(|h| h.entries().to_vec()),
                    "verify" => parse_security_verify(x).map(|h| h.entries().to_vec()),
                    _ => panic!("SCRIPT: side"),
                };
                let r = ok(es.is_ok());
                if let Ok(es) = es {
                    *self.side(st(a, "side")) = es;
                }
                return r;
            }
            "show" => {
                let es = self.side(st(a, "side")).clone();
                let one = es.len() == 1;
                // whichever way a header with one entry is made
                macro_rules! header {
                    ($t:ident) => {{
                        let h = $t::new(es.clone()).expect("as many as fit");
                        assert!(!one || h == $t::single(es[0].clone()));
                        assert_eq!((h.len(), h.is_empty()), (es.len(), es.is_empty()));
                        assert_eq!(h.entries(), &es[..]);
                        h
                    }};
                }
                let (x, o) = match st(a, "side") {
                    "client" => {
                        let h = header!(SecurityClientHeader);
                        (h.to_string(), order(h.entries(), h.sorted_by_preference()))
                    }
                    "server" => {
                        let h = header!(SecurityServerHeader);
                        (h.to_string(), order(h.entries(), h.sorted_by_preference()))
                    }
                    _ => (header!(SecurityVerifyHeader).to_string(), vec![]),
                };
                return json!({"r": "header", "es": es.iter().map(view).collect::<Vec<_>>(), "x": x, "order": o});
            }
            "best" => {
                let c = SecurityClientHeader::new(self.client.clone()).expect("as many as fit");
                let s = SecurityServerHeader::new(self.server.clone()).expect("as many as fit");
                return json!({"r": "best", "i": s.find_best_match(&c).map_or(0, |e| place(s.entries(), e))});
            }
            "verify" => {
                let v = SecurityVerifyHeader::new(self.verify.clone()).expect("as many as fit");
                return json!({"r": "verify", "oks": self.server.iter().map(|e| v.matches(e)).collect::<Vec<_>>()});
            }
            _ => {}
        }
        let Some(cur) = &mut self.cur else { return json!({"r": "none"}) };
        match op {
            "set" => {
                let mut e = cur.clone();
                let done = set(&mut e, st(a, "n"), a["v"].get(0).map(|v| v.as_str().expect("SCRIPT: value")));
                assert!(done || e == *cur);
                *cur = e;
                ok(done)
            }
            "pref" => {
                let q = match it(a, "q") {
                    2000000 => f32::INFINITY,
                    3000000 => f32::NAN,
                    n => n as f32 / 1000.0,
                };
                let mut e = cur.clone();
                let done = e.set_preference(q).is_ok();
                assert!(done || e == *cur);
                *cur = e;
                ok(done)
            }
            "get" => json!({"r": "got", "v": cur.get_param(st(a, "n")).iter().map(|v| v.iter().map(|x| x.as_str()).collect::<Vec<_>>()).collect::<Vec<_>>()}),
            "see" => json!({"r": "entry", "e": view(cur)}),
            "put" => {
                let e = cur.clone();
                let es = self.side(st(a, "side"));
                let mut n = es.clone();
                n.extend((0..it(a, "k")).map(|_| e.clone()));
                let fits = match st(a, "side") {
                    "client" => SecurityClientHeader::new(n.clone()).is_ok(),
                    "server" => SecurityServerHeader::new(n.clone()).is_ok(),
                    _ => SecurityVerifyHeader::new(n.clone()).is_ok(),
                };
                if fits {
                    *es = n;
                }
                ok(fits)
            }
            _ => panic!("SCRIPT: op"),
        }
    }
}

//! Via headers and credentials (sip-core, sip-parse).
use crate::{st, Sut};
use serde_json::{json, Value};
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct A {
    via: Option<ViaHeader>,
    cred: Option<AuthorizationHeader>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(A::default())
}
fn ok(b: bool) -> Value {
    json!({"r": if b { "ok" } else { "err" }})
}
fn val(a: &Value) -> Option<&str> {
    a["v"].get(0).map(|v| v.as_str().expect("SCRIPT: value"))
}
impl A {
    fn read_cred(&mut self, x: &str) -> bool {
        let x = SmolStr::new(x);
        let c = sip_parse::parse_authorization_header(&x);
        assert_eq!(c, sip_parse::parse_proxy_authorization_header(&x));
        if c.is_some() {
            self.cred = c.clone();
        }
        c.is_some()
    }
    fn read_via(&mut self, x: &str) -> bool {
        let v = ViaHeader::parse(x).ok();
        assert_eq!(v, sip_parse::parse_via_header(&SmolStr::new(x)));
        if v.is_some() {
            self.via = v.clone();
        }
        v.is_some()
    }
}
impl Sut for A {
    fn step(&mut self, a: &Value) -> Value {
        let op = st(a, "op");
        match op {
            "via" => {
                let v = ViaHeader::new(st(a, "t"), st(a, "h")).ok();
                if v.is_some() {
                    self.via = v.clone();
                }
                return ok(v.is_some());
            }
            "vread" => return ok(self.read_via(st(a, "x"))),
            "cread" => return ok(self.read_cred(st(a, "x"))),
            "cred" => {
                let ps: Vec<(&str, &str)> = a["ps"].as_array().expect("SCRIPT: ps").iter().map(|p| (st(p, "n"), st(p, "v"))).collect();
                // all at once when the names differ, or one after another
                let raw: BTreeMap<SmolStr, SmolStr> = ps.iter().map(|(n, v)| (SmolStr::new(n), SmolStr::new(v))).collect();
                let c = if raw.len() == ps.len() {
                    AuthorizationHeader::from_raw(SmolStr::new(st(a, "m")), raw).ok()
                } else {
                    AuthorizationHeader::new(st(a, "m")).ok().and_then(|mut c| ps.iter().all(|(n, v)| c.add_param(*n, *v).is_ok()).then_some(c))
                };
                if c.is_some() {
                    self.cred = c.clone();
                }
                return ok(c.is_some());
            }
            _ => {}
        }
        if op.starts_with('v') {
            let Some(via) = self.via.clone() else { return json!({"r": "none"}) };
            match op {
                "vadd" => {
                    // by value or in place
                    let mut m = via.clone();
                    let done = m.add_param(st(a, "n"), val(a)).is_ok();
                    let w = via.clone().with_param(st(a, "n"), val(a)).ok();
                    assert_eq!(w.is_some(), done);
                    assert!(w.is_none_or(|w| w == m));
                    assert!(done || m == via);
                    self.via = Some(m);
                    ok(done)
                }
                "vset" => {
                    let mut m = via.clone();
                    let done = m.set_param(st(a, "n"), val(a)).is_ok();
                    assert!(done || m == via);
                    self.via = Some(m);
                    ok(done)
                }
                "vget" => json!({"r": "got", "v": via.param(st(a, "n")).iter().map(|v| v.iter().map(|x| x.as_str()).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                "vsee" => {
                    let ps: Vec<Value> = via.params().iter().map(|(n, v)| json!({"n": n.as_str(), "v": v.iter().map(|x| x.as_str()).collect::<Vec<_>>()})).collect();
                    json!({"r": "via", "t": via.transport(), "h": via.sent_by(), "ps": ps, "x": via.to_string()})
                }
                "vagain" => {
                    let done = self.read_via(&via.to_string());
                    ok(done)
                }
                _ => panic!("SCRIPT: op"),
            }
        } else {
            let Some(cred) = self.cred.clone() else { return json!({"r": "none"}) };
            match op {
                "cadd" | "cset" => {
                    let mut m = cred.clone();
                    let done = if op == "cadd" { m.add_param(st(a, "n"), st(a, "v")).is_ok() } else { m.add_param_overwrite(st(a, "n"), st(a, "v")).is_ok() };
                    assert!(done || m == cred);
                    self.cred = Some(m);
                    ok(done)
                }
                "cget" => json!({"r": "got", "v": cred.param(st(a, "n")).iter().map(|v| v.as_str()).collect::<Vec<_>>()}),
                "csee" => {
                    let ps: Vec<Value> = cred.params().iter().map(|(n, v)| json!({"n": n.as_str(), "v": v.as_str()})).collect();
                    json!({"r": "cred", "m": cred.scheme(), "ps": ps, "x": cred.to_string()})
                }
                "cagain" => ok(self.read_cred(&cred.to_string())),
                _ => panic!("SCRIPT: op"),
            }
        }
    }
}

//! URIs of sip-core: parsing, building, changing.
use crate::{bo, st, Sut};
use serde_json::{json, Value};
use sip_core::{SipUri, TelUri, Uri};

pub struct U {
    u: Option<Uri>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(U { u: None })
}

pub fn opt(x: Option<&str>) -> Value {
    x.into_iter().collect::<Vec<_>>().into()
}

pub fn comps(u: &Uri) -> Value {
    let (mut k, mut sips, mut user, mut host, mut port) = ("", false, json!([]), "", String::new());
    let (mut params, mut hdrs): (Vec<Value>, Vec<Value>) = (vec![], vec![]);
    let (mut num, mut glob, mut ctx, mut abs) = ("", false, json!([]), "");
    let list = |m: &std::collections::BTreeMap<smol_str::SmolStr, Option<smol_str::SmolStr>>| -> Vec<Value> {
        m.iter().map(|(n, v)| json!({"n": n.as_str(), "v": opt(v.as_deref())})).collect()
    };
    match u {
        Uri::Sip(s) => {
            k = "sip";
            sips = s.is_sips();
            user = opt(s.user());
            host = s.host();
            port = s.port().map_or(String::new(), |p| p.to_string());
            params = list(s.params());
            hdrs = s.headers().iter().map(|(n, v)| json!({"n": n.as_str(), "v": v.as_str()})).collect();
        }
        Uri::Tel(t) => {
            k = "tel";
            num = t.number();
            glob = t.is_global();
            ctx = opt(t.phone_context());
            params = list(t.parameters());
        }
        Uri::Absolute(a) => {
            k = "abs";
            abs = a;
        }
    }
    json!({"k": k, "sips": sips, "user": user, "host": host, "port": port, "params": params, "hdrs": hdrs,
        "num": num, "glob": glob, "ctx": ctx, "abs": abs})
}

impl U {
    fn out(&mut self, r: Option<Uri>) -> Value {
        let Some(u) = r else {
            return json!({"r": "err"});
        };
        let again = Uri::parse(u.as_str());
        let whole = u.as_tel().is_none_or(|t| t.is_global() || t.phone_context().is_some());
        // an incomplete local number has no text yet
        let eq = !whole || again.as_ref() == Ok(&u);
        let kinds = (u.is_sip(), u.is_tel(), u.is_absolute(), u.as_sip().is_some(), u.as_tel().is_some(), u.as_absolute().is_some());
        let fine = kinds == (kinds.3, kinds.4, kinds.5, kinds.0, kinds.1, kinds.2) && u.to_string() == u.as_str();
        let v = json!({"r": "ok", "c": comps(&u), "text": u.as_str(), "eq": eq && fine});
        self.u = Some(u);
        v
    }
}

impl Sut for U {
    fn step(&mut self, e: &Value) -> Value {
        match st(e, "op") {
            "parse" => {
                let r = Uri::parse(st(e, "x")).ok();
                self.out(r)
            }
            "as" => {
                let r = match st(e, "k") {
                    "sip" => SipUri::parse(st(e, "x")).ok().map(Uri::Sip),
                    _ => TelUri::parse(st(e, "x")).ok().map(Uri::Tel),
                };
                self.out(r)
            }
            "new" => {
                let r = SipUri::new(st(e, "x")).ok().map(Uri::Sip);
                self.out(r)
            }
            "tel" => {
                let r = TelUri::new(st(e, "x"), bo(e, "glob")).ok().map(Uri::Tel);
                self.out(r)
            }
            "with" => {
                let c = &e["c"];
                let x = st(c, "x").to_string();
                let v = c["v"].as_array().unwrap_or_else(|| panic!("SCRIPT: v")).first().map(|v| v.as_str().unwrap().to_string());
                let r = match (self.u.clone(), st(c, "f")) {
                    (Some(u), "nohdrs") => Some(u.without_uri_headers()),
                    (Some(Uri::Sip(s)), "host") => s.with_host(x).ok().map(Uri::Sip),
                    (Some(Uri::Sip(s)), "user") => s.with_user(x).ok().map(Uri::Sip),
                    (Some(Uri::Sip(s)), "port") => {
                        s.with_port(x.parse().unwrap_or_else(|_| panic!("SCRIPT: port"))).ok().map(Uri::Sip)
                    }
                    (Some(Uri::Sip(s)), "noport") => Some(Uri::Sip(s.without_port())),
                    (Some(Uri::Sip(s)), "param") => s.with_param(x, v).ok().map(Uri::Sip),
                    (Some(Uri::Tel(t)), "tparam") => t.with_parameter(x, v).ok().map(Uri::Tel),
                    (Some(Uri::Tel(t)), "ctx") => t.with_phone_context(x).ok().map(Uri::Tel),
                    _ => return json!({"r": "none"}),
                };
                self.out(r)
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

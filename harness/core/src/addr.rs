//! Headers that carry addresses (sip-core, sip-parse).
use crate::{st, Sut};
use serde_json::{json, Value};
use sip_core::*;
use sip_parse::*;
use smol_str::SmolStr;

pub struct A {
    last: Option<(String, String)>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(A { last: None })
}

type Par = (String, Option<String>);
struct Shown {
    v: Vec<Value>,
    x: String,
    t: Vec<String>,
}
fn item(d: &str, u: &Uri, ps: impl Iterator<Item = Par>) -> Value {
    json!({"d": d, "u": u.as_str(), "ps": ps.map(|(n, v)| json!({"n": n, "v": v.into_iter().collect::<Vec<_>>()})).collect::<Vec<_>>()})
}
fn owned<'a>(i: impl Iterator<Item = (&'a str, Option<&'a str>)>) -> impl Iterator<Item = Par> {
    i.map(|(n, v)| (n.to_owned(), v.map(str::to_owned))).collect::<Vec<_>>().into_iter()
}
fn na(n: &NameAddr) -> Value {
    for (k, v) in n.params() {
        assert_eq!(n.get_param(&k.to_uppercase()), Some(v));
        assert_eq!(n.params_map().get(k), Some(v));
    }
    assert_eq!(n.get_param("no-such-parameter"), None);
    assert_eq!((n.uri().as_sip(), n.uri().as_tel()), (n.sip_uri(), n.tel_uri()));
    item(n.display_name().map_or("", |d| d.as_str()), n.uri(), n.params().map(|(k, v)| (k.to_string(), v.as_ref().map(|v| v.to_string()))))
}
fn yes(b: bool) -> String {
    (if b { "yes" } else { "no" }).to_owned()
}
fn text(n: &NameAddr) -> String {
    RouteHeader::new(n.clone()).to_string()
}
fn one(n: &NameAddr, t: Vec<String>) -> Option<Shown> {
    Some(Shown { v: vec![na(n)], x: text(n), t })
}
fn tag(t: Option<&SmolStr>) -> Vec<String> {
    vec![t.map_or("-".into(), |t| t.to_string())]
}
fn route(r: &RouteHeader) -> Option<Shown> {
    assert_eq!((r.param_count(), r.uri(), r.inner()), (r.params().count(), r.inner().uri(), &r.clone().into_inner()));
    for (k, v) in r.params() {
        assert_eq!(r.get_param(&k.to_uppercase()), Some(v));
    }
    Some(Shown { v: vec![na(r.inner())], x: r.to_string(), t: vec![yes(r.has_lr())] })
}
macro_rules! routes {
    ($p:expr) => {{
        let p = $p;
        assert_eq!((p.len(), p.is_empty()), (p.routes().len(), p.routes().is_empty()));
        assert!(p.uris().eq(p.routes().iter().map(|r| r.uri())));
        Some(Shown { v: p.routes().iter().map(na).collect(), x: p.to_string(), t: vec![yes(p.all_loose_routing())] })
    }};
}
fn history(h: &HistoryInfoHeader) -> Option<Shown> {
    let e: Vec<_> = h.entries().collect();
    assert_eq!((h.len(), h.is_empty(), h.first(), h.last()), (e.len(), e.is_empty(), e.first().copied(), e.last().copied()));
    for (i, x) in e.iter().enumerate() {
        assert_eq!((h.get(i), x.param_count()), (Some(*x), x.params().count()));
        if let Some(n) = x.index() {
            assert_eq!(h.find_by_index(n), e.iter().copied().find(|y| y.index() == Some(n)));
        }
        for (n, v) in x.params() {
            assert_eq!(x.get_param(&n.to_uppercase()), Some(v));
        }
    }
    Some(Shown {
        v: e.iter().map(|x| item("", x.uri(), owned(x.params()))).collect(),
        x: String::new(),
        t: e.iter().map(|x| format!("{}/{}", x.index().unwrap_or("-"), x.reason_code().unwrap_or("-"))).collect(),
    })
}
fn geo(h: &GeolocationHeader) -> Option<Shown> {
    let e: Vec<_> = h.values().collect();
    assert_eq!((h.len(), h.is_empty(), h.first()), (e.len(), e.is_empty(), e.first().copied()));
    for x in &e {
        for (n, v) in x.params() {
            assert_eq!(x.get_param(&n.to_uppercase()).map(|x| x.as_deref()), Some(v));
        }
    }
    Some(Shown { v: e.iter().map(|x| item("", x.uri(), owned(x.params()))).collect(), x: String::new(), t: vec![] })
}
fn refby(r: &ReferredByHeader) -> Option<Shown> {
    let n = r.name_addr();
    assert_eq!((n.params().count(), r.has_signature()), (0, r.get_cid().is_some()));
    let mut ps: Vec<Par> = r.params().map(|(n, v)| (n.to_owned(), Some(v.to_owned()))).collect();
    for (n, v) in r.params() {
        assert_eq!(r.get_param(&n.to_uppercase()), Some(v));
    }
    ps.extend(r.get_cid().map(|c| ("cid".to_owned(), Some(c.to_owned()))));
    Some(Shown { v: vec![item(n.display_name().map_or("", |d| d.as_str()), n.uri(), ps.into_iter())], x: r.to_string(), t: vec![r.get_cid().unwrap_or("-").to_owned()] })
}
fn read(k: &str, x: &[&str]) -> Option<Shown> {
    let s = SmolStr::new(x[0]);
    let lines = |n: &str| {
        let mut h = Headers::new();
        for l in x {
            h.push(n, l).unwrap_or_else(|e| panic!("SCRIPT: {e}"));
        }
        h
    };
    match k {
        "from" => parse_from_header(&s).and_then(|h| one(h.inner(), tag(h.tag()))),
        "to" => parse_to_header(&s).and_then(|h| one(h.inner(), tag(h.tag()))),
        "contact" => parse_contact_header(&s).and_then(|h| {
            assert_eq!((h.uri(), h.params().count()), (h.inner().uri(), h.inner().params().count()));
            one(h.inner(), vec![])
        }),
        "callinfo" => parse_call_info_header(&s).and_then(|h| one(h.inner(), vec![])),
        "routep" => parse_route_header(&s).and_then(|r| route(&r)),
        "route" => RouteHeader::parse(x[0]).ok().and_then(|r| route(&r)),
        "routes" => {
            let q: Vec<Shown> = parse_route_headers(&lines("Record-Route"), "record-route").iter().filter_map(route).collect();
            Some(Shown { v: q.iter().map(|s| s.v[0].clone()).collect(), x: q.iter().map(|s| s.x.as_str()).collect::<Vec<_>>().join(", "), t: q.iter().map(|s| s.t[0].clone()).collect() })
        }
        "calls" => {
            let q = parse_call_info_headers(&lines("Call-Info"));
            Some(Shown { v: q.iter().map(|s| na(s.inner())).collect(), x: q.iter().map(|s| text(s.inner())).collect::<Vec<_>>().join(", "), t: vec![] })
        }
        "path" => parse_path(&lines("Path")).ok().and_then(|p| routes!(p)),
        "sr" => parse_service_route(&lines("Service-Route")).ok().and_then(|p| routes!(p)),
        "hist" => parse_history_info(&lines("History-Info")).ok().and_then(|h| history(&h)),
        "geo" => parse_geolocation_header(&lines("Geolocation")).ok().and_then(|h| geo(&h)),
        "refby" => ReferredByHeader::parse(x[0]).ok().and_then(|r| refby(&r)),
        k => panic!("SCRIPT: kind {k}"),
    }
}

fn uri(i: &Value) -> Uri {
    Uri::parse(st(i, "u")).unwrap_or_else(|e| panic!("SCRIPT: {i}: {e:?}"))
}
fn pars(i: &Value) -> Vec<(&str, Option<&str>)> {
    i["ps"].as_array().unwrap().iter().map(|p| (st(p, "n"), p["v"].as_array().unwrap().first().map(|v| v.as_str().unwrap()))).collect()
}
fn build_na(i: &Value, add: bool) -> Option<NameAddr> {
    let d = Some(st(i, "d")).filter(|d| !d.is_empty()).map(SmolStr::new);
    let ps = pars(i);
    if add {
        let mut n = NameAddr::new(d, uri(i), Default::default()).ok()?;
        let mut seen = std::collections::BTreeSet::new();
        for (k, v) in ps {
            // insert_param replaces; a repeated name counts as refused by the caller
            if !seen.insert(k.to_ascii_lowercase()) {
                return None;
            }
            n.insert_param(SmolStr::new(k), v.map(SmolStr::new)).ok()?;
        }
        return Some(n);
    }
    let mut m = std::collections::BTreeMap::new();
    for (k, v) in &ps {
        if m.insert(SmolStr::new(k), v.map(SmolStr::new)).is_some() {
            return None; // the map cannot hold it twice
        }
    }
    NameAddr::new(d, uri(i), m).ok()
}
fn create(k: &str, v: &[Value], via: &str) -> Option<Shown> {
    let add = via == "add";
    let all = || v.iter().map(|i| build_na(i, add)).collect::<Option<Vec<_>>>();
    let bare = v.iter().all(|i| st(i, "d").is_empty() && pars(i).is_empty());
    macro_rules! list {
        ($t:ident) => {{
            if add && bare {
                let mut p = $t::new(vec![]).ok()?;
                for i in v {
                    p.add_route(uri(i)).ok()?;
                }
                routes!(p)
            } else if bare && v.len() == 1 {
                $t::single(uri(&v[0])).ok().and_then(|p| routes!(p))
            } else if bare {
                $t::from_uris(v.iter().map(uri).collect()).ok().and_then(|p| routes!(p))
            } else {
                $t::new(all()?).ok().and_then(|p| routes!(p))
            }
        }};
    }
    match k {
        "route" => {
            let i = &v[0];
            if add && st(i, "d").is_empty() && pars(i) == [("lr", None)] {
                return RouteHeader::with_lr(uri(i)).ok().and_then(|r| route(&r));
            }
            build_na(i, add).and_then(|n| route(&if add { RouteHeader::from(n) } else { RouteHeader::new(n) }))
        }
        "path" => list!(PathHeader),
        "sr" => list!(ServiceRouteHeader),
        "hist" => {
            let mut e = vec![];
            for i in v {
                let mut x = HistoryInfoEntry::new(uri(i));
                for (n, v) in pars(i) {
                    if add {
                        x.add_param(n, v).ok()?;
                    } else {
                        x = x.with_param(n, v).ok()?;
                    }
                }
                e.push(x);
            }
            if add && !e.is_empty() {
                let mut h = HistoryInfoHeader::single(e.remove(0));
                for x in e {
                    h.push(x).ok()?;
                }
                history(&h)
            } else {
                HistoryInfoHeader::new(e).ok().and_then(|h| history(&h))
            }
        }
        "geo" => {
            let mut e = vec![];
            for i in v {
                let mut x = GeolocationValue::new(uri(i));
                for (n, v) in pars(i) {
                    if add {
                        x.add_param(n, v).ok()?;
                    } else {
                        x = x.with_param(n, v).ok()?;
                    }
                }
                e.push(x);
            }
            if add && e.len() == 1 {
                geo(&GeolocationHeader::single(e.remove(0)))
            } else {
                GeolocationHeader::new(e).ok().and_then(|h| geo(&h))
            }
        }
        "refby" => {
            let i = &v[0];
            let mut r = if st(i, "d").is_empty() { ReferredByHeader::new(st(i, "u")) } else { ReferredByHeader::with_name(st(i, "d"), st(i, "u")) }.ok()?;
            for (n, v) in pars(i) {
                let v = v.unwrap_or_else(|| panic!("SCRIPT: Referred-By parameter without value"));
                if n == "cid" {
                    r = r.with_cid(v).ok()?;
                } else if add {
                    r.add_param(n, v).ok()?;
                } else {
                    r = r.with_param(n, v).ok()?;
                }
            }
            refby(&r)
        }
        k => panic!("SCRIPT: kind {k}"),
    }
}

impl A {
    fn show(&mut self, k: &str, s: Option<Shown>) -> Value {
        match s {
            None => json!({"r": "err"}),
            Some(s) => {
                if k != "hist" && k != "geo" {
                    self.last = Some((k.to_owned(), s.x.clone()));
                }
                json!({"r": "val", "v": s.v, "x": s.x, "t": s.t})
            }
        }
    }
}
impl Sut for A {
    fn step(&mut self, a: &Value) -> Value {
        match st(a, "op") {
            "read" => {
                let x: Vec<&str> = a["x"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                let k = st(a, "k");
                self.show(k, read(k, &x))
            }
            "make" => {
                let k = st(a, "k");
                self.show(k, create(k, a["v"].as_array().unwrap(), st(a, "via")))
            }
            "again" => match self.last.clone() {
                None => json!({"r": "none"}),
                Some((k, x)) => self.show(&k, read(&k, &[&x])),
            },
            op => panic!("SCRIPT: op {op}"),
        }
    }
}

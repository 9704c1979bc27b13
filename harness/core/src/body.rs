//! Bodies made of text lines: CPIM, message summaries, message fragments (sip-core).
use crate::{st, Sut};
use bytes::Bytes;
use serde_json::{json, Value};
use sip_core::cpim::{parse_cpim, CpimHeader, CpimMessage};
use sip_core::message_waiting::{parse_message_summary, MessageContextClass, MessageCounts, MessageHeader, MessageSummary};
use sip_core::sipfrag::{SipFrag, StartLine};
use sip_core::*;

enum Doc {
    None,
    Cpim(CpimMessage),
    Mwi(MessageSummary),
    Frag(SipFrag),
}
pub struct B {
    doc: Doc,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(B { doc: Doc::None })
}

fn opt(x: &Value) -> Option<&str> {
    x.as_array().expect("SCRIPT: optional").first().map(|v| v.as_str().unwrap())
}
fn list(x: Option<&str>) -> Value {
    json!(x.into_iter().collect::<Vec<_>>())
}
fn class(n: &str) -> MessageContextClass {
    use MessageContextClass::*;
    [Voice, Fax, Pager, Multimedia, Text, None].into_iter().find(|c| c.as_str() == n).unwrap_or_else(|| panic!("SCRIPT: class {n}"))
}
fn num(x: &Value) -> u32 {
    x.as_str().and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("SCRIPT: number {x}"))
}
fn cpim(m: &CpimMessage) -> Value {
    let hs: Vec<Value> = m
        .headers()
        .iter()
        .map(|(n, q)| {
            let v: Vec<&str> = q.iter().map(|h| h.value()).collect();
            assert_eq!((m.get_header(n), m.get_header_values(n)), (v.first().copied(), v));
            let q: Vec<Value> = q.iter().map(|h| json!({"v": h.value(), "ps": h.params().iter().map(|(n, v)| json!({"n": n.as_str(), "v": v.as_str()})).collect::<Vec<_>>()})).collect();
            json!({"n": n.as_str(), "q": q})
        })
        .collect();
    assert_eq!((m.get_header("No-Such"), m.get_header_values("No-Such").len()), (None, 0));
    let b = m.body_as_str().expect("text").to_owned();
    assert_eq!((m.body(), m.body_as_string()), (b.as_bytes(), Some(b.clone())));
    let ch: Vec<Value> = m.content_headers().iter().map(|(n, v)| json!({"n": n.as_str(), "v": v.as_str()})).collect();
    json!({"r": "cpim", "ct": m.content_type(), "hs": hs, "ch": ch, "b": b})
}
fn yes(b: bool) -> &'static str {
    if b { "yes" } else { "no" }
}
fn mwi(m: &MessageSummary) -> Value {
    let cl: Vec<Value> = m
        .messages()
        .map(|(c, n)| {
            assert_eq!((n.has_new(), n.has_urgent()), (n.new_count() > 0, n.urgent_new() > 0 || n.urgent_old() > 0));
            assert_eq!(MessageContextClass::from_header_name(&c.header_name().to_uppercase()), Some(*c));
            let q: Vec<String> = [n.new_count(), n.old_count(), n.urgent_new(), n.urgent_old()].iter().map(u32::to_string).collect();
            json!({"c": c.to_string(), "n": q, "t": [n.total().to_string(), n.total_urgent().to_string()]})
        })
        .collect();
    assert_eq!(m.is_empty(), cl.is_empty());
    let mh: Vec<Value> = m.message_headers().map(|h| json!([list(h.to()), list(h.from()), list(h.subject()), list(h.date()), list(h.priority()), list(h.message_id()), list(h.message_context())])).collect();
    json!({"r": "mwi", "w": yes(m.messages_waiting()), "acc": m.account().unwrap_or("-"), "cl": cl, "mh": mh,
        "t": [m.total_new().to_string(), m.total_old().to_string(), yes(m.has_urgent())]})
}
fn frag(f: &SipFrag, trim: bool) -> Value {
    let s = match f.start_line() {
        None => json!([]),
        Some(StartLine::Response(s)) => json!(["response", s.code().to_string(), s.reason()]),
        Some(StartLine::Request(r)) => json!(["request", r.method().as_str(), r.uri().to_string()]),
    };
    assert_eq!((f.is_response(), f.is_request()), (s[0] == "response", s[0] == "request"));
    assert_eq!((f.status_code().map(|c| c.to_string()).as_deref(), f.method().map(|m| m.as_str())), (s[1].as_str().filter(|_| f.is_response()), s[1].as_str().filter(|_| f.is_request())));
    assert_eq!(f.request_uri().is_some(), f.is_request());
    let blank = [' ', '\t', '\r', '\n'];
    let hs: Vec<Value> = f.headers().iter().map(|h| json!({"n": h.name(), "v": if trim { h.value().trim_matches(blank) } else { h.value() }})).collect();
    json!({"r": "frag", "st": s, "hs": hs, "b": std::str::from_utf8(f.body()).expect("text")})
}
fn show(d: &Doc, trim: bool) -> Value {
    match d {
        Doc::None => json!({"r": "none"}),
        Doc::Cpim(m) => cpim(m),
        Doc::Mwi(m) => mwi(m),
        Doc::Frag(f) => frag(f, trim),
    }
}
fn read(k: &str, x: &str) -> Option<Doc> {
    Some(match k {
        "cpim" => Doc::Cpim(parse_cpim(x).ok()?),
        "mwi" => Doc::Mwi(parse_message_summary(x).ok()?),
        k => panic!("SCRIPT: kind {k}"),
    })
}
fn headers(a: &Value) -> Headers {
    let mut h = Headers::new();
    for x in a["hs"].as_array().unwrap() {
        h.push(st(x, "n"), st(x, "v")).unwrap_or_else(|e| panic!("SCRIPT: {e}"));
    }
    h
}
fn fnew(a: &Value) -> Option<SipFrag> {
    let b = Bytes::from(st(a, "b").to_owned());
    let status = || StatusLine::new(st(a, "code").parse().unwrap_or_else(|e| panic!("SCRIPT: {e}")), st(a, "reason")).ok();
    let mut f = match st(a, "kind") {
        "empty" => SipFrag::empty(),
        "headers" => SipFrag::headers_only(headers(a)),
        "status" => SipFrag::status_only(st(a, "code").parse().unwrap(), st(a, "reason").into()).ok()?,
        "response" => SipFrag::response(status()?).ok()?,
        "full" => return SipFrag::from_response(Response::new(status()?, headers(a), b).unwrap_or_else(|e| panic!("SCRIPT: {e}"))).ok(),
        "request" => {
            let u = Uri::parse(st(a, "uri")).unwrap_or_else(|e| panic!("SCRIPT: {e}"));
            SipFrag::request(RequestLine::new(Method::from_token(st(a, "m")).unwrap_or_else(|e| panic!("SCRIPT: {e}")), u)).ok()?
        }
        k => panic!("SCRIPT: kind {k}"),
    };
    if st(a, "kind") != "headers" {
        for x in a["hs"].as_array().unwrap() {
            f = f.with_header(st(x, "n"), st(x, "v")).unwrap_or_else(|e| panic!("SCRIPT: {e}"));
        }
    }
    f.with_body(b).ok()
}
fn params(mut h: CpimHeader, a: &Value) -> Option<CpimHeader> {
    for p in a["ps"].as_array().unwrap() {
        h = h.with_param(st(p, "n"), st(p, "v")).ok()?;
    }
    Some(h)
}
fn chdr(m: &CpimMessage, a: &Value) -> Option<CpimMessage> {
    let (n, v, ps, set) = (st(a, "n"), st(a, "v"), a["ps"].as_array().unwrap(), a["set"].as_bool().unwrap());
    let c = m.clone();
    if st(a, "via") == "with" && (ps.is_empty() || n == "Subject") {
        match (n, set) {
            ("From", true) => return c.with_from(v).ok(),
            ("DateTime", true) => return c.with_datetime(v).ok(),
            ("To", false) => return c.with_to(v).ok(),
            ("cc", false) => return c.with_cc(v).ok(),
            ("Require", false) => return c.with_require(v).ok(),
            ("NS", false) if v.contains(" <") && v.ends_with('>') => {
                let (p, u) = v.split_once(" <").unwrap();
                return c.with_ns(p, &u[..u.len() - 1]).ok();
            }
            ("Subject", false) if ps.is_empty() => return c.with_subject(v).ok(),
            ("Subject", false) if ps.len() == 1 && ps[0]["n"] == "lang" => return c.with_subject_lang(v, st(&ps[0], "v")).ok(),
            _ => {}
        }
    }
    let mut c = c;
    if set {
        assert!(ps.is_empty(), "SCRIPT: set with parameters");
        c.set_header(n, v).ok()?;
    } else if ps.is_empty() {
        c.add_header(n, v).ok()?;
    } else {
        c.add_header_obj(n, params(CpimHeader::new(v).ok()?, a)?).ok()?;
    }
    Some(c)
}
fn mhdr(a: &Value) -> Option<MessageHeader> {
    let mut h = MessageHeader::new();
    for (i, f) in a["f"].as_array().unwrap().iter().enumerate() {
        if let Some(v) = opt(f) {
            h = match i {
                0 => h.with_to(v),
                1 => h.with_from(v),
                2 => h.with_subject(v),
                3 => h.with_date(v),
                4 => h.with_priority(v),
                5 => h.with_message_id(v),
                _ => h.with_message_context(v),
            }
            .ok()?;
        }
    }
    Some(h)
}

impl B {
    fn set(&mut self, d: Option<Doc>) -> Value {
        let r = json!({"r": if d.is_some() { "ok" } else { "err" }});
        if let Some(d) = d {
            self.doc = d;
        }
        r
    }
}
impl Sut for B {
    fn step(&mut self, a: &Value) -> Value {
        let op = st(a, "op");
        match op {
            "cnew" => return self.set(CpimMessage::new(st(a, "ct"), st(a, "b").as_bytes().to_vec()).ok().map(Doc::Cpim)),
            "mnew" => return self.set(Some(Doc::Mwi(MessageSummary::new(st(a, "w") == "yes")))),
            "fnew" => return self.set(fnew(a).map(Doc::Frag)),
            "read" => return self.set(read(st(a, "k"), st(a, "x"))),
            "show" => return show(&self.doc, false),
            _ => {}
        }
        let d = match (&mut self.doc, op) {
            (Doc::None, _) => return json!({"r": "none"}),
            (Doc::Cpim(m), "again") => {
                let x = CpimMessage::to_string(m).expect("written");
                assert_eq!(format!("{m}"), x);
                let mut o = show(&read("cpim", &x).expect("reads back"), false);
                o["x"] = json!(x);
                return o;
            }
            (Doc::Mwi(m), "again") => {
                let x = m.to_string();
                let mut o = show(&read("mwi", &x).expect("reads back"), false);
                o["x"] = json!(x);
                return o;
            }
            (d @ Doc::Frag(_), "again") => {
                let mut o = show(d, true);
                if let Doc::Frag(f) = d {
                    o["x"] = json!(f.to_string());
                }
                return o;
            }
            (Doc::Cpim(m), "chdr") => chdr(m, a).map(Doc::Cpim),
            (Doc::Cpim(m), "cch") if st(a, "via") == "with" => m.clone().with_content_header(st(a, "n"), st(a, "v")).ok().map(Doc::Cpim),
            (Doc::Cpim(m), "cch") => m.add_content_header(st(a, "n"), st(a, "v")).ok().map(|_| Doc::Cpim(m.clone())),
            (Doc::Cpim(m), "body") => m.set_body(st(a, "b").as_bytes().to_vec()).ok().map(|_| Doc::Cpim(m.clone())),
            (Doc::Mwi(m), "macc") => m.set_account(st(a, "x")).ok().map(|_| Doc::Mwi(m.clone())),
            (Doc::Mwi(m), "mcls") => {
                let n = &a["n"];
                let c = MessageCounts::new(num(&n[0]), num(&n[1])).with_urgent(num(&n[2]), num(&n[3]));
                m.add_message_class(class(st(a, "c")), c).ok().map(|_| Doc::Mwi(m.clone()))
            }
            (Doc::Mwi(m), "mhdr") => mhdr(a).and_then(|h| m.add_message_header(h).ok()).map(|_| Doc::Mwi(m.clone())),
            (Doc::Frag(f), "fhdr") if st(a, "via") == "with" => f.clone().with_header(st(a, "n"), st(a, "v")).ok().map(Doc::Frag),
            (Doc::Frag(f), "fhdr") => f.add_header(st(a, "n"), st(a, "v")).ok().map(|_| Doc::Frag(f.clone())),
            (Doc::Frag(f), "body") if st(a, "via") == "with" => f.clone().with_body(st(a, "b").to_owned()).ok().map(Doc::Frag),
            (Doc::Frag(f), "body") => f.set_body(st(a, "b").to_owned()).ok().map(|_| Doc::Frag(f.clone())),
            _ => return json!({"r": "none"}),
        };
        self.set(d)
    }
}

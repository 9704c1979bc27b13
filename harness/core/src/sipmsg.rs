//! SIP messages: reading, writing, header lists.
use crate::{bo, it as nu, st, Sut};
use bytes::Bytes;
use serde_json::{json, Value};
use sip_core::{decrement_max_forwards, Headers, MaxForwardsError, Method, Request, RequestLine, Response, SipMessage, StatusLine, Uri};

pub struct M {
    m: Option<SipMessage>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(M { m: None })
}

fn latin1(x: &str) -> Vec<u8> {
    x.chars().map(|c| u8::try_from(c as u32).unwrap_or_else(|_| panic!("SCRIPT: byte {c}"))).collect()
}
fn text(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}
fn list(h: &Headers) -> Value {
    h.iter().map(|h| json!({"n": h.name(), "v": h.value()})).collect::<Vec<_>>().into()
}
fn datagram(e: &Value) -> Bytes {
    let all = e["lines"].as_array().unwrap().iter().map(|l| l.as_str().unwrap()).collect::<Vec<_>>().join("\r\n");
    if bo(e, "raw8") {
        return latin1(&all).into();
    }
    match all.split_once("\r\n\r\n") {
        Some((h, b)) => [h.as_bytes(), b"\r\n\r\n", &latin1(b)].concat().into(),
        None => all.into_bytes().into(),
    }
}

fn seen(m: Option<&SipMessage>) -> Value {
    let (mut method, mut uri, mut code, mut reason, mut std, mut cls) = (String::new(), String::new(), 0, String::new(), false, 0);
    match m {
        Some(SipMessage::Request(r)) => {
            method = r.method().as_str().into();
            uri = r.uri().as_str().into();
            std = r.method().is_standard() && !r.method().is_extension();
        }
        Some(SipMessage::Response(r)) => {
            code = r.code();
            reason = r.reason().into();
            let l = r.start_line();
            let a = [l.is_informational(), l.is_success(), l.is_redirection(), l.is_client_error(), l.is_server_error(), l.is_global_failure()];
            let b = [r.is_informational(), r.is_success(), r.is_redirection(), r.is_client_error(), r.is_server_error(), r.is_global_failure()];
            let n: Vec<i32> = (1..).zip(a).filter(|(_, x)| *x).map(|(i, _)| i).collect();
            let error = n.first().is_some_and(|n| *n >= 4);
            cls = if a == b && n.len() == 1 && l.is_error() == error && r.is_error() == error { n[0] } else { -1 };
        }
        None => (),
    }
    let kind = match m {
        Some(m) if m.is_request() && m.as_request().is_some() && m.as_response().is_none() => "req",
        Some(m) if m.is_response() && m.as_response().is_some() && m.as_request().is_none() => "res",
        _ => "",
    };
    json!({"r": if m.is_some() { "ok" } else { "err" }, "f": {"std": std, "cls": cls},
        "m": {"kind": kind, "method": method, "uri": uri, "code": code, "reason": reason,
              "hdrs": m.map_or(json!([]), |m| list(m.headers())), "body": m.map_or(String::new(), |m| text(m.body()))}})
}

fn read(kind: &str, mode: &str, lim: usize, d: &Bytes) -> Option<SipMessage> {
    match (kind, mode) {
        ("req", "plain") => sip_parse::parse_request(d).map(SipMessage::Request),
        ("req", "strict") => sip_parse::parse_request_strict(d).map(SipMessage::Request),
        ("req", "limit") => sip_parse::parse_request_with_limit(d, lim).map(SipMessage::Request),
        ("req", "limitstrict") => sip_parse::parse_request_with_limit_strict(d, lim).map(SipMessage::Request),
        ("res", "plain") => sip_parse::parse_response(d).map(SipMessage::Response),
        ("res", "strict") => sip_parse::parse_response_strict(d).map(SipMessage::Response),
        _ => panic!("SCRIPT: {kind} {mode}"),
    }
}

impl M {
    fn made(&mut self, m: Option<SipMessage>) -> Value {
        let v = seen(m.as_ref());
        if m.is_some() {
            self.m = m;
        }
        v
    }
    fn write(&self) -> Value {
        let m = self.m.as_ref().unwrap();
        let (kind, d) = match m {
            SipMessage::Request(r) => ("req", sip_parse::serialize_request(r)),
            SipMessage::Response(r) => ("res", sip_parse::serialize_response(r)),
        };
        let end = d.windows(4).position(|w| w == b"\r\n\r\n").unwrap_or(d.len());
        let head = String::from_utf8_lossy(&d[..end]).into_owned();
        let mut lines = head.split("\r\n");
        let start = lines.next().unwrap_or("");
        let hdrs: Vec<Value> = lines.map(|l| {
            let (n, v) = l.split_once(':').unwrap_or((l, "?"));
            json!({"n": n.trim_matches([' ', '\t']), "v": v})
        }).collect();
        let plain = read(kind, "plain", 0, &d);
        let strict = read(kind, "strict", 0, &d);
        json!({"r": "ok", "start": start, "hdrs": hdrs, "body": text(d.get(end + 4..).unwrap_or(b"")),
            "again": seen(plain.as_ref()), "strict": plain == strict})
    }
}

impl Sut for M {
    fn step(&mut self, e: &Value) -> Value {
        match st(e, "op") {
            "parse" => {
                let r = read(st(e, "kind"), st(e, "mode"), nu(e, "lim") as usize, &datagram(e));
                return self.made(r);
            }
            "build" => {
                let body = Bytes::from(latin1(st(e, "body")));
                let r = match st(e, "kind") {
                    "req" => match (Method::from_token(st(e, "method")), Uri::parse(st(e, "uri"))) {
                        (Ok(m), Ok(u)) => Request::new(RequestLine::new(m, u), Headers::new(), body).ok().map(SipMessage::Request),
                        _ => None,
                    },
                    _ => StatusLine::new(nu(e, "code") as u16, st(e, "reason")).ok()
                        .and_then(|l| Response::new(l, Headers::new(), body).ok()).map(SipMessage::Response),
                };
                return self.made(r);
            }
            "huge" => {
                let b = || Bytes::from(vec![b'x'; nu(e, "n") as usize]);
                let l = || RequestLine::new(Method::Message, Uri::parse("sip:h").unwrap());
                let t = || StatusLine::new(200, "OK").unwrap();
                let mut q = Request::new(l(), Headers::new(), Bytes::new()).unwrap();
                let mut p = Response::new(t(), Headers::new(), Bytes::new()).unwrap();
                let r = [Request::new(l(), Headers::new(), b()).is_ok(), Response::new(t(), Headers::new(), b()).is_ok(), q.set_body(b()).is_ok(), p.set_body(b()).is_ok()];
                return json!({"r": if r == [true; 4] { "fits" } else if r == [false; 4] { "refused" } else { "mixed" }});
            }
            _ => (),
        }
        let none = json!({"r": "none"});
        let Some(m) = self.m.as_mut() else { return none };
        match st(e, "op") {
            "body" => {
                let b = Bytes::from(latin1(st(e, "v")));
                let r = match &mut *m {
                    SipMessage::Request(r) => r.set_body(b).is_ok() && r.has_body() == (r.body_len() > 0),
                    SipMessage::Response(r) => r.set_body(b).is_ok() && r.has_body() == (r.body_len() > 0),
                };
                let m = m.clone();
                return self.made(r.then_some(m));
            }
            "uri" => {
                let SipMessage::Request(r) = &mut *m else { return none };
                let ok = Uri::parse(st(e, "v")).map(|u| r.set_uri(u)).is_ok();
                let m = m.clone();
                return self.made(ok.then_some(m));
            }
            "write" => return self.write(),
            "get" => {
                let (h, n) = (m.headers(), st(e, "n"));
                let all: Vec<&str> = h.get_all(n).collect();
                let smol: Vec<&str> = h.get_all_smol(n).map(|v| v.as_str()).collect();
                let hs: Vec<&str> = h.get_all_headers(n).map(|h| h.value()).collect();
                let same = all == smol && all == hs && h.get(n) == h.get_smol(n).map(|v| v.as_str()) && h.get(n) == h.get_header(n).map(|h| h.value());
                return json!({"r": if same { "ok" } else { "differ" }, "all": all, "first": crate::uri::opt(h.get(n)), "has": h.contains(n), "n": h.count(n),
                    "long": crate::uri::opt(sip_parse::header(h, n).map(|v| v.as_str()))});
            }
            _ => (),
        }
        let h = m.headers_mut();
        let r: String = match st(e, "op") {
            "push" => (if h.push(st(e, "n"), st(e, "v")).is_ok() { "ok" } else { "err" }).into(),
            "set" => (if h.set_or_push(st(e, "n"), st(e, "v")).is_ok() { "ok" } else { "err" }).into(),
            "replace" => match h.replace_first(st(e, "n"), st(e, "v")) {
                Ok(true) => "ok",
                Ok(false) => "no",
                Err(_) => "err",
            }
            .into(),
            "remove" => h.remove(st(e, "n")).to_string(),
            "removeat" => {
                let i: usize = st(e, "v").parse().unwrap_or(0);
                if i == 0 || i > h.len() {
                    "none".into()
                } else {
                    let x = h.remove_at(i - 1);
                    format!("{}: {}", x.name(), x.value())
                }
            }
            "maxf" => match decrement_max_forwards(h) {
                Ok(n) => n.to_string(),
                Err(MaxForwardsError::Exhausted) => "zero".into(),
                Err(MaxForwardsError::Invalid) => "bad".into(),
            },
            o => panic!("SCRIPT: op {o}"),
        };
        // the other ways to build and walk the same list
        let v = h.clone().into_inner();
        let same = Headers::from_vec(v.clone()).as_ref() == Ok(&*h)
            && v.iter().cloned().collect::<Headers>() == *h
            && h.len() == v.len()
            && h.is_empty() == v.is_empty()
            && h.as_slice() == &v[..]
            && h.iter().eq(v.iter());
        json!({"r": if same { r } else { "differ".into() }, "hdrs": list(h)})
    }
}

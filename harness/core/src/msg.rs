//! Builds real messages from the abstract fields of a script.
use bytes::Bytes;
use sip_core::{Headers, Method, Request, RequestLine, Response, SipUri, StatusLine};

pub fn headers(list: &[(String, String)]) -> Headers {
    let mut h = Headers::new();
    for (n, v) in list {
        h.push(n.as_str(), v.as_str()).unwrap_or_else(|e| panic!("SCRIPT: header {n}: {v:?}: {e}"));
    }
    h
}

pub fn request(method: &str, uri: &str, list: &[(String, String)]) -> Request {
    Request::new(
        RequestLine::new(
            Method::from_token(method).unwrap_or_else(|_| panic!("SCRIPT: method {method}")),
            SipUri::parse(uri).unwrap_or_else(|_| panic!("SCRIPT: uri {uri}")),
        ),
        headers(list),
        Bytes::new(),
    )
    .unwrap_or_else(|e| panic!("SCRIPT: request: {e}"))
}

pub fn response(code: u16, list: &[(String, String)]) -> Response {
    Response::new(
        StatusLine::new(code, "X").unwrap_or_else(|_| panic!("SCRIPT: code {code}")),
        headers(list),
        Bytes::new(),
    )
    .unwrap_or_else(|e| panic!("SCRIPT: response: {e}"))
}

/// A From/To value. The style varies the written form, never the meaning.
pub fn name_addr(style: i64, user: &str, tag: &str) -> String {
    let t = |p: &str| if tag.is_empty() { String::new() } else { format!("{p}{tag}") };
    match style {
        0 => format!("<sip:{user}@example.com>{}", t(";tag=")),
        1 => format!("{user} <sip:{user}@example.com>{}", t(";tag=")),
        2 => format!("\"a;tag=no\" <sip:{user}@example.com>{};x=y", t(";TAG=")),
        3 => format!("sip:{user}@example.com{}", t(";tag=")),
        4 => format!("<sip:{user}@example.com;tag=no;lr>;p\u{e9}=\u{e9}\u{e9}{}", t("; Tag=")),
        _ => format!("\"J\u{fc}rg\" <sip:{user}@example.com?x=y>{}", t(" ;tag=")),
    }
}

/// A Contact value naming `user`; the style varies the written form.
pub fn contact(style: i64, user: &str) -> String {
    match style {
        0 => format!("<sip:{user}@c.example.com:5070;transport=tcp>"),
        1 => format!("\"x, <y\" <sip:{user}@c.example.com:5070;transport=tcp>;q=0.5;expires=60").replace("<y", "y"),
        _ => format!("x <sip:{user}@c.example.com:5070;transport=tcp>;+sip.instance=\"<urn:uuid:1>\""),
    }
}

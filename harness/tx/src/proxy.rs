//! A forking proxy's response context (sip-proxy stateful), on a paused clock.
use crate::{it, st, Sut};
use bytes::Bytes;
use serde_json::{json, Value};
use sip_core::{Headers, Method, Request, RequestLine, Response, SipUri, StatusLine};
use sip_proxy::stateful::{BranchInfo, BranchState, ForkMode, ProxyContext, ProxyError, StatefulProxy};
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::mpsc::UnboundedReceiver;

const ECHO: [(&str, &str); 5] = [
    ("Via", "SIP/2.0/UDP client.example.com;branch=z9hG4bKcl"),
    ("From", "<sip:a@example.com>;tag=a"),
    ("To", "<sip:b@example.com>"),
    ("Call-ID", "call-1"),
    ("CSeq", "7 INVITE"),
];

struct Px {
    rt: tokio::runtime::Runtime,
    _proxy: StatefulProxy,
    ctx: Arc<ProxyContext>,
    rx: UnboundedReceiver<Response>,
}

fn request(method: Method) -> Request {
    let mut h = Headers::new();
    for (k, v) in ECHO {
        let v = if k == "CSeq" { format!("7 {}", method.as_str()) } else { v.to_string() };
        h.push(k, v).expect("SCRIPT: header");
    }
    h.push("Max-Forwards", "70").unwrap();
    Request::new(RequestLine::new(method, SipUri::parse("sip:b@example.com").unwrap()), h, Bytes::new()).expect("SCRIPT: request")
}

pub fn make(cfg: &Value) -> Box<dyn Sut> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .expect("SCRIPT: runtime");
    let proxy = StatefulProxy::new().with_timer_c(Duration::from_millis(it(cfg, "c") as u64));
    let mode = match st(cfg, "mode") {
        "par" => ForkMode::Parallel,
        "seq" => ForkMode::Sequential,
        _ => ForkMode::None,
    };
    let (ctx, rx) = proxy
        .start_context(request(Method::Invite), "call-1".into(), "z9hG4bKcl".into(), "p.example.com".into(), "UDP".into(), mode)
        .expect("SCRIPT: context");
    Box::new(Px { rt, _proxy: proxy, ctx, rx })
}

fn bid(b: &str) -> String {
    format!("z9hG4bK{b}")
}
fn target(b: &str) -> SipUri {
    SipUri::parse(&format!("sip:{b}@target.example.com")).expect("SCRIPT: uri")
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().expect("SCRIPT: list").iter().map(|x| x.as_str().expect("SCRIPT: string").to_string()).collect()
}
fn show(r: &Response) -> Value {
    let all = |n: &str| {
        let v: Vec<String> = r.headers().get_all_smol(n).map(|x| x.to_string()).collect();
        let s: BTreeSet<String> = v.iter().cloned().collect();
        if s.len() != v.len() {
            return json!(["DUPLICATED"]);
        }
        json!(s.into_iter().collect::<Vec<_>>())
    };
    let own = r.headers().get("X-Id").map(|x| x.parse::<i64>().unwrap_or(-1));
    let echo = own.is_some() || ECHO.iter().all(|(k, v)| r.headers().get(k) == Some(v));
    json!({"code": r.code(), "n": own.unwrap_or(if echo { 0 } else { -2 }),
           "www": all("WWW-Authenticate"), "px": all("Proxy-Authenticate")})
}

impl Sut for Px {
    fn step(&mut self, v: &Value) -> Value {
        let ctx = self.ctx.clone();
        let mut r = "ok".to_string();
        let mut extra = json!([]);
        let mut fwd: Vec<Value> = vec![];
        let mut twice = None;
        self.rt.block_on(async {
            match st(v, "op") {
                "add" => {
                    let b = BranchInfo::new(bid(st(v, "b")), target(st(v, "b")), Instant::now(), BranchState::Trying)
                        .expect("SCRIPT: branch");
                    r = match ctx.add_branch(b).await {
                        Ok(()) => "ok".into(),
                        Err(ProxyError::TerminatedBy6xx) => "over".into(),
                        Err(ProxyError::TooManyBranches { .. }) => "full".into(),
                        Err(e) => format!("{e:?}"),
                    };
                }
                "resp" => {
                    let mut h = Headers::new();
                    for (k, x) in ECHO {
                        h.push(k, x).unwrap();
                    }
                    h.push("X-Id", it(v, "n").to_string()).unwrap();
                    for x in strs(&v["www"]) {
                        h.push("WWW-Authenticate", x).expect("SCRIPT: www");
                    }
                    for x in strs(&v["px"]) {
                        h.push("Proxy-Authenticate", x).expect("SCRIPT: px");
                    }
                    let resp = Response::new(StatusLine::new(it(v, "code") as u16, "X").expect("SCRIPT: code"), h, Bytes::new())
                        .expect("SCRIPT: response");
                    if let Some(f) = ctx.process_response(&bid(st(v, "b")), resp).await {
                        fwd.push(show(&f));
                    }
                }
                "fail" => twice = Some(ctx.report_transport_error(&bid(st(v, "b"))).await.map(|f| show(&f))),
                "wait" => tokio::time::sleep(Duration::from_millis(it(v, "ms") as u64)).await,
                "cancels" => {
                    let mut t: Vec<String> = vec![];
                    for c in ctx.build_cancel_requests(&request(Method::Cancel)).await {
                        let via = c.headers().get("Via").unwrap_or("").to_string();
                        let b = via.split("branch=z9hG4bK").nth(1).unwrap_or("?").split(';').next().unwrap_or("?").to_string();
                        let ok = c.method() == &Method::Cancel
                            && c.uri().as_str() == target(&b).as_str()
                            && c.headers().get("CSeq") == Some("7 CANCEL");
                        t.push(if ok { b } else { format!("WRONG {b}") });
                    }
                    t.sort();
                    extra = json!(t);
                }
                "best" => r = format!("{:?}", ctx.best_response_is_2xx().await),
                "over" => r = format!("{}", ctx.is_terminated_by_6xx().await),
                o => panic!("SCRIPT: op {o}"),
            }
            for _ in 0..100 {
                tokio::task::yield_now().await;
            }
        });
        let mut chan = vec![];
        while let Ok(x) = self.rx.try_recv() {
            chan.push(show(&x));
        }
        if let Some(t) = twice {
            if t.iter().cloned().collect::<Vec<_>>() != chan {
                r = "split".into();
            }
        }
        fwd.extend(chan);
        json!({"r": r, "fwd": fwd, "x": extra})
    }
}

//! The transaction layer: real TransactionManager on a paused tokio clock,
//! recording dispatcher and transaction user.
//!
//! Event ids: client "c/<branch>/<METHOD>", server "s/<branch>/<METHOD>".
//! Every step reports, per transaction, the time (ms since the step began) and
//! content of everything sent and every callback.
use crate::{bo, clock, it, st, Sut};
use bytes::Bytes;
use serde_json::{json, Value};
use sip_core::{Headers, Method, Request, RequestLine, Response, SipUri, StatusLine};
use sip_transaction::{
    ClientTransactionUser, TransactionKey, TransactionLimits, TransactionManager, TransportContext,
    TransportDispatcher, TransportKind,
};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Default)]
struct Log {
    out: Vec<(String, u64, String)>,
    fail: HashSet<SocketAddr>,
    first: HashMap<String, Bytes>,
    start: Option<tokio::time::Instant>,
}
type Shared = Arc<Mutex<Log>>;

impl Log {
    fn put(&mut self, x: String, what: String) {
        let t = self.start.map_or(0, |s| s.elapsed().as_millis() as u64);
        self.out.push((x, t, what));
    }
}

fn peer(name: &str) -> SocketAddr {
    let n = name.bytes().fold(0u16, |a, b| a.wrapping_mul(31).wrapping_add(b as u16));
    SocketAddr::from(([192, 0, 2, 1], 10000 + n % 20000))
}

struct Names(Mutex<HashMap<SocketAddr, String>>);
impl Names {
    fn addr(&self, n: &str) -> SocketAddr {
        let a = peer(n);
        let old = self.0.lock().unwrap().insert(a, n.to_string());
        assert!(old.is_none() || old.as_deref() == Some(n), "SCRIPT: peer names collide");
        a
    }
    fn name(&self, a: SocketAddr) -> String {
        self.0.lock().unwrap().get(&a).cloned().unwrap_or_else(|| a.to_string())
    }
}

fn kind(s: &str) -> TransportKind {
    match s {
        "UDP" => TransportKind::Udp,
        "TCP" => TransportKind::Tcp,
        "TLS" => TransportKind::Tls,
        "WS" => TransportKind::Ws,
        "WSS" => TransportKind::Wss,
        "SCTP" => TransportKind::Sctp,
        "TLS-SCTP" => TransportKind::TlsSctp,
        _ => panic!("SCRIPT: transport {s}"),
    }
}
fn kname(k: TransportKind) -> &'static str {
    match k {
        TransportKind::Udp => "UDP",
        TransportKind::Tcp => "TCP",
        TransportKind::Tls => "TLS",
        TransportKind::Ws => "WS",
        TransportKind::Wss => "WSS",
        TransportKind::Sctp => "SCTP",
        TransportKind::TlsSctp => "TLS-SCTP",
    }
}

fn header<'a>(text: &'a str, name: &str) -> &'a str {
    text.split("\r\n")
        .find_map(|l| l.split_once(':').filter(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.trim()))
        .unwrap_or("")
}
fn branch(via: &str) -> &str {
    via.split(';').find_map(|p| p.trim().strip_prefix("branch=z9hG4bK")).unwrap_or("?")
}

struct Disp {
    log: Shared,
    names: Arc<Names>,
}
#[async_trait::async_trait]
impl TransportDispatcher for Disp {
    async fn dispatch(&self, ctx: &TransportContext, payload: Bytes) -> anyhow::Result<()> {
        let text = String::from_utf8_lossy(&payload).to_string();
        let first = text.split("\r\n").next().unwrap_or("").to_string();
        let b = branch(header(&text, "Via")).to_string();
        let m = header(&text, "CSeq").split(' ').nth(1).unwrap_or("?").to_string();
        let id = header(&text, "X-Id").to_string();
        let (x, w) = if let Some(r) = first.strip_prefix("SIP/2.0 ") {
            (format!("s/{b}/{m}"), format!("{}:{id}", &r[..3]))
        } else {
            (format!("c/{b}/{m}"), format!("{}:{id}", first.split(' ').next().unwrap_or("?")))
        };
        let mut l = self.log.lock().unwrap();
        let same = l.first.entry(format!("{x} {w}")).or_insert_with(|| payload.clone()) == &payload;
        let bad = l.fail.contains(&ctx.peer());
        let what = format!(
            "send{} {}/{} {w}{}",
            if bad { "!" } else { "" },
            self.names.name(ctx.peer()),
            kname(ctx.transport()),
            if same { "" } else { " CHANGED" }
        );
        l.put(x, what);
        if bad {
            anyhow::bail!("unreachable")
        }
        Ok(())
    }
}

fn kid(k: &TransactionKey) -> String {
    format!(
        "{}/{}/{}",
        if k.is_server() { "s" } else { "c" },
        k.branch().strip_prefix("z9hG4bK").unwrap_or(k.branch()),
        k.method().as_str()
    )
}

struct Tu {
    log: Shared,
    names: Arc<Names>,
}
fn rid(r: &Response) -> String {
    format!("{}:{}", r.code(), r.headers().get("X-Id").unwrap_or(""))
}
#[async_trait::async_trait]
impl ClientTransactionUser for Tu {
    async fn on_provisional(&self, key: &TransactionKey, r: &Response) {
        self.log.lock().unwrap().put(kid(key), format!("prov {}", rid(r)));
    }
    async fn on_final(&self, key: &TransactionKey, r: &Response) {
        self.log.lock().unwrap().put(kid(key), format!("final {}", rid(r)));
    }
    async fn on_terminated(&self, key: &TransactionKey, reason: &str) {
        let c = match reason.to_ascii_lowercase() {
            s if s.contains("timer") || s.contains("timeout") => "timeout",
            s if s.contains("transport") => "transport",
            s if s.contains("limit") => "limit",
            _ => "other",
        };
        self.log.lock().unwrap().put(kid(key), format!("end {c}"));
    }
    async fn send_ack(&self, key: &TransactionKey, r: Response, ctx: &TransportContext, is_2xx: bool) {
        let p = self.names.name(ctx.peer());
        self.log.lock().unwrap().put(
            kid(key),
            format!("ack{} {p}/{} {}", if is_2xx { "2xx" } else { "" }, kname(ctx.transport()), rid(&r)),
        );
    }
    async fn send_prack(&self, key: &TransactionKey, r: Response, ctx: &TransportContext) {
        let p = self.names.name(ctx.peer());
        self.log
            .lock()
            .unwrap()
            .put(kid(key), format!("prack {p}/{} {}", kname(ctx.transport()), rid(&r)));
    }
    async fn on_transport_error(&self, key: &TransactionKey) {
        self.log.lock().unwrap().put(kid(key), "failed".into());
    }
}

struct Tx {
    rt: tokio::runtime::Runtime,
    mgr: TransactionManager,
    log: Shared,
    names: Arc<Names>,
    tu: Arc<Tu>,
    keep: Vec<tokio::sync::mpsc::Receiver<Bytes>>,
}

fn hdrs(b: &str, m: &str, n: i64) -> Headers {
    let mut h = Headers::new();
    for (k, v) in [
        ("Via", format!("SIP/2.0/UDP h.example.com;branch=z9hG4bK{b}")),
        ("From", "<sip:a@example.com>;tag=a".to_string()),
        ("To", "<sip:b@example.com>".to_string()),
        ("Call-ID", format!("call-{b}")),
        ("CSeq", format!("1 {m}")),
        ("Max-Forwards", "70".to_string()),
        ("X-Id", n.to_string()),
    ] {
        h.push(k, v).unwrap_or_else(|e| panic!("SCRIPT: header {k}: {e:?}"));
    }
    h
}
fn request(v: &Value) -> Request {
    let m = st(v, "m");
    let line = RequestLine::new(Method::from_token(m).expect("SCRIPT: method"), SipUri::parse("sip:b@example.com").unwrap());
    Request::new(line, hdrs(st(v, "b"), m, it(v, "n")), Bytes::new()).expect("SCRIPT: request")
}
fn response(v: &Value, rel: bool) -> Response {
    let code = it(v, "code") as u16;
    let mut h = hdrs(st(v, "b"), st(v, "m"), it(v, "n"));
    if rel {
        h.push("Require", "100rel").unwrap();
        h.push("RSeq", "1").unwrap();
    }
    Response::new(StatusLine::new(code, "X").expect("SCRIPT: code"), h, Bytes::new()).expect("SCRIPT: response")
}

pub fn make(cfg: &Value) -> Box<dyn Sut> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .expect("SCRIPT: runtime");
    let log: Shared = Default::default();
    let names = Arc::new(Names(Mutex::new(HashMap::new())));
    let ms = |k: &str| Duration::from_millis(it(cfg, k) as u64);
    let mgr = rt.block_on(async {
        TransactionManager::with_timers_and_limits(
            Arc::new(Disp { log: log.clone(), names: names.clone() }),
            ms("t1"),
            ms("t2"),
            ms("t4"),
            TransactionLimits::new(it(cfg, "maxs") as usize, it(cfg, "maxc") as usize),
        )
    });
    let tu = Arc::new(Tu { log: log.clone(), names: names.clone() });
    Box::new(Tx { rt, mgr, log, names, tu, keep: vec![] })
}

impl Tx {
    fn ctx(&mut self, to: &str, tr: &str) -> TransportContext {
        let stream = (tr == "TCP").then(|| {
            let (a, b) = tokio::sync::mpsc::channel(1);
            self.keep.push(b);
            a
        });
        TransportContext::new(kind(tr), self.names.addr(to), stream)
    }
}

impl Sut for Tx {
    fn step(&mut self, v: &Value) -> Value {
        clock::advance_ms(1);
        let mgr = self.mgr.clone();
        let log = self.log.clone();
        let mut targets = vec![];
        match st(v, "op") {
            "start" => {
                for t in v["tgt"].as_array().expect("SCRIPT: tgt") {
                    targets.push(self.ctx(st(t, "to"), st(t, "tr")));
                }
            }
            "req" => targets.push(self.ctx(st(v, "to"), st(v, "tr"))),
            "fail" => {
                let a = self.names.addr(st(v, "to"));
                let mut l = log.lock().unwrap();
                if bo(v, "on") {
                    l.fail.insert(a);
                } else {
                    l.fail.remove(&a);
                }
            }
            _ => {}
        }
        let tu = self.tu.clone();
        let (r, key) = self.rt.block_on(async {
            log.lock().unwrap().start = Some(tokio::time::Instant::now());
            let skey = |v: &Value| {
                TransactionKey::new(format!("z9hG4bK{}", st(v, "b")), Method::from_token(st(v, "m")).unwrap(), true)
            };
            let mut key = String::new();
            let r = match st(v, "op") {
                "start" => match mgr.start_client_transaction_with_targets(request(v), targets, tu).await {
                    Ok(k) => {
                        key = kid(&k);
                        "ok"
                    }
                    Err(_) => "refused",
                },
                "resp" => {
                    mgr.receive_response(response(v, bo(v, "rel"))).await;
                    "ok"
                }
                "req" => {
                    let h = mgr.receive_request(request(v), targets.remove(0)).await;
                    key = kid(h.key());
                    "ok"
                }
                "sendp" => {
                    mgr.send_provisional(&skey(v), response(v, false)).await;
                    "ok"
                }
                "sendf" => {
                    mgr.send_final(&skey(v), response(v, false)).await;
                    "ok"
                }
                "ack" => {
                    if mgr.ack_received(&skey(v)).await {
                        "yes"
                    } else {
                        "no"
                    }
                }
                "wait" => {
                    tokio::time::sleep(Duration::from_millis(it(v, "ms") as u64)).await;
                    "ok"
                }
                "fail" => "ok",
                o => panic!("SCRIPT: op {o}"),
            };
            // Let everything that is due now run to completion.
            for _ in 0..200 {
                tokio::task::yield_now().await;
            }
            (r, key)
        });
        let mut by: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for (x, t, w) in std::mem::take(&mut log.lock().unwrap().out) {
            by.entry(x).or_default().push(json!({"t": t, "w": w}));
        }
        let outs: Vec<Value> = by.into_iter().map(|(x, o)| json!({"x": x, "o": o})).collect();
        json!({"r": r, "key": key, "outs": outs})
    }
}

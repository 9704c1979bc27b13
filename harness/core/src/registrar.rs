//! Suite `registrar`: BasicRegistrar over MemoryLocationStore, driven
//! synchronously, asynchronously and through both store adapters.
use crate::{auth, bo, clock, it, st, Sut};
use anyhow::Result;
use async_trait::async_trait;
use serde_json::{json, Value};
use sip_auth::*;
use sip_core::*;
use sip_ratelimit::{RateLimitConfig, RateLimiter};
use sip_registrar::*;
use smol_str::SmolStr;
use std::future::Future;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

/// An asynchronous store whose first lookup after `arm` waits for `go`.
#[derive(Clone)]
struct Gate {
    inner: MemoryLocationStore,
    armed: Arc<AtomicBool>,
    go: Arc<tokio::sync::Semaphore>,
}
#[async_trait]
impl AsyncLocationStore for Gate {
    async fn upsert(&self, b: Binding) -> Result<()> {
        self.inner.upsert(b)
    }
    async fn remove(&self, a: &str, c: &str) -> Result<()> {
        self.inner.remove(a, c)
    }
    async fn remove_all(&self, a: &str) -> Result<()> {
        self.inner.remove_all(a)
    }
    async fn lookup(&self, a: &str) -> Result<Vec<Binding>> {
        let r = self.inner.lookup(a);
        if self.armed.swap(false, SeqCst) {
            self.go.acquire().await.expect("gate").forget();
        }
        r
    }
    async fn cleanup_expired(&self) -> Result<usize> {
        self.inner.cleanup_expired()
    }
}

type Auth = Arc<DigestAuthenticator<MemoryCredentialStore>>;
/// Lets the harness keep a handle on the authenticator.
struct Shared(Auth);
impl Authenticator for Shared {
    fn challenge(&self, r: &Request) -> Result<Response> {
        self.0.challenge(r)
    }
    fn verify(&self, r: &Request, h: &Headers) -> Result<bool> {
        Authenticator::verify(&*self.0, r, h)
    }
    fn credentials_for(&self, m: &Method, u: &str) -> Option<Credentials> {
        self.0.credentials_for(m, u)
    }
    fn nonce_is_stale(&self, r: &Request) -> bool {
        self.0.nonce_is_stale(r)
    }
    fn nonce_reuse_expired(&self, r: &Request) -> bool {
        self.0.nonce_reuse_expired(r)
    }
    fn presented_username(&self, r: &Request) -> Option<SmolStr> {
        self.0.presented_username(r)
    }
    fn challenge_stale(&self, r: &Request) -> Result<Response> {
        Authenticator::challenge_stale(&*self.0, r)
    }
}

enum Reg {
    Sync(BasicRegistrar<MemoryLocationStore, Shared>),
    Async(BasicRegistrar<MemoryLocationStore, Shared>),
    Down(BasicRegistrar<AsyncToSyncAdapter<MemoryLocationStore>, Shared>),
    Up(BasicRegistrar<SyncToAsyncAdapter<MemoryLocationStore>, Shared>),
    Gated(BasicRegistrar<Gate, Shared>),
}

struct S {
    store: MemoryLocationStore,
    auth: Option<Auth>,
    foreign: DigestAuthenticator<MemoryCredentialStore>,
    reg: Reg,
    gate: Gate,
    proxy: bool,
    aors: Vec<String>,
    rt: tokio::runtime::Runtime,
    n: u64,
    fillers: u64,
}

fn config<St>(cfg: &Value, store: St, auth: Option<Auth>) -> BasicRegistrar<St, Shared> {
    let mut r = BasicRegistrar::new(store, auth.map(Shared))
        .with_min_expires(Duration::from_secs(it(cfg, "min") as u64))
        .with_max_expires(Duration::from_secs(it(cfg, "max") as u64))
        .with_default_expires(Duration::from_secs(it(cfg, "def") as u64))
        .with_advertise_outbound_and_path(bo(cfg, "adv"));
    if bo(cfg, "sr") {
        let mut h = Headers::new();
        h.push("Service-Route", "<sip:orig@scscf.example.com;lr>").unwrap();
        r = r.with_service_route(sip_parse::parse_service_route(&h).expect("SCRIPT: service route"));
    }
    let rl = it(cfg, "rl") as u32;
    if rl > 0 {
        let c = RateLimitConfig::new(1, 86_400).unwrap().with_burst_capacity(rl).unwrap().with_idle_timeout(100_000_000);
        r = r.with_rate_limiter_key_fn(
            RateLimiter::new(c),
            Arc::new(|req: &Request| req.headers().get("X-Client").map(SmolStr::new)),
        );
    }
    r
}

fn digest_auth(cfg: &Value, proxy: bool) -> DigestAuthenticator<MemoryCredentialStore> {
    let mut store = MemoryCredentialStore::new();
    for u in cfg["users"].as_array().unwrap() {
        store.add(Credentials::new(st(u, "u"), st(u, "p"), auth::REALM));
    }
    DigestAuthenticator::new(auth::REALM, store).with_proxy_auth(proxy)
}

pub fn make(cfg: &Value) -> Box<dyn Sut> {
    let proxy = st(cfg, "auth") == "proxy";
    let a: Option<Auth> = (st(cfg, "auth") != "").then(|| Arc::new(digest_auth(cfg, proxy)));
    let store = MemoryLocationStore::new();
    let gate = Gate { inner: store.clone(), armed: Arc::default(), go: Arc::new(tokio::sync::Semaphore::new(0)) };
    let reg = match st(cfg, "mode") {
        "sync" => Reg::Sync(config(cfg, store.clone(), a.clone())),
        "async" => Reg::Async(config(cfg, store.clone(), a.clone())),
        "down" => Reg::Down(config(cfg, AsyncToSyncAdapter::new(store.clone()), a.clone())),
        "up" => Reg::Up(config(cfg, SyncToAsyncAdapter::new(store.clone()), a.clone())),
        "gate" => Reg::Gated(config(cfg, gate.clone(), a.clone())),
        m => panic!("SCRIPT: mode {m}"),
    };
    let rt = if st(cfg, "mode") == "down" || st(cfg, "mode") == "up" {
        tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap()
    } else {
        tokio::runtime::Builder::new_current_thread().build().unwrap()
    };
    Box::new(S {
        store,
        auth: a,
        foreign: digest_auth(cfg, proxy),
        reg,
        gate,
        proxy,
        aors: cfg["aors"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        rt,
        n: 0,
        fillers: 0,
    })
}

fn contact_value(c: &Value) -> String {
    let u = st(c, "u");
    let uri = match st(c, "form") {
        "" => u.to_string(),
        f => f.to_string(),
    };
    let mut ps: Vec<String> = vec![];
    let style = it(c, "style");
    if !st(c, "expRaw").is_empty() {
        ps.push(format!("{}={}", if style == 3 { "Expires" } else { "expires" }, st(c, "expRaw")));
    }
    if !st(c, "qRaw").is_empty() {
        ps.push(format!("{}={}", if style == 3 { "Q" } else { "q" }, st(c, "qRaw")));
    }
    if !st(c, "inst").is_empty() {
        ps.push(format!("+sip.instance=\"{}\"", st(c, "inst")));
    }
    if !st(c, "regRaw").is_empty() {
        ps.push(format!("reg-id={}", st(c, "regRaw")));
    }
    if style % 2 == 1 {
        ps.reverse();
    }
    let p: String = ps.iter().map(|x| format!(";{x}")).collect();
    match style {
        0 => format!("<{uri}>{p}"),
        1 => format!("\"Q, <sip:z@z>;expires=7 \\\"x\" <{uri}>{p}"),
        2 if !uri.contains([';', '?', ',']) => format!("{uri}{p}"),
        2 => format!("< {uri} >{p}"),
        3 => format!("Some Name <{uri}> {}", p.replace(';', " ; ").replace(';', ";").trim_end()),
        _ => format!("<{uri}>;foo;bar=\"x, y\"{p};baz=1"),
    }
}

fn with_header(req: &Request, name: &str, value: &str) -> Request {
    let mut h = req.headers().clone();
    h.push(name, value).expect("header");
    Request::new(req.start_line().clone(), h, req.body().clone()).expect("request")
}

impl S {
    fn build(&mut self, e: &Value) -> Request {
        self.n += 1;
        let n = self.n;
        let miss = st(e, "miss");
        let mut l: Vec<(String, String)> = vec![];
        let mut put = |name: &str, v: String| {
            if name != miss {
                l.push((name.to_string(), v));
            }
        };
        put("Via", format!("SIP/2.0/UDP c.example.com;branch=z9hG4bK{n}"));
        put("From", format!("<sip:someone@example.com>;tag=f{n}"));
        put("To", st(e, "to").to_string());
        put("Call-ID", st(e, "call").to_string());
        let cseq = it(e, "cseq");
        put("CSeq", match st(e, "cseqBad") {
            "" => format!("{cseq} REGISTER"),
            "num" => "x REGISTER".into(),
            "method" => format!("{cseq} INVITE"),
            "huge" => "4294967296 REGISTER".into(),
            "big" => "2147483648 REGISTER".into(),
            x => panic!("SCRIPT: cseqBad {x}"),
        });
        put("Max-Forwards", "70".into());
        if !st(e, "hexpRaw").is_empty() {
            put("Expires", st(e, "hexpRaw").to_string());
        }
        if !st(e, "ua").is_empty() {
            put("User-Agent", st(e, "ua").to_string());
        }
        if !st(e, "key").is_empty() {
            put("X-Client", st(e, "key").to_string());
        }
        if !st(e, "path").is_empty() {
            for p in st(e, "path").split('|') {
                put("Path", p.to_string());
            }
        }
        let mut cs: Vec<String> = e["contacts"].as_array().unwrap().iter().map(contact_value).collect();
        if bo(e, "wild") {
            cs.push("*".into());
        }
        if bo(e, "join") && !cs.is_empty() {
            put("Contact", cs.join(", "));
        } else {
            for c in cs {
                put("Contact", c);
            }
        }
        if bo(e, "wire") {
            let mut t = String::from("REGISTER sip:example.com SIP/2.0\r\n");
            for (k, v) in &l {
                let k = match k.as_str() {
                    "Contact" => "m",
                    "To" => "t",
                    "From" => "f",
                    "Call-ID" => "i",
                    "Via" => "v",
                    k => k,
                };
                t += &format!("{k}: {v}\r\n");
            }
            t += "l: 0\r\n\r\n";
            if let Some(r) = sip_parse::parse_request(&bytes::Bytes::from(t)) {
                return r;
            }
        }
        crate::msg::request("REGISTER", "sip:example.com", &l)
    }

    /// The request with the credentials the event asks for.
    fn credentials(&mut self, e: &Value, req: Request) -> Request {
        let c = &e["cred"];
        let m = st(c, "mut");
        let Some(a) = self.auth.clone() else { return req };
        if m == "none" {
            return req;
        }
        let src: &DigestAuthenticator<MemoryCredentialStore> = if m == "foreign" { &self.foreign } else { &a };
        let ch = src.challenge(&req).expect("challenge");
        let (code, name) = if self.proxy { (407, "Proxy-Authenticate") } else { (401, "WWW-Authenticate") };
        assert_eq!(ch.code(), code);
        let p = auth::params(ch.headers().get(name).expect("challenge header"));
        let g = |k: &str| p.get(k).cloned().unwrap_or_default();
        let (uri, method) = ("sip:example.com", if m == "wrongmethod" { "INVITE" } else { "REGISTER" });
        let line = |user: &str, pass: &str| {
            let mut resp = auth::digest(&g("algorithm"), user, auth::REALM, pass, method, uri, &g("nonce"), "00000001", "cn", "auth", b"");
            if m == "resp" {
                resp = resp.chars().rev().collect();
            }
            format!(
                "Digest username=\"{user}\", realm=\"{}\", nonce=\"{}\", uri=\"{uri}\", response=\"{resp}\", algorithm={}, qop=auth, nc=00000001, cnonce=\"cn\", opaque=\"{}\"",
                auth::REALM, g("nonce"), g("algorithm"), g("opaque"))
        };
        let (mine, other) = if self.proxy { ("Proxy-Authorization", "Authorization") } else { ("Authorization", "Proxy-Authorization") };
        let good = line(st(c, "user"), st(c, "pass"));
        let lie = line(st(c, "victim"), "guess");
        match m {
            "other" => with_header(&req, other, &good),
            "dual" => with_header(&with_header(&req, other, &lie), mine, &good),
            "before" => with_header(&with_header(&req, mine, &lie), mine, &good),
            "after" => with_header(&with_header(&req, mine, &good), mine, &lie),
            "basic" => with_header(&req, mine, &good.replacen("Digest", "Basic", 1)),
            _ => with_header(&req, mine, &good),
        }
    }

    fn prepare(&mut self, e: &Value) -> Request {
        let r = self.build(e);
        self.credentials(e, r)
    }

    fn answer(&self, r: Result<Response>) -> Value {
        let none = |code: i64, min: i64| json!({"r":"reg","code":code,"min":min,"n":0,"ct":[],"paths":[],"sr":false,"adv":false});
        let r = match r {
            Ok(r) => r,
            Err(_) => return none(0, -1),
        };
        let code = r.code() as i64;
        let h = r.headers();
        let min = h.get("Min-Expires").map(|x| x.parse::<i64>().unwrap_or(-7)).unwrap_or(-1);
        if code != 200 {
            if h.get_all("Contact").next().is_some() {
                return json!({"r":"refusal with contacts"});
            }
            return none(code, min);
        }
        let mut ct = vec![];
        for v in h.get_all("Contact") {
            // read back as any RFC 3261 implementation would
            let (uri, params) = match v.split_once('<') {
                Some((_, rest)) => rest.split_once('>').unwrap_or((rest, "")),
                None => v.split_once(';').unwrap_or((v, "")),
            };
            let (mut x, mut q) = (-1i64, -1i64);
            for p in params.split(';') {
                match p.trim().split_once('=') {
                    Some(("expires", y)) => x = y.parse().unwrap_or(-7),
                    Some(("q", y)) => q = y.parse::<f64>().map(|y| (y * 1000.0).round() as i64).unwrap_or(-7),
                    _ => {}
                }
            }
            ct.push(json!([uri, x, q]));
        }
        let mut paths: Vec<&str> = h.get_all("Path").collect();
        paths.sort();
        let np = paths.len();
        paths.dedup();
        if np != paths.len() || h.get_all("Via").count() != 1 {
            return json!({"r":"repeated headers"});
        }
        json!({"r":"reg","code":200,"min":min,"n":ct.len(),"ct":ct,"paths":paths.iter().map(|p| p.replace(", ", "|").replace(',', "|")).collect::<Vec<_>>(),
               "sr": h.get("Service-Route").is_some(), "adv": h.get("Supported").is_some_and(|x| x.contains("outbound"))})
    }

    fn register(&mut self, e: &Value) -> Value {
        let req = self.prepare(e);
        let r = match &self.reg {
            Reg::Sync(g) => g.handle_register(&req),
            Reg::Async(g) => self.rt.block_on(g.handle_register_async(&req)),
            Reg::Down(g) => self.rt.block_on(async { g.handle_register(&req) }),
            Reg::Up(g) => self.rt.block_on(g.handle_register_async(&req)),
            Reg::Gated(g) => self.rt.block_on(g.handle_register_async(&req)),
        };
        self.answer(r)
    }

    fn race(&mut self, e: &Value) -> Value {
        let (a, b) = (self.prepare(&e["a"]), self.prepare(&e["b"]));
        let Reg::Gated(g) = &self.reg else { panic!("SCRIPT: race needs mode gate") };
        self.gate.armed.store(true, SeqCst);
        type F<'a> = std::pin::Pin<Box<dyn Future<Output = Result<Response>> + 'a>>;
        fn poll(f: &mut F<'_>, out: &mut Option<Result<Response>>) {
            if out.is_none() {
                let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
                if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                    *out = Some(x);
                }
            }
        }
        let _in = self.rt.enter();
        let (mut fa, mut fb): (F, F) = (Box::pin(g.handle_register_async(&a)), Box::pin(g.handle_register_async(&b)));
        let (mut ra, mut rb) = (None, None);
        poll(&mut fa, &mut ra);
        poll(&mut fb, &mut rb);
        self.gate.go.add_permits(1);
        for _ in 0..1000 {
            poll(&mut fa, &mut ra);
            poll(&mut fb, &mut rb);
        }
        drop((fa, fb));
        self.gate.armed.store(false, SeqCst);
        if self.gate.go.available_permits() > 0 {
            self.gate.go.try_acquire().expect("gate").forget();
        }
        let (Some(ra), Some(rb)) = (ra, rb) else { return json!({"r":"HANG"}) };
        json!({"r":"race","a":self.answer(ra),"b":self.answer(rb)})
    }

    /// A runtime on which blocking adapters may be used.
    fn threads(&mut self) -> &tokio::runtime::Runtime {
        if self.rt.handle().runtime_flavor() == tokio::runtime::RuntimeFlavor::CurrentThread {
            self.rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).build().unwrap();
        }
        &self.rt
    }

    fn table(&self, aors: &[String]) -> Value {
        let mut n = 0;
        let tab: Vec<Value> = aors
            .iter()
            .map(|a| {
                let rows: Vec<Value> = self
                    .store
                    .lookup(a)
                    .expect("lookup")
                    .iter()
                    .map(|b| {
                        n += 1;
                        assert_eq!(b.aor(), a);
                        json!([b.contact(), b.expires().as_millis() as i64, b.call_id(), b.cseq(),
                               (b.q_value() as f64 * 1000.0).round() as i64, b.user_agent().unwrap_or(""),
                               b.path().map(|p| p.to_string().replace(", ", "|").replace(',', "|")).unwrap_or_default(),
                               b.instance_id().unwrap_or("").trim_matches('"'), b.reg_id().map(|x| x as i64).unwrap_or(-1),
                               b.flow_token().unwrap_or("")])
                    })
                    .collect();
                json!([a, rows])
            })
            .collect();
        json!({"r":"tab","tab":tab,"n":n})
    }
}

impl Sut for S {
    fn step(&mut self, e: &Value) -> Value {
        let n = |n: usize| json!({"r":"n","n":n});
        let res = |r: Result<()>| json!({"r": if r.is_ok() { "ok" } else { "err" }});
        match st(e, "op") {
            "reg" => self.register(e),
            "race" => self.race(e),
            "tick" => {
                clock::advance_ms(it(e, "dt"));
                json!({"r":"ok"})
            }
            "dump" => self.table(&self.aors.clone()),
            "find" => self.table(&[st(e, "aor").to_string()]),
            "put" => res((|| {
                let mut b = Binding::new(SmolStr::new(st(e, "aor")), SmolStr::new(st(e, "u")), Duration::from_secs(it(e, "exp") as u64))?
                    .with_call_id(SmolStr::new(st(e, "call")))?
                    .with_cseq(if it(e, "cseq") < 0 { 2_147_483_648 } else { it(e, "cseq") as u32 })?
                    .with_q_value(it(e, "q") as f32 / 1000.0)?;
                if !st(e, "ua").is_empty() {
                    b = b.with_user_agent(SmolStr::new(st(e, "ua")))?;
                }
                if !st(e, "path").is_empty() {
                    let mut h = Headers::new();
                    for p in st(e, "path").split('|') {
                        h.push("Path", p).unwrap();
                    }
                    b = b.with_path(sip_parse::parse_path(&h).expect("SCRIPT: path"));
                }
                if !st(e, "inst").is_empty() {
                    b = b.with_instance_id(SmolStr::new(st(e, "inst")));
                }
                if it(e, "reg") >= 0 {
                    b = b.with_reg_id(it(e, "reg") as u32);
                }
                if !st(e, "flow").is_empty() {
                    b = b.with_flow_token(SmolStr::new(st(e, "flow")));
                }
                match st(e, "via") {
                    "" => self.store.upsert(b),
                    "down" => {
                        let a = AsyncToSyncAdapter::new(self.store.clone());
                        self.threads().block_on(async { LocationStore::upsert(&a, b) })
                    }
                    _ => {
                        let a = SyncToAsyncAdapter::new(self.store.clone());
                        self.threads().block_on(AsyncLocationStore::upsert(&a, b))
                    }
                }
            })()),
            "del" => res(match st(e, "via") {
                "" => self.store.remove(st(e, "aor"), st(e, "u")),
                "down" => {
                    let a = AsyncToSyncAdapter::new(self.store.clone());
                    self.threads().block_on(async { LocationStore::remove(&a, st(e, "aor"), st(e, "u")) })
                }
                _ => {
                    let a = SyncToAsyncAdapter::new(self.store.clone());
                    self.threads().block_on(AsyncLocationStore::remove(&a, st(e, "aor"), st(e, "u")))
                }
            }),
            "delall" => res(match st(e, "via") {
                "" => self.store.remove_all(st(e, "aor")),
                "down" => {
                    let a = AsyncToSyncAdapter::new(self.store.clone());
                    self.threads().block_on(async { LocationStore::remove_all(&a, st(e, "aor")) })
                }
                _ => {
                    let a = SyncToAsyncAdapter::new(self.store.clone());
                    self.threads().block_on(AsyncLocationStore::remove_all(&a, st(e, "aor")))
                }
            }),
            "cleanup" => n(match st(e, "via") {
                "" => self.store.cleanup_expired(),
                "down" => {
                    let a = AsyncToSyncAdapter::new(self.store.clone());
                    self.threads().block_on(async { LocationStore::cleanup_expired(&a) })
                }
                _ => {
                    let a = SyncToAsyncAdapter::new(self.store.clone());
                    self.threads().block_on(AsyncLocationStore::cleanup_expired(&a))
                }
            }.expect("cleanup")),
            "fill" => {
                for k in 0..it(e, "n") {
                    if k % 20 == 0 {
                        self.fillers += 1;
                    }
                    let b = Binding::new(SmolStr::new(format!("sip:filler{}@x", self.fillers)), SmolStr::new(format!("sip:f{k}@x")),
                                         Duration::from_secs(it(e, "exp") as u64)).expect("filler");
                    if self.store.upsert(b).is_err() {
                        return json!({"r":"err"});
                    }
                }
                json!({"r":"ok"})
            }
            x => panic!("SCRIPT: op {x}"),
        }
    }
}

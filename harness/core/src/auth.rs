//! Suite `auth`: the digest authenticator, its nonce table and the client
//! helper, with an independent digest computation.
use crate::{bo, clock, it, st, Sut};
use bytes::Bytes;
use serde_json::{json, Value};
use sip_auth::*;
use sip_core::{Headers, Method, Request, RequestLine, SipUri};
use sip_ratelimit::{RateLimitConfig, RateLimiter};
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier};
use std::time::Duration;

pub const REALM: &str = "example.com";
pub const ALGS: [&str; 8] = [
    "MD5", "MD5-sess", "SHA-256", "SHA-256-sess", "SHA-512", "SHA-512-sess", "SHA-512-256", "SHA-512-256-sess",
];

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn h(alg: &str, data: &[u8]) -> String {
    let base = alg.strip_suffix("-sess").unwrap_or(alg);
    match base {
        "MD5" => format!("{:x}", md5::compute(data)),
        "SHA-256" => hex(ring::digest::digest(&ring::digest::SHA256, data).as_ref()),
        "SHA-512" => hex(ring::digest::digest(&ring::digest::SHA512, data).as_ref()),
        "SHA-512-256" => hex(&ring::digest::digest(&ring::digest::SHA512, data).as_ref()[..32]),
        _ => panic!("SCRIPT: alg {alg}"),
    }
}

/// RFC 7616 response (or rspauth when `method` is empty).
#[allow(clippy::too_many_arguments)]
pub fn digest(
    alg: &str, user: &str, realm: &str, pass: &str, method: &str, uri: &str, nonce: &str, nc: &str, cnonce: &str,
    qop: &str, body: &[u8],
) -> String {
    let mut a1 = h(alg, format!("{user}:{realm}:{pass}").as_bytes());
    if alg.ends_with("-sess") {
        a1 = h(alg, format!("{a1}:{nonce}:{cnonce}").as_bytes());
    }
    let a2 = if qop == "auth-int" {
        h(alg, format!("{method}:{uri}:{}", h(alg, body)).as_bytes())
    } else {
        h(alg, format!("{method}:{uri}").as_bytes())
    };
    if qop.is_empty() {
        h(alg, format!("{a1}:{nonce}:{a2}").as_bytes())
    } else {
        h(alg, format!("{a1}:{nonce}:{nc}:{cnonce}:{qop}:{a2}").as_bytes())
    }
}

/// The parameters of a `Digest ...` value, read independently of the code
/// under test (no quoted pairs occur in the scripts).
pub fn params(v: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let rest = v.trim().split_once(' ').map(|x| x.1).unwrap_or("");
    let (mut cur, mut q) = (String::new(), false);
    for c in rest.chars().chain(",".chars()) {
        match c {
            '"' => q = !q,
            ',' if !q => {
                if let Some((n, x)) = cur.split_once('=') {
                    out.insert(n.trim().to_ascii_lowercase(), x.trim().to_string());
                }
                cur.clear();
            }
            c => cur.push(c),
        }
    }
    out
}

struct S {
    auth: Arc<DigestAuthenticator<MemoryCredentialStore>>,
    foreign: DigestAuthenticator<MemoryCredentialStore>,
    alg: String,
    qop: String,
    proxy: bool,
    asynch: bool,
    users: Vec<(String, String)>,
    nonces: Vec<String>,
    foreign_nonce: String,
    sent: Vec<(String, String)>,
    clients: BTreeMap<String, DigestClient>,
    mgr: NonceManager,
    mnonces: Vec<String>,
    opaque: Option<String>,
    rt: tokio::runtime::Runtime,
}

fn build(cfg: &Value, users: &[(String, String)]) -> DigestAuthenticator<MemoryCredentialStore> {
    let mut store = MemoryCredentialStore::new();
    for (u, p) in users {
        store.add(Credentials::new(u.as_str(), format!("{p}-elsewhere"), "other.example"));
        store.add(Credentials::new(u.as_str(), p.as_str(), REALM));
    }
    let mut a = DigestAuthenticator::new(REALM, store)
        .with_algorithm(DigestAlgorithm::parse(st(cfg, "alg")).expect("alg"))
        .with_qop(if st(cfg, "qop") == "auth" { Qop::Auth } else { Qop::AuthInt })
        .with_proxy_auth(bo(cfg, "proxy"));
    let (ttl, age) = (Duration::from_millis(it(cfg, "ttl") as u64), Duration::from_millis(it(cfg, "age") as u64));
    a = if it(cfg, "ttl") % 2 == 0 {
        a.with_nonce_ttl(ttl).with_max_request_age(age)
    } else {
        a.with_max_request_age(age).with_nonce_ttl(ttl)
    };
    if it(cfg, "rl") > 0 {
        let c = RateLimitConfig::new(it(cfg, "rl") as u32, 86_400).expect("rl");
        a = a.with_rate_limiter(RateLimiter::new(c.with_burst_capacity(it(cfg, "rl") as u32).expect("burst").with_idle_timeout(100_000_000)));
    }
    a
}

pub fn make(cfg: &Value) -> Box<dyn Sut> {
    let users: Vec<(String, String)> = cfg["users"]
        .as_array()
        .unwrap()
        .iter()
        .map(|u| (st(u, "u").to_string(), st(u, "p").to_string()))
        .collect();
    let auth = build(cfg, &users);
    let foreign = build(cfg, &users);
    let f = foreign.challenge(&request("REGISTER", "sip:example.com", "", None)).expect("challenge");
    let foreign_nonce = params(challenge_value(&f).1)["nonce"].clone();
    let ttl = Duration::from_millis(it(cfg, "ttl") as u64);
    Box::new(S {
        auth: Arc::new(auth),
        foreign,
        alg: st(cfg, "alg").into(),
        qop: st(cfg, "qop").into(),
        proxy: bo(cfg, "proxy"),
        asynch: bo(cfg, "async"),
        users,
        nonces: vec![],
        foreign_nonce,
        sent: vec![],
        clients: BTreeMap::new(),
        mgr: NonceManager::new(ttl)
            .with_max_nonces(it(cfg, "max") as usize)
            .with_max_request_age(Duration::from_millis(it(cfg, "age") as u64)),
        mnonces: vec![],
        opaque: None,
        rt: tokio::runtime::Builder::new_current_thread().build().unwrap(),
    })
}

fn challenge_value(r: &sip_core::Response) -> (bool, &str) {
    match (r.headers().get("WWW-Authenticate"), r.headers().get("Proxy-Authenticate")) {
        (Some(v), None) => (false, v),
        (None, Some(v)) => (true, v),
        _ => (false, ""),
    }
}

fn via(src: &str) -> Option<String> {
    Some(match src {
        "" => return None,
        "1.1.1.1" => "SIP/2.0/UDP 1.1.1.1:5062;branch=z9hG4bKx".into(),
        "2.2.2.2" => "SIP/2.0/UDP host.example:5060;branch=z9hG4bKx;received=2.2.2.2".into(),
        "2001:db8::1" => "SIP/2.0/TCP [2001:db8::1]:5060;branch=z9hG4bKx".into(),
        s => format!("SIP/2.0/TLS {s};branch=z9hG4bKx"),
    })
}

fn request(method: &str, uri: &str, body: &str, hdr: Option<(&str, &str)>) -> Request {
    request_from(method, uri, body, hdr, "")
}
fn request_from(method: &str, uri: &str, body: &str, hdr: Option<(&str, &str)>, src: &str) -> Request {
    let mut hs = Headers::new();
    if let Some(v) = via(src) {
        hs.push("Via", v).unwrap();
        hs.push("Via", "SIP/2.0/UDP 9.9.9.9;branch=z9hG4bKy").unwrap();
    }
    hs.push("From", "<sip:a@example.com>;tag=f").unwrap();
    if let Some((n, v)) = hdr {
        hs.push(n, v).unwrap_or_else(|e| panic!("SCRIPT: header {v}: {e}"));
    }
    Request::new(
        RequestLine::new(Method::from_token(method).unwrap_or_else(|_| panic!("SCRIPT: method")), SipUri::parse(uri).unwrap_or_else(|e| panic!("SCRIPT: uri {uri} {e}"))),
        hs,
        Bytes::from(body.to_string()),
    )
    .expect("request")
}

impl S {
    fn nonce(&self, n: i64) -> String {
        match n {
            0 => "madeupmadeupmadeupmadeupmadeup00".into(),
            -1 => self.foreign_nonce.clone(),
            n => self.nonces[n as usize - 1].clone(),
        }
    }
    fn hname(&self) -> &'static str {
        if self.proxy { "Proxy-Authorization" } else { "Authorization" }
    }

    fn craft(&self, a: &Value) -> (String, String) {
        let muts: Vec<&str> = a["muts"].as_array().unwrap().iter().map(|m| m.as_str().unwrap()).collect();
        let m = |x: &str| muts.contains(&x);
        let mut name = self.hname().to_string();
        if m("hdr") {
            name = if self.proxy { "Authorization" } else { "Proxy-Authorization" }.into();
        }
        if m("noauth") {
            name = "X-Other".into();
        }
        let other_alg = ALGS[(ALGS.iter().position(|x| *x == self.alg).unwrap() + 1) % 8];
        let other_qop = if self.qop == "auth" { "auth-int" } else { "auth" };
        let mut nonce = self.nonce(it(a, "n"));
        if m("nonce-empty") {
            nonce = String::new();
        }
        let mut nc = format!("{:08x}", it(a, "nc"));
        if m("nc-bad") {
            nc = "0000000g".into();
        }
        if m("nc-long") {
            nc = format!("0{nc}");
        }
        if m("nc-short") {
            nc = format!("{:x}", it(a, "nc"));
        }
        let cn = st(a, "cn").to_string();
        let realm = if m("realm") { "example.org" } else if m("realm-case") { "EXAMPLE.com" } else { REALM };
        let uri = if m("uri") { format!("{}x", st(a, "uri")) } else { st(a, "uri").to_string() };
        let alg_tok = if m("alg") {
            other_alg.to_string()
        } else if m("alg-bad") {
            "FOO".into()
        } else if m("alg-case") {
            self.alg.to_lowercase()
        } else {
            self.alg.clone()
        };
        let qop_tok = if m("qop-other") { other_qop } else { &self.qop };
        let opaque = if m("opaque") { "0123456789abcdef0123456789abcdef".into() } else { self.auth.opaque().to_string() };
        let user = st(a, "user").to_string();
        // what is signed
        let s_alg = if m("alg") || m("alg-lie") { other_alg } else { &self.alg };
        let s_qop = if m("legacy") {
            ""
        } else if m("qop-other") || m("qop-lie") {
            other_qop
        } else {
            &self.qop
        };
        let s_uri = if m("uri-signed") { format!("{uri}y") } else { uri.clone() };
        let s_method = if m("method-signed") { "SUBSCRIBE" } else { st(a, "method") };
        let s_body = if m("body-signed") { format!("{}z", st(a, "body")) } else { st(a, "body").to_string() };
        let s_nonce = if m("nonce-signed") { "abc".to_string() } else { nonce.clone() };
        let s_cn = if m("cn-signed") { "zzz".to_string() } else { cn.clone() };
        let s_nc = if m("nc-signed") { "7fffffff".to_string() } else { nc.clone() };
        let s_user = if m("user-signed") { format!("{user}2") } else { user.clone() };
        let s_realm = if m("realm-signed") { "other.example" } else { realm };
        let mut resp = digest(
            s_alg, &s_user, s_realm, st(a, "pass"), s_method, &s_uri, &s_nonce, &s_nc, &s_cn, s_qop, s_body.as_bytes(),
        );
        if m("resp-flip") {
            let c = if resp.starts_with('0') { '1' } else { '0' };
            resp.replace_range(0..1, &c.to_string());
        }
        if m("resp-upper") {
            resp = format!("{}A", &resp[..resp.len() - 1]);
        }
        if m("resp-trunc") {
            resp.pop();
        }
        if m("resp-empty") {
            resp.clear();
        }
        if m("resp-long") {
            resp.push('0');
        }
        let q = |x: &str| format!("\"{x}\"");
        let mut ps: Vec<(&str, String)> = vec![
            ("username", q(&user)),
            ("realm", q(realm)),
            ("nonce", q(&nonce)),
            ("uri", q(&uri)),
            ("response", q(&resp)),
            ("algorithm", alg_tok),
            ("qop", if m("qop-quoted") { q(qop_tok) } else { qop_tok.into() }),
            ("nc", nc),
            ("cnonce", q(&cn)),
            ("opaque", q(&opaque)),
        ];
        if m("extra") {
            ps.push(("x-ext", q("a, nonce=b")));
        }
        if m("legacy") {
            ps.retain(|(n, _)| !matches!(*n, "qop" | "nc" | "cnonce"));
        }
        for x in &muts {
            if let Some(n) = x.strip_suffix("-missing") {
                let n = if n == "alg" { "algorithm" } else { n };
                ps.retain(|(p, _)| *p != n);
            }
            if let Some(n) = x.strip_prefix("dup-") {
                let v = ps.iter().find(|(p, _)| *p == n).map(|(_, v)| v.clone()).unwrap_or_default();
                ps.push((Box::leak(n.to_uppercase().into_boxed_str()), v));
            }
        }
        match it(a, "style") {
            1 => ps.reverse(),
            2 => ps.rotate_left(4),
            _ => {}
        }
        let up = it(a, "style") == 2;
        let list: Vec<String> = ps
            .iter()
            .map(|(n, v)| {
                let n = if up { n.to_uppercase() } else { n.to_string() };
                if m("spaces") { format!("{n} = {v}") } else { format!("{n}={v}") }
            })
            .collect();
        let scheme = if m("scheme") { "Basic" } else if m("scheme-case") { "dIGEST" } else { "Digest" };
        let sep = if it(a, "style") == 1 { "," } else { ", " };
        (name, format!("{scheme} {}", list.join(sep)))
    }

    fn present(&self, a: &Value, cred: &(String, String)) -> Value {
        let r = request_from(st(a, "method"), st(a, "uri"), st(a, "body"), Some((&cred.0, &cred.1)), st(a, "src"));
        let ok = if self.asynch {
            self.rt.block_on(self.auth.verify_async(&r, r.headers()))
        } else {
            self.auth.verify(&r, r.headers())
        };
        json!({"r": if matches!(ok, Ok(true)) {"ok"} else {"no"}})
    }
}

impl Sut for S {
    fn step(&mut self, a: &Value) -> Value {
        match st(a, "op") {
            "tick" => {
                clock::advance_ms(it(a, "dt"));
                json!({"r":"ok"})
            }
            "chal" => {
                let mut hs = vec![];
                let vias: Vec<String> = (0..it(a, "vias")).map(|i| format!("SIP/2.0/UDP h{i}.example.com;branch=z9hG4bK{i}")).collect();
                for v in &vias {
                    hs.push(("Via".to_string(), v.clone()));
                }
                let from = crate::msg::name_addr(it(a, "style"), "alice", "ft");
                let to = crate::msg::name_addr(it(a, "style"), "alice", if bo(a, "tag") { "tt" } else { "" });
                hs.push(("From".into(), from.clone()));
                hs.push(("To".into(), to.clone()));
                hs.push(("Call-ID".into(), "cid@example.com".into()));
                hs.push(("CSeq".into(), "17 REGISTER".into()));
                let r = crate::msg::request("REGISTER", "sip:example.com", &hs);
                let c = if bo(a, "stale") {
                    if it(a, "style") % 2 == 0 {
                        self.auth.challenge_stale(&r)
                    } else {
                        Authenticator::challenge_stale(self.auth.as_ref(), &r)
                    }
                } else {
                    self.auth.challenge(&r)
                };
                let Ok(c) = c else { return json!({"r":"err"}) };
                let wire = sip_parse::serialize_response(&c);
                let c = match sip_parse::parse_response(&wire) {
                    Some(c) => c,
                    None => return json!({"r":"unparsable"}),
                };
                let (is_proxy, v) = challenge_value(&c);
                let p = params(v);
                let g = |n: &str| p.get(n).cloned().unwrap_or_default();
                let nonce = g("nonce");
                let fresh = nonce.len() >= 16 && !self.nonces.contains(&nonce) && nonce != self.foreign_nonce;
                self.nonces.push(nonce);
                let same_opaque = self.opaque.get_or_insert(g("opaque")) == &g("opaque");
                let good = is_proxy == self.proxy
                    && v.starts_with("Digest ")
                    && g("realm") == REALM
                    && g("algorithm") == self.alg
                    && g("qop") == self.qop
                    && same_opaque
                    && !g("opaque").is_empty()
                    && g("opaque") == self.auth.opaque()
                    && g("opaque") != self.foreign.opaque();
                let h = |n: &str| c.headers().get(n).unwrap_or("").to_string();
                let got: Vec<String> = c.headers().get_all("Via").map(|x| x.to_string()).collect();
                let copied = got == vias && h("From") == from && h("Call-ID") == "cid@example.com" && h("CSeq") == "17 REGISTER"
                    && h("To").starts_with(&to);
                let totag = if h("To") == to {
                    "kept"
                } else if h("To").strip_prefix(&to).is_some_and(|t| t.strip_prefix(";tag=").is_some_and(|t| !t.is_empty())) {
                    "new"
                } else {
                    "bad"
                };
                json!({"r":"chal","code":c.code(),"params":good,"stale":g("stale").eq_ignore_ascii_case("true"),
                       "fresh":fresh,"copied":copied,"totag":totag})
            }
            "fill" => {
                let r = request("REGISTER", "sip:example.com", "", None);
                for _ in 0..it(a, "k") {
                    self.auth.challenge(&r).expect("challenge");
                }
                json!({"r":"ok"})
            }
            "count" => json!({"r":"n","n":self.auth.nonce_manager().count()}),
            "attempt" => {
                let c = self.craft(a);
                let o = self.present(a, &c);
                self.sent.push(c);
                o
            }
            "skip" | "sign" => {
                let cl = self
                    .clients
                    .entry(st(a, "c").to_string())
                    .or_insert_with(|| DigestClient::new(st(a, "user"), st(a, "pass")));
                let nonce = match it(a, "n") {
                    0 => "madeupmadeupmadeupmadeupmadeup00".into(),
                    -1 => self.foreign_nonce.clone(),
                    n => self.nonces[n as usize - 1].clone(),
                };
                let alg = DigestAlgorithm::parse(&self.alg).unwrap();
                let qop = Qop::parse(&self.qop);
                let opaque = self.auth.opaque().to_string();
                let k = if st(a, "op") == "skip" { it(a, "k") } else { 1 };
                let mut v = String::new();
                for _ in 0..k {
                    v = cl.generate_authorization(
                        &Method::from_token(st(a, "method")).unwrap(), st(a, "uri"), REALM, &nonce, alg, qop,
                        Some(&opaque), st(a, "body").as_bytes(),
                    );
                }
                if st(a, "op") == "skip" {
                    return json!({"r":"ok"});
                }
                let nc = cl.nc();
                let p = params(&v);
                let g = |n: &str| p.get(n).cloned().unwrap_or_default();
                let good = v.starts_with("Digest ")
                    && g("username") == st(a, "user")
                    && g("realm") == REALM
                    && g("nonce") == nonce
                    && g("uri") == st(a, "uri")
                    && g("opaque") == opaque
                    && g("qop") == self.qop
                    && g("algorithm") == self.alg
                    && g("nc") == format!("{nc:08x}")
                    && g("cnonce").len() >= 8
                    && self.sent.iter().all(|(_, s)| params(s).get("cnonce") != Some(&g("cnonce")))
                    && g("response")
                        == digest(&self.alg, st(a, "user"), REALM, st(a, "pass"), st(a, "method"), st(a, "uri"), &nonce,
                                  &g("nc"), &g("cnonce"), &self.qop, st(a, "body").as_bytes());
                self.sent.push((self.hname().to_string(), v));
                json!({"r":"signed","nc":nc,"good":good})
            }
            "send" => self.present(a, &self.sent[it(a, "k") as usize - 1].clone()),
            "info" => {
                let cred = self.sent[it(a, "k") as usize - 1].clone();
                let r = request_from(st(a, "method"), st(a, "uri"), st(a, "body"), Some((&cred.0, &cred.1)), st(a, "src"));
                let next = "nextnonce0123456789";
                let i = match self.auth.build_auth_info(&r, st(a, "rbody").as_bytes(), bo(a, "next").then_some(next)) {
                    Ok(Some(i)) => i,
                    _ => return json!({"r":"none"}),
                };
                let text = i.to_header_value();
                let back = AuthInfo::parse(&text);
                let p = params(&format!("X {text}"));
                let c = params(&cred.1);
                let g = |n: &str| p.get(n).cloned().unwrap_or_default();
                let gc = |n: &str| c.get(n).cloned().unwrap_or_default();
                let pass = self.users.iter().find(|u| u.0 == gc("username")).map(|u| u.1.clone()).unwrap_or_default();
                let good = g("qop") == self.qop
                    && g("nc") == gc("nc")
                    && g("cnonce") == gc("cnonce")
                    && g("rspauth")
                        == digest(&self.alg, &gc("username"), REALM, &pass, "", &gc("uri"), &gc("nonce"), &gc("nc"),
                                  &gc("cnonce"), &self.qop, st(a, "rbody").as_bytes());
                let Some(back) = back else { return json!({"r":"unparsable"}) };
                // Written differently (order, case of names, blanks, quotes), it says the same.
                let other: Vec<String> = p.iter().rev().map(|(n, v)| format!("{} = {}", n.to_uppercase(), if n == "nc" { v.clone() } else { format!("\"{v}\"") })).collect();
                let plain: Vec<String> = p.iter().map(|(n, v)| format!(" {n}={}", if n == "qop" { v.clone() } else { format!("\"{v}\"") })).collect();
                let same = [other.join(" , "), plain.join(",") + ",unknown=\"a,b=c\""].iter().all(|x| AuthInfo::parse(x).as_ref() == Some(&back));
                let cl = DigestClient::new(st(a, "vuser"), st(a, "vpass"));
                let m = cl.verify_auth_info(&back, REALM, st(a, "vuri"), &self.nonce(it(a, "vn")),
                                            DigestAlgorithm::parse(&self.alg).unwrap(), st(a, "vbody").as_bytes());
                let nx = back.nextnonce.as_deref() == Some(next)
                    && m.as_ref().map(|x| x.as_deref() == Some(next)).unwrap_or(true);
                let nx_none = back.nextnonce.is_none() && m.as_ref().map(|x| x.is_none()).unwrap_or(true);
                json!({"r":"info","good":good,"rt":back == i && same && (nx || nx_none),"next":nx,"mutual":m.is_ok()})
            }
            "stale" => {
                let mut b = a.clone();
                b["muts"] = json!(if bo(a, "hdr") { vec![] } else { vec!["hdr"] });
                b["user"] = json!("nobody");
                b["pass"] = json!("x");
                b["nc"] = json!(1);
                b["cn"] = json!("c");
                b["style"] = json!(0);
                b["method"] = json!("REGISTER");
                b["uri"] = json!("sip:example.com");
                b["body"] = json!("");
                let c = self.craft(&b);
                let r = request("REGISTER", "sip:example.com", "", Some((&c.0, &c.1)));
                json!({"r":"st","stale":self.auth.nonce_is_stale(&r),"lapsed":self.auth.nonce_reuse_expired(&r)})
            }
            "storm" => {
                let (n, kind, uri) = (it(a, "threads"), st(a, "kind").to_string(), st(a, "uri").to_string());
                let bar = Arc::new(Barrier::new(n as usize));
                let hs: Vec<_> = (0..n)
                    .map(|i| {
                        let uri = if kind == "same" { uri.clone() } else { format!("{uri}{i}") };
                        let nc = if kind == "run" { it(a, "nc") + 1 + i } else { it(a, "nc") };
                        let cred = json!({"muts":[],"user":self.users[0].0,"pass":self.users[0].1,"nc":nc,"cn":format!("c{i}"),
                                          "style":0,"method":"REGISTER","uri":uri,"body":"","n":it(a,"n")});
                        let c = self.craft(&cred);
                        let r = request("REGISTER", &uri, "", Some((&c.0, &c.1)));
                        let (auth, bar) = (self.auth.clone(), bar.clone());
                        std::thread::spawn(move || {
                            bar.wait();
                            matches!(auth.verify(&r, r.headers()), Ok(true))
                        })
                    })
                    .collect();
                let k = hs.into_iter().map(|h| h.join().expect("thread")).filter(|x| *x).count();
                json!({"r":"storm","n":k})
            }
            "m_gen" => {
                let n = self.mgr.generate();
                self.mnonces.push(n.value().to_string());
                json!({"r":"n","n":self.mgr.count()})
            }
            "m_use" | "m_look" => {
                let unknown = "unknown".to_string();
                let n = self.mnonces.get((it(a, "n") - 1) as usize).unwrap_or(&unknown).clone();
                if st(a, "op") == "m_use" {
                    let ok = self.mgr.verify_with_nc(&n, it(a, "nc") as u32, &Method::from_token(st(a, "method")).unwrap(),
                                                     st(a, "uri"), st(a, "body").as_bytes());
                    json!({"r": if ok {"ok"} else {"no"}})
                } else {
                    json!({"r":"st","valid":self.mgr.verify(&n),"stale":self.mgr.is_stale(&n),"lapsed":self.mgr.reuse_window_exceeded(&n)})
                }
            }
            "m_clean" => {
                self.mgr.cleanup();
                json!({"r":"n","n":self.mgr.count()})
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

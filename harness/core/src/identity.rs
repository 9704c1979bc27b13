//! sip-identity: tokens are written, signed and tampered with here, then read,
//! verified and carried in headers by the real code.
use crate::{bo, it, st, Sut};
use base64::engine::general_purpose::{STANDARD_NO_PAD, URL_SAFE_NO_PAD};
use base64::Engine;
use rcgen::{BasicConstraints, CertificateParams, DistinguishedName, DnType, IsCa, KeyPair};
use ring::rand::SystemRandom;
use ring::signature::{EcdsaKeyPair, Ed25519KeyPair, ECDSA_P256_SHA256_FIXED_SIGNING, ECDSA_P384_SHA384_FIXED_SIGNING};
use rustls_pki_types::UnixTime;
use serde_json::{json, Value};
use sip_identity::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

const EPOCH: i64 = 1_700_000_000;

fn key(k: i64, kind: &str) -> Arc<KeyPair> {
    static POOL: OnceLock<Mutex<HashMap<(i64, String), Arc<KeyPair>>>> = OnceLock::new();
    let alg = match kind {
        "p256" => &rcgen::PKCS_ECDSA_P256_SHA256,
        "p384" => &rcgen::PKCS_ECDSA_P384_SHA384,
        "ed" => &rcgen::PKCS_ED25519,
        x => panic!("SCRIPT: kind {x}"),
    };
    POOL.get_or_init(Default::default).lock().unwrap().entry((k, kind.to_string()))
        .or_insert_with(|| Arc::new(KeyPair::generate_for(alg).expect("SCRIPT: key")))
        .clone()
}

fn params(name: &str, c: &Value) -> CertificateParams {
    let mut p = CertificateParams::default();
    let mut dn = DistinguishedName::new();
    dn.push(DnType::CommonName, name);
    p.distinguished_name = dn;
    if !c.is_null() {
        if bo(c, "ca") {
            let n = it(c, "plen");
            p.is_ca = IsCa::Ca(if n < 0 { BasicConstraints::Unconstrained } else { BasicConstraints::Constrained(n as u8) });
        }
        p.not_before = time::OffsetDateTime::from_unix_timestamp(EPOCH + it(c, "nb")).unwrap();
        p.not_after = time::OffsetDateTime::from_unix_timestamp(EPOCH + it(c, "na")).unwrap();
    }
    p
}

fn certificates(cfg: &Value) -> Arc<Vec<Vec<u8>>> {
    static MADE: OnceLock<Mutex<HashMap<String, Arc<Vec<Vec<u8>>>>>> = OnceLock::new();
    let at = |k: i64| key(k, cfg["kinds"][k as usize - 1].as_str().expect("SCRIPT: kind"));
    MADE.get_or_init(Default::default).lock().unwrap().entry(cfg.to_string())
        .or_insert_with(|| {
            Arc::new(cfg["certs"].as_array().unwrap().iter().map(|c| {
                let (own, by) = (at(it(c, "key")), at(it(c, "ikey")));
                let issuer = params(st(c, "iname"), &Value::Null).self_signed(&by).expect("SCRIPT: issuer");
                params(st(c, "name"), c).signed_by(&*own, &issuer, &by).expect("SCRIPT: certificate").der().to_vec()
            }).collect())
        })
        .clone()
}

fn text(v: &Value) -> String {
    let q = |x: &Value| serde_json::to_string(x.as_str().expect("SCRIPT: text")).unwrap();
    match st(v, "t") {
        "s" => q(&v["v"]),
        "n" => st(v, "v").to_string(),
        "z" => "null".into(),
        "b" => v["v"].to_string(),
        "o" => format!("{{{}}}", v["v"].as_array().unwrap().iter().map(|p| format!("{}:{}", q(&p[0]), text(&p[1]))).collect::<Vec<_>>().join(",")),
        "l" => format!("[{}]", v["v"].as_array().unwrap().iter().map(text).collect::<Vec<_>>().join(",")),
        x => panic!("SCRIPT: json {x}"),
    }
}

fn written(x: String, how: &str) -> String {
    match how {
        "" => x,
        "space" => x.replacen('{', "{ ", 1),
        "junk" => x + "x",
        "cut" => x[..x.len() - 1].to_string(),
        h => panic!("SCRIPT: text {h}"),
    }
}

fn der(sig: &[u8]) -> Vec<u8> {
    let num = |x: &[u8]| {
        let mut v = vec![0u8; (x[0] >> 7) as usize];
        v.extend(x);
        [vec![2, v.len() as u8], v].concat()
    };
    let b = [num(&sig[..sig.len() / 2]), num(&sig[sig.len() / 2..])].concat();
    [vec![0x30, b.len() as u8], b].concat()
}

struct S {
    cfg: Value,
    certs: Arc<Vec<Vec<u8>>>,
    rng: SystemRandom,
    sig: Vec<u8>,
    token: String,
    pass: Option<Passport>,
}

pub fn make(cfg: &Value) -> Box<dyn Sut> {
    Box::new(S { cfg: cfg.clone(), certs: certificates(cfg), rng: SystemRandom::new(), sig: vec![], token: String::new(), pass: None })
}

fn opt<T: ToString>(x: &Option<T>) -> Value {
    json!(x.iter().map(|x| x.to_string()).collect::<Vec<_>>())
}

fn fields(p: &Passport) -> Value {
    json!({"r":"tok","alg":p.header.alg,"typ":opt(&p.header.typ),"ppt":opt(&p.header.ppt),"x5u":p.header.x5u,
        "attest": p.claims.attest.iter().map(|a| a.as_str()).collect::<Vec<_>>(),"orig":opt(&p.claims.orig_tn),"dest":p.claims.dest_tns,
        "iat":opt(&p.claims.iat),"origid":opt(&p.claims.origid)})
}

impl S {
    fn key(&self, k: i64) -> Arc<KeyPair> {
        key(k, self.kind(k))
    }
    fn kind(&self, k: i64) -> &str {
        self.cfg["kinds"][k as usize - 1].as_str().expect("SCRIPT: kind")
    }
    fn sign(&self, k: i64, what: &[u8]) -> Vec<u8> {
        let pk = self.key(k).serialize_der();
        let ec = |alg| EcdsaKeyPair::from_pkcs8(alg, &pk, &self.rng).unwrap().sign(&self.rng, what).unwrap().as_ref().to_vec();
        match self.kind(k) {
            "p256" => ec(&ECDSA_P256_SHA256_FIXED_SIGNING),
            "p384" => ec(&ECDSA_P384_SHA384_FIXED_SIGNING),
            _ => Ed25519KeyPair::from_pkcs8_maybe_unchecked(&pk).unwrap().sign(what).as_ref().to_vec(),
        }
    }

    /// Applies the changes of `tam` to a token of these parts and reads the result.
    fn put(&mut self, mut h: Value, mut c: Value, mut texts: [String; 2], mut sig: Vec<u8>, tam: &Value) -> Value {
        let structured = !h.is_null();
        let mut how = ["".to_string(), "".to_string()];
        for m in tam.as_array().unwrap() {
            let seg = m["s"].as_u64().unwrap_or(0) as usize;
            match st(m, "k") {
                "put" | "del" if structured => {
                    let o = (if seg == 1 { &mut h } else { &mut c })["v"].as_array_mut().unwrap();
                    let i = o.iter().position(|p| p[0] == m["f"]);
                    if st(m, "k") == "del" {
                        o.retain(|p| p[0] != m["f"]);
                    } else {
                        match i {
                            Some(i) => o[i][1] = m["v"].clone(),
                            None => o.push(json!([m["f"], m["v"]])),
                        }
                    }
                }
                "text" if structured => how[seg - 1] = st(m, "how").to_string(),
                "sig" => {
                    let n = sig.len();
                    match st(m, "how") {
                        "flip" => sig[it(m, "i") as usize % n] ^= 1 << (it(m, "i") / 64),
                        "trunc" => sig.truncate(n - 1),
                        "long" => sig.push(0),
                        "front" => sig.insert(0, 0),
                        "empty" => sig.clear(),
                        "zero" => sig = vec![0; n],
                        "swap" => sig.rotate_left(n / 2),
                        "der" => sig = der(&sig),
                        "twice" => sig = [sig.clone(), sig].concat(),
                        x => panic!("SCRIPT: sig {x}"),
                    }
                }
                "prevsig" => sig = self.sig.clone(),
                "enc" | "parts" => {}
                x => panic!("SCRIPT: tamper {x}"),
            }
        }
        if structured {
            texts = [written(text(&h), &how[0]), written(text(&c), &how[1])];
        }
        let raw = [texts[0].as_bytes().to_vec(), texts[1].as_bytes().to_vec(), sig.clone()];
        let mut parts: Vec<String> = raw.iter().map(|b| URL_SAFE_NO_PAD.encode(b)).collect();
        for m in tam.as_array().unwrap() {
            if st(m, "k") == "parts" {
                match st(m, "how") {
                    "two" => {
                        parts.pop();
                    }
                    "four" => parts.push("e30".into()),
                    "empty" => parts[0] = String::new(),
                    "front" => parts.insert(0, String::new()),
                    "one" => parts = vec![parts.concat()],
                    x => panic!("SCRIPT: parts {x}"),
                }
            }
            if st(m, "k") == "enc" {
                let i = it(m, "s") as usize - 1;
                let p = parts[i].clone();
                parts[i] = match st(m, "how") {
                    "pad" => p + "=",
                    "std" => {
                        let x = STANDARD_NO_PAD.encode(&raw[i]);
                        if x == p {
                            panic!("SCRIPT: nothing differs in the other alphabet");
                        }
                        x
                    }
                    "bang" => format!("{}!{}", &p[..p.len() / 2], &p[p.len() / 2..]),
                    "space" => p + " x",
                    "line" => format!("{}\r\n {}", &p[..p.len() / 2], &p[p.len() / 2..]),
                    "trail" if raw[i].len() % 3 == 0 => p + "=",
                    "trail" => {
                        let a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
                        let n = a.find(p.chars().last().unwrap()).unwrap();
                        format!("{}{}", &p[..p.len() - 1], &a[n + 1..n + 2])
                    }
                    "odd" => format!("{p}{}", ["A", "AAAA", "AAA", "AA"][p.len() % 4]),
                    x => panic!("SCRIPT: enc {x}"),
                };
            }
        }
        self.sig = sig;
        self.token = parts.join(".");
        match Passport::decode(&self.token) {
            Ok(p) => {
                let f = fields(&p);
                self.pass = Some(p);
                f
            }
            Err(_) => {
                self.pass = None;
                json!({"r":"err"})
            }
        }
    }

    fn answer<E>(r: Result<(), E>) -> Value {
        json!({"r": if r.is_ok() { "ok" } else { "no" }})
    }
}

fn header(h: &IdentityHeader) -> Value {
    json!({"r":"hdr","info":opt(&h.info),"alg":opt(&h.alg),"ppt":opt(&h.ppt)})
}

impl Sut for S {
    fn step(&mut self, e: &Value) -> Value {
        match st(e, "op") {
            "token" => {
                let what = format!("{}.{}", URL_SAFE_NO_PAD.encode(text(&e["h"])), URL_SAFE_NO_PAD.encode(text(&e["c"])));
                let sig = self.sign(it(e, "key"), what.as_bytes());
                self.put(e["h"].clone(), e["c"].clone(), Default::default(), sig, &e["tam"])
            }
            "sign" => {
                let kp = EcdsaKeyPair::from_pkcs8(&ECDSA_P256_SHA256_FIXED_SIGNING, &self.key(it(e, "key")).serialize_der(), &self.rng).expect("SCRIPT: signing key");
                let p = PassportParams {
                    x5u: st(e, "x5u").into(),
                    attest: AttestationLevel::parse(st(e, "attest")).expect("SCRIPT: attest"),
                    orig_tn: st(e, "orig").into(),
                    dest_tns: e["dest"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect(),
                    iat: st(e, "iat").parse().expect("SCRIPT: iat"),
                    origid: e["origid"].as_array().unwrap().first().map(|x| x.as_str().unwrap().into()),
                };
                let Ok(t) = sip_identity::sign(&p, &kp, &self.rng) else { return json!({"r":"err"}) };
                if t.x5u != p.x5u {
                    return json!({"r":"other x5u"});
                }
                let hv = match IdentityHeader::parse(&t.identity_header_value()) {
                    Err(_) => json!({"r":"err"}),
                    Ok(h) if h.raw_token == t.token => header(&h),
                    Ok(_) => json!({"r":"other token"}),
                };
                let segs: Vec<Vec<u8>> = t.token.split('.').map(|s| URL_SAFE_NO_PAD.decode(s).unwrap_or_default()).collect();
                if segs.len() != 3 {
                    return json!({"r":"not three parts"});
                }
                let tx = |i: usize| String::from_utf8(segs[i].clone()).unwrap_or_default();
                let d = self.put(Value::Null, Value::Null, [tx(0), tx(1)], segs[2].clone(), &e["tam"]);
                json!({"r":"signed","d":d,"hv":hv})
            }
            "header" => {
                let mut x = format!("{}{}{}", st(e, "pre"), self.token, st(e, "post"));
                let fill = it(e, "fill") as usize;
                if fill > 0 {
                    if x.len() + 3 > fill {
                        panic!("SCRIPT: longer than {fill}");
                    }
                    x += ";x=";
                    x += &"a".repeat(fill - x.len());
                }
                match IdentityHeader::parse(&x) {
                    Err(_) => json!({"r":"err"}),
                    Ok(h) if h.raw_token != self.token || Some(&h.passport) != self.pass.as_ref() => json!({"r":"other token"}),
                    Ok(h) => header(&h),
                }
            }
            "verify" => {
                let Some(p) = &self.pass else { return json!({"r":"none"}) };
                let mut k = self.key(it(e, "key")).public_key_raw().to_vec();
                match st(e, "form") {
                    "" => {}
                    "compressed" => {
                        k[0] = 2 + (k[64] & 1);
                        k.truncate(33);
                    }
                    "tag" => k[0] = 2,
                    "tag0" => k[0] = 0,
                    "trunc" => k.truncate(k.len() - 1),
                    "long" => k.push(0),
                    "bare" => {
                        k.remove(0);
                    }
                    "empty" => k.clear(),
                    "point" => k[40] ^= 1,
                    "zero" => k = [vec![4], vec![0; 64]].concat(),
                    x => panic!("SCRIPT: form {x}"),
                }
                Self::answer(p.verify_signature(&k))
            }
            "chain" => {
                let Some(p) = &self.pass else { return json!({"r":"none"}) };
                let mut leaf = self.certs[it(e, "leaf") as usize - 1].clone();
                let pick = |k: &str| -> Vec<Vec<u8>> { e[k].as_array().unwrap().iter().map(|i| self.certs[i.as_u64().unwrap() as usize - 1].clone()).collect() };
                let (inters, mut anchors) = (pick("inters"), pick("anchors"));
                match st(e, "junk") {
                    "" => {}
                    "leaf" => leaf.truncate(leaf.len() - 1),
                    "empty" => leaf.clear(),
                    "sig" => *leaf.last_mut().unwrap() ^= 1,
                    "anchors" => anchors.iter_mut().for_each(|a| a.truncate(a.len() / 2)),
                    x => panic!("SCRIPT: junk {x}"),
                }
                let (i, a): (Vec<&[u8]>, Vec<&[u8]>) = (inters.iter().map(|v| v.as_slice()).collect(), anchors.iter().map(|v| v.as_slice()).collect());
                Self::answer(p.verify_with_chain(&leaf, &i, &a, UnixTime::since_unix_epoch(std::time::Duration::from_secs((EPOCH + it(e, "now")) as u64))))
            }
            x => panic!("SCRIPT: op {x}"),
        }
    }
}

//! sip-dns against a DNS server on the loopback interface that answers from
//! the zone given by the script.
use crate::{bo, clock, it, st, Sut};
use anyhow::Result;
use hickory_resolver::config::{ConnectionConfig, LookupIpStrategy, NameServerConfig, ProtocolConfig, ResolveHosts, ResolverConfig, ResolverOpts};
use serde_json::{json, Value};
use sip_core::{SipUri, TelUri};
use sip_dns::*;
use smol_str::SmolStr;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, UdpSocket};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

const SILENCE_MS: i64 = 40;
static ZONE: Mutex<Value> = Mutex::new(Value::Null);
static PORT: OnceLock<u16> = OnceLock::new();

fn name(out: &mut Vec<u8>, n: &str) {
    for l in n.trim_end_matches('.').split('.').filter(|l| !l.is_empty()) {
        out.push(l.len() as u8);
        out.extend(l.as_bytes());
    }
    out.push(0);
}

fn text(out: &mut Vec<u8>, t: &str) {
    out.push(t.len() as u8);
    out.extend(t.as_bytes());
}

/// The reply to one query; None to stay silent.
fn reply(q: &[u8]) -> Option<Vec<u8>> {
    let mut i = 12;
    let mut labels = vec![];
    while q[i] != 0 {
        let n = q[i] as usize;
        labels.push(String::from_utf8_lossy(&q[i + 1..i + 1 + n]).to_lowercase());
        i += n + 1;
    }
    let ty = u16::from_be_bytes([q[i + 1], q[i + 2]]);
    let question = &q[12..i + 5];
    let owner = labels.join(".");
    let z = ZONE.lock().unwrap();
    let tyname = match ty {
        1 => "A",
        28 => "AAAA",
        33 => "SRV",
        35 => "NAPTR",
        _ => "?",
    };
    let mut rcode = 0u8;
    let mut rr: Vec<Vec<u8>> = vec![];
    let all = |k: &str| -> Vec<Value> { z[k].as_array().into_iter().flatten().filter(|x| st(x, "n") == owner).cloned().collect() };
    let known = ["naptr", "srv", "a", "aaaa"].iter().any(|k| !all(k).is_empty());
    if let Some(f) = all("fail").iter().find(|f| st(f, "ty") == tyname) {
        match st(f, "how") {
            "drop" => {
                clock::advance_ms(SILENCE_MS);
                return None;
            }
            "nx" => rcode = 3,
            "servfail" => rcode = 2,
            "refused" => rcode = 5,
            "empty" => {}
            x => panic!("SCRIPT: how {x}"),
        }
    } else {
        match ty {
            1 => rr.extend(all("a").iter().map(|r| st(r, "ip").parse::<Ipv4Addr>().expect("SCRIPT: a").octets().to_vec())),
            28 => rr.extend(all("aaaa").iter().map(|r| st(r, "ip").parse::<Ipv6Addr>().expect("SCRIPT: aaaa").octets().to_vec())),
            33 => rr.extend(all("srv").iter().map(|r| {
                let mut d = vec![];
                for k in ["p", "w", "port"] {
                    d.extend((it(r, k) as u16).to_be_bytes());
                }
                name(&mut d, st(r, "t"));
                d
            })),
            35 => rr.extend(all("naptr").iter().map(|r| {
                let mut d = vec![];
                d.extend((it(r, "o") as u16).to_be_bytes());
                d.extend((it(r, "p") as u16).to_be_bytes());
                text(&mut d, "s");
                text(&mut d, st(r, "s"));
                text(&mut d, "");
                name(&mut d, st(r, "r"));
                d
            })),
            _ => {}
        }
        if rr.is_empty() && !known {
            rcode = 3;
        }
    }
    let mut out = vec![q[0], q[1], 0x85, 0x80 | rcode, 0, 1];
    out.extend((rr.len() as u16).to_be_bytes());
    out.extend([0, 0, 0, 0]);
    out.extend(question);
    for d in rr {
        out.extend([0xc0, 12]);
        out.extend(ty.to_be_bytes());
        out.extend([0, 1, 0, 0, 0, 60]);
        out.extend((d.len() as u16).to_be_bytes());
        out.extend(d);
    }
    Some(out)
}

fn port() -> u16 {
    *PORT.get_or_init(|| {
        let s = UdpSocket::bind("127.0.0.1:0").expect("SCRIPT: loopback socket");
        let p = s.local_addr().unwrap().port();
        std::thread::spawn(move || {
            let mut b = [0u8; 4096];
            while let Ok((n, from)) = s.recv_from(&mut b) {
                if let Some(r) = reply(&b[..n]) {
                    let _ = s.send_to(&r, from);
                }
            }
        });
        p
    })
}

fn resolver(naptr: bool) -> SipResolver {
    let mut c = ConnectionConfig::new(ProtocolConfig::Udp);
    c.port = port();
    let mut ns = NameServerConfig::udp(IpAddr::V4(Ipv4Addr::LOCALHOST));
    ns.connections = vec![c];
    let mut o = ResolverOpts::default();
    o.cache_size = 0;
    o.use_hosts_file = ResolveHosts::Never;
    o.ip_strategy = LookupIpStrategy::Ipv4AndIpv6;
    o.attempts = 0;
    o.os_port_selection = true;
    o.edns_payload_len = 4096;
    let r = SipResolver::with_config(ResolverConfig::from_parts(None, vec![], vec![ns]), o)
        .expect("resolver")
        .with_query_timeout(Duration::from_millis(SILENCE_MS as u64 / 2));
    if naptr {
        r
    } else {
        r.disable_naptr()
    }
}

/// What DHCP gives at the moment.
#[derive(Clone)]
enum Offer {
    None,
    Fail,
    List(Vec<DhcpSipServer>),
}
#[async_trait::async_trait]
impl DhcpProvider for Offer {
    async fn query_sip_servers(&self) -> Result<Option<Vec<DhcpSipServer>>> {
        match self {
            Offer::Fail => Err(anyhow::anyhow!("no lease")),
            Offer::None => StaticDhcpProvider::empty().query_sip_servers().await,
            Offer::List(l) => StaticDhcpProvider::new(l.clone()).query_sip_servers().await,
        }
    }
}

struct S {
    dns: SipResolver,
    offer: Offer,
    rt: tokio::runtime::Runtime,
}

pub fn make(cfg: &Value) -> Box<dyn Sut> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let dns = {
        let _in = rt.enter();
        resolver(bo(cfg, "naptr"))
    };
    *ZONE.lock().unwrap() = json!({});
    Box::new(S { dns, offer: Offer::None, rt })
}

fn tp(x: &str) -> Transport {
    match x.to_ascii_lowercase().as_str() {
        "tcp" => Transport::Tcp,
        "tls" => Transport::Tls,
        "ws" => Transport::Ws,
        "wss" => Transport::Wss,
        "sctp" => Transport::Sctp,
        "tls-sctp" => Transport::TlsSctp,
        _ => Transport::Udp,
    }
}

fn uri(u: &Value) -> SipUri {
    let host = if st(u, "num") == "6" { format!("[{}]", st(u, "host")) } else { st(u, "host").to_string() };
    let mut t = format!("{}:bob@{host}", if bo(u, "sips") { "sips" } else { "sip" });
    if it(u, "port") != 0 {
        t += &format!(":{}", it(u, "port"));
    }
    if let Some(x) = u["tp"].as_array().unwrap().first() {
        t += &format!(";transport={}", x.as_str().unwrap());
    }
    SipUri::parse(&t).unwrap_or_else(|e| panic!("SCRIPT: uri {t}: {e:?}"))
}

fn show(t: &DnsTarget) -> Value {
    if t.sni() != t.tls_name().unwrap_or(t.host()) {
        return json!("bad sni");
    }
    json!([t.host(), t.port(), t.transport().as_via_str(), t.priority(), t.tls_name().unwrap_or("")])
}

fn shown(r: Result<Vec<DnsTarget>>) -> Value {
    match r {
        Err(_) => json!({"r":"err"}),
        Ok(t) => json!({"r":"t","t": t.iter().map(show).collect::<Vec<_>>()}),
    }
}

fn bytes(e: &Value) -> Vec<u8> {
    e["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

impl S {
    fn resolve(&self, via: &str, u: &SipUri) -> Result<Vec<DnsTarget>> {
        let (d, o) = (self.dns.clone(), self.offer.clone());
        match via {
            "dns" => self.rt.block_on(d.resolve(u)),
            "dhcp" => self.rt.block_on(DhcpResolver::new(o, d).resolve(u)),
            "hybrid" => self.rt.block_on(HybridResolver::new(o, d).resolve(u)),
            x => panic!("SCRIPT: via {x}"),
        }
    }
}

impl Sut for S {
    fn step(&mut self, e: &Value) -> Value {
        match st(e, "op") {
            "zone" => {
                *ZONE.lock().unwrap() = e["z"].clone();
                json!({"r":"ok"})
            }
            "dhcp" => {
                self.offer = match st(e, "how") {
                    "none" => Offer::None,
                    "fail" => Offer::Fail,
                    "list" => Offer::List(
                        e["servers"].as_array().unwrap().iter()
                            .map(|s| match st(s, "k") {
                                "ip" => DhcpSipServer::Ipv4(st(s, "v").parse().expect("SCRIPT: ip")),
                                _ => DhcpSipServer::Domain(SmolStr::new(st(s, "v"))),
                            })
                            .collect(),
                    ),
                    x => panic!("SCRIPT: how {x}"),
                };
                json!({"r":"ok"})
            }
            "resolve" => shown(self.resolve(st(e, "via"), &uri(&e["u"]))),
            "draw" => {
                let u = uri(&e["u"]);
                let mut c = std::collections::BTreeMap::new();
                for _ in 0..it(e, "n") {
                    let Ok(t) = self.resolve("dns", &u) else { return json!({"r":"err"}) };
                    let at = |i: usize| t.get(i).and_then(|t| t.host()[1..2].parse::<i64>().ok()).unwrap_or(-1);
                    *c.entry((at(0), at(1))).or_insert(0) += 1;
                }
                json!({"r":"drawn","c": c.iter().map(|(k, n)| json!([k.0, k.1, n])).collect::<Vec<_>>()})
            }
            "static" => {
                let n = it(e, "n");
                let l: Vec<DnsTarget> = (0..n).map(|i| DnsTarget::unchecked_new(format!("h{i}"), i as u16, Transport::Tcp)).collect();
                let u = SipUri::parse("sip:x").unwrap();
                match self.rt.block_on(StaticResolver::new(l.clone()).resolve(&u)) {
                    Err(_) => json!({"r":"n","n":-1}),
                    Ok(t) if t == l => json!({"r":"n","n":t.len()}),
                    Ok(_) => json!({"r":"other"}),
                }
            }
            "option" => {
                let b = bytes(e);
                let list = |k: &str, l: Vec<String>| json!({"r":"list","l": l.iter().map(|x| json!([k, x])).collect::<Vec<_>>()});
                match it(e, "no") {
                    120 => match parse_dhcp_option_120(&b) {
                        Err(_) => json!({"r":"err"}),
                        Ok(l) => json!({"r":"list","l": l.iter().map(|s| match s {
                            DhcpSipServer::Ipv4(a) if a.to_string() == s.as_str() => json!(["ip", a.to_string()]),
                            DhcpSipServer::Domain(d) if *d == s.as_str() => json!(["name", d.as_str()]),
                            _ => json!("bad as_str"),
                        }).collect::<Vec<_>>()}),
                    },
                    150 => parse_dhcp_option_150(&b).map_or(json!({"r":"err"}), |l| list("ip", l.iter().map(|a| a.to_string()).collect())),
                    66 => parse_dhcp_option_66(&b).map_or(json!({"r":"err"}), |n| list("name", vec![n.as_str().to_string()])),
                    x => panic!("SCRIPT: option {x}"),
                }
            }
            "target" => match DnsTarget::new(st(e, "host"), it(e, "port") as u16, tp(st(e, "tp"))) {
                Err(_) => json!({"r":"err"}),
                Ok(t) => {
                    let t = t.with_priority(it(e, "pr") as u16);
                    let t = if st(e, "tls").is_empty() { t } else { t.with_tls_name(st(e, "tls")) };
                    json!({"r":"t","t":[show(&t)]})
                }
            },
            "enum" => {
                let opt = |x: Option<String>| json!({"r":"enum","x": x.into_iter().collect::<Vec<_>>()});
                match st(e, "k") {
                    "name" => opt(enum_to_domain(st(e, "x"))),
                    "tel" => opt(tel_uri_to_enum_domain(&TelUri::parse(st(e, "x")).expect("SCRIPT: tel"))),
                    "uri" => opt(EnumNaptrRecord::new(1, 1, "u", "E2U+sip", st(e, "x"), "").extract_uri()),
                    "recs" => {
                        let l: Vec<EnumNaptrRecord> = e["recs"].as_array().unwrap().iter()
                            .map(|r| EnumNaptrRecord::new(it(r, "o") as u16, it(r, "p") as u16, st(r, "f"), st(r, "s"), format!("!^.*$!sip:{}@h!", it(r, "id")), ""))
                            .collect();
                        let id = |r: &EnumNaptrRecord| r.extract_uri().and_then(|u| u[4..u.len() - 2].parse::<i64>().ok()).unwrap_or(-1);
                        let mut sorted = l.clone();
                        sort_enum_records(&mut sorted);
                        json!({"r":"recs","sorted": sorted.iter().map(id).collect::<Vec<_>>(), "sip": filter_sip_records(&l).iter().map(id).collect::<Vec<_>>(),
                               "best": select_best_sip_record(&l).iter().map(id).collect::<Vec<_>>(),
                               "term": l.iter().filter(|r| r.is_terminal()).map(id).collect::<Vec<_>>()})
                    }
                    x => panic!("SCRIPT: enum {x}"),
                }
            }
            x => panic!("SCRIPT: op {x}"),
        }
    }
}

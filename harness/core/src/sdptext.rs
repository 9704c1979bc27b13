//! The text form of SDP: parser, writer, validating builder and setters of sip-sdp.
use crate::{it, st, Sut};
use serde_json::{json, Value};
use sip_sdp::attrs::{Candidate, CandidateTransport, CandidateType, Direction, Setup};
use sip_sdp::parse::{parse_sdp_with_limits, ParseLimits};
use sip_sdp::{MediaDescription, Protocol, SessionDescription};

pub struct Text {
    d: Option<SessionDescription>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(Text { d: None })
}

fn list<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap_or_else(|| panic!("SCRIPT: list {k} in {v}"))
}

fn view(m: &MediaDescription) -> Value {
    let par = |p: &Option<_>| p.as_ref().map_or(String::new(), |x| format!("/{x}"));
    let maps: Vec<Value> = m
        .rtpmaps_iter()
        .map(|x| json!({"pt": x.payload_type.to_string(), "n": x.encoding_name.as_str(), "rate": x.clock_rate.to_string(), "par": par(&x.encoding_params)}))
        .collect();
    let cache: Vec<Value> = m
        .rtpmaps
        .iter()
        .map(|(k, x)| {
            assert_eq!(*k, x.payload_type, "cache key");
            json!({"pt": k.to_string(), "n": x.encoding_name.as_str(), "rate": x.clock_rate.to_string(), "par": par(&x.encoding_params)})
        })
        .collect();
    let num = |x: Option<u32>| x.map_or(String::new(), |v| v.to_string());
    json!({"dir": m.direction().map_or("", |d| d.as_token()), "ptime": num(m.ptime()), "maxptime": num(m.maxptime()),
        "mid": m.mid().into_iter().collect::<Vec<_>>(), "setup": m.setup().map_or("", |s| s.as_token()),
        "maps": maps, "cache": cache,
        "fmtp": m.fmtp_iter().map(|f| json!({"pt": f.payload_type.to_string(), "v": f.params.as_str()})).collect::<Vec<_>>(),
        "cand": m.candidates().map(|c| c.to_attr_value()).collect::<Vec<_>>(),
        "print": m.fingerprints().map(|f| format!("{} {}", f.hash_function, f.fingerprint)).collect::<Vec<_>>(),
        "ssrc": m.ssrc_iter().map(|x| match &x.value {
            Some(v) => format!("{} {}:{}", x.ssrc_id, x.attribute, v),
            None => format!("{} {}", x.ssrc_id, x.attribute),
        }).collect::<Vec<_>>()})
}

fn show(d: &SessionDescription, r: &str) -> Value {
    let t = d.serialize();
    let mut out: Vec<&str> = t.split("\r\n").collect();
    if out.last() == Some(&"") {
        out.pop(); // every line is terminated
    } else {
        out.push("(unterminated)");
    }
    let again = SessionDescription::parse(&t);
    let (eq, idem) = match &again {
        Ok(x) => (x == d, x.serialize() == t),
        Err(_) => (false, false),
    };
    json!({"r": r, "out": out, "eq": eq, "idem": idem, "dir": d.direction().map_or("", |x| x.as_token()),
        "view": d.media.iter().map(view).collect::<Vec<_>>()})
}

fn proto(p: &str) -> Protocol {
    match p {
        "RTP/AVP" => Protocol::RtpAvp,
        "RTP/SAVP" => Protocol::RtpSavp,
        "RTP/SAVPF" => Protocol::RtpSavpf,
        "UDP/TLS/RTP/SAVPF" => Protocol::UdpTlsRtpSavpf,
        "TCP/TLS/RTP/SAVPF" => Protocol::TcpTlsRtpSavpf,
        "UDP" => Protocol::Udp,
        "TCP" => Protocol::Tcp,
        o => Protocol::Other(o.into()),
    }
}
fn n<T: std::str::FromStr>(v: &Value, k: &str) -> T {
    st(v, k).parse().unwrap_or_else(|_| panic!("SCRIPT: number {k} in {v}"))
}
fn params(v: &Value) -> Option<&str> {
    st(v, "par").strip_prefix('/')
}

fn media(c: &Value) -> Result<MediaDescription, ()> {
    let port: u16 = n(c, "port");
    let mut m = match st(c, "t") {
        "audio" => MediaDescription::audio(port),
        "video" => MediaDescription::video(port),
        t => panic!("SCRIPT: media {t}"),
    };
    for x in list(c, "calls") {
        m = match st(x, "f") {
            "format" => m.add_format(n(x, "x")),
            "token" => m.add_format_token(st(x, "x")),
            "flag" if Direction::from_token(st(x, "x")).is_some() => m.with_direction(st(x, "x")),
            "flag" => m.add_property(st(x, "x")),
            "attr" => m.add_attribute(st(x, "x"), st(x, "v")),
            "conn" => m.connection(st(x, "x")),
            "map" => m.add_rtpmap(n(x, "pt"), st(x, "n"), n(x, "rate"), params(x)),
            f => panic!("SCRIPT: media call {f}"),
        }
        .map_err(|_| ())?;
    }
    m.protocol = proto(st(c, "proto"));
    Ok(m)
}

fn build(q: &[Value]) -> Result<SessionDescription, usize> {
    let mut b = SessionDescription::builder();
    for (i, c) in q.iter().enumerate() {
        let x = c["x"].as_str().unwrap_or("");
        let r = match st(c, "f") {
            "origin" => b.origin(x, st(c, "id"), st(c, "ad")),
            "name" => b.session_name(x),
            "info" => b.session_info(x),
            "key" => b.encryption_key(x),
            "conn" => b.connection(x),
            "flag" => b.attribute(x, None),
            "attr" => b.attribute(x, Some(st(c, "v"))),
            "zone" => b.time_zone_adjustment(x, st(c, "v")),
            f @ ("time" | "addtime") => {
                let (p, q) = x.split_once(' ').expect("SCRIPT: time");
                let (p, q) = (p.parse().expect("SCRIPT: time"), q.parse().expect("SCRIPT: time"));
                if f == "time" { Ok(b.time(p, q)) } else { b.add_time(p, q) }
            }
            "media" => match media(c) {
                Ok(m) => b.media(m),
                Err(()) => return Err(i + 1),
            },
            f => panic!("SCRIPT: call {f}"),
        };
        b = match r {
            Ok(b) => b,
            Err(_) => return Err(i + 1),
        };
    }
    Ok(b.build())
}

fn candidate(x: &str) -> Candidate {
    let w: Vec<&str> = x.split(' ').collect();
    let mut c = Candidate {
        foundation: w[0].into(),
        component: w[1].parse().expect("SCRIPT"),
        transport: match w[2] {
            "udp" => CandidateTransport::Udp,
            "tcp" => CandidateTransport::Tcp,
            o => CandidateTransport::Other(o.into()),
        },
        priority: w[3].parse().expect("SCRIPT"),
        connection_address: w[4].into(),
        port: w[5].parse().expect("SCRIPT"),
        typ: match w[7] {
            "host" => CandidateType::Host,
            "srflx" => CandidateType::ServerReflexive,
            "prflx" => CandidateType::PeerReflexive,
            "relay" => CandidateType::Relay,
            o => CandidateType::Other(o.into()),
        },
        raddr: None,
        rport: None,
        extensions: vec![],
    };
    for p in w[8..].chunks(2) {
        match p[0] {
            "raddr" => c.raddr = Some(p[1].into()),
            "rport" => c.rport = Some(p[1].parse().expect("SCRIPT")),
            k => c.extensions.push((k.into(), p[1].into())),
        }
    }
    c
}

impl Sut for Text {
    fn step(&mut self, op: &Value) -> Value {
        match st(op, "op") {
            "parse" => {
                let q: Vec<&str> = list(op, "lines").iter().map(|x| x.as_str().expect("SCRIPT: line")).collect();
                let t = q.join(st(op, "eol")) + st(op, "end");
                let l = &op["lim"];
                let r = if it(l, "bytes") == 131072 && it(l, "lines") == 2048 && it(l, "len") == 4096 && it(l, "attrs") == 500 {
                    SessionDescription::parse(&t)
                } else {
                    parse_sdp_with_limits(&t, ParseLimits {
                        max_bytes: it(l, "bytes") as usize,
                        max_lines: it(l, "lines") as usize,
                        max_line_length: it(l, "len") as usize,
                        max_attributes_per_section: it(l, "attrs") as usize,
                    })
                };
                self.d = r.ok();
                self.d.as_ref().map_or(json!({"r": "err"}), |d| show(d, "ok"))
            }
            "build" => match build(list(op, "calls")) {
                Ok(d) => {
                    let v = show(&d, "ok");
                    self.d = Some(d);
                    v
                }
                Err(i) => {
                    self.d = None;
                    json!({"r": "err", "at": i})
                }
            },
            "set" => {
                let c = &op["c"];
                let i = it(c, "i") as usize;
                let d = match &mut self.d {
                    Some(d) if i <= d.media.len() => d,
                    _ => return json!({"r": "none"}),
                };
                let mut r = "ok";
                let x = c["x"].as_str().unwrap_or("");
                let dir = || Direction::from_token(x).expect("SCRIPT: direction");
                if i == 0 {
                    match st(c, "f") {
                        "dir" => d.set_direction(dir()),
                        "nodir" => d.clear_direction(),
                        f => panic!("SCRIPT: session setter {f}"),
                    }
                } else {
                    let m = &mut d.media[i - 1];
                    match st(c, "f") {
                        "dir" => m.set_direction(dir()),
                        "nodir" => m.clear_direction(),
                        "ptime" => m.set_ptime(n(c, "x")),
                        "maxptime" => m.set_maxptime(n(c, "x")),
                        "noptime" => m.clear_ptime(),
                        "nomaxptime" => m.clear_maxptime(),
                        "mid" => m.set_mid(x),
                        "setup" => m.set_setup(Setup::from_token(x).expect("SCRIPT: setup")),
                        "fmtp" => m.set_fmtp(n(c, "pt"), x),
                        "candidate" => m.add_candidate(&candidate(x)),
                        "nocandidate" => m.clear_candidates(),
                        "map" => {
                            if m.set_rtpmap(n(c, "pt"), st(c, "n"), n(c, "rate"), params(c)).is_err() {
                                r = "no";
                            }
                        }
                        "nomap" => {
                            if !m.remove_rtpmap(n(c, "pt")) {
                                r = "no";
                            }
                        }
                        f => panic!("SCRIPT: setter {f}"),
                    }
                }
                show(d, r)
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

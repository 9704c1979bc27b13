//! SDP offer/answer: the three answer generators and hold/resume offers.
use crate::{bo, it, st, Sut};
use serde_json::{json, Value};
use sip_core::sdp::{Direction, SdpSession};
use sip_core::{AnswerOptions, CodecInfo, OfferAnswerEngine};
use sip_sdp::profiles::MediaProfileBuilder;
use sip_sdp::SessionDescription;

/// The wire text of an abstract description.
pub fn text(d: &Value, addr: &str, ver: &str) -> String {
    let mut s = format!(
        "v=0\r\no=alice 1 {ver} IN {} {addr}\r\ns=x\r\nc=IN {} {addr}\r\nt={}\r\n",
        if addr.contains(':') { "IP6" } else { "IP4" },
        if addr.contains(':') { "IP6" } else { "IP4" },
        st(d, "tm")
    );
    if !st(d, "dir").is_empty() {
        s += &format!("a={}\r\n", st(d, "dir"));
    }
    for m in d["media"].as_array().expect("SCRIPT: media") {
        let f: Vec<&str> = m["fmts"].as_array().expect("SCRIPT: fmts").iter().map(|x| x.as_str().unwrap()).collect();
        s += &format!("m={} {} {} {}\r\n", st(m, "t"), it(m, "port"), st(m, "proto"), f.join(" "));
        for x in m["maps"].as_array().expect("SCRIPT: maps") {
            s += &format!("a=rtpmap:{} {}/{}", st(x, "pt"), st(x, "n"), it(x, "rate"));
            if it(x, "ch") > 0 {
                s += &format!("/{}", it(x, "ch"));
            }
            s += "\r\n";
        }
        for x in m["fmtp"].as_array().expect("SCRIPT: fmtp") {
            s += &format!("a=fmtp:{} {}\r\n", st(x, "pt"), st(x, "v"));
        }
        if it(m, "ptime") > 0 {
            s += &format!("a=ptime:{}\r\n", it(m, "ptime"));
        }
        if !st(m, "dir").is_empty() {
            s += &format!("a={}\r\n", st(m, "dir"));
        }
        if !st(m, "mid").is_empty() {
            s += &format!("a=mid:{}\r\n", st(m, "mid"));
        }
    }
    s
}

const DIRS: [&str; 4] = ["sendrecv", "sendonly", "recvonly", "inactive"];

/// Reads an answer from its wire text, independently of the code under test.
pub fn read(t: &str) -> Value {
    let (mut tm, mut addr, mut sdir) = (vec![], String::new(), String::new());
    let mut media: Vec<Value> = vec![];
    for l in t.lines() {
        let (k, v) = l.split_at(2.min(l.len()));
        match k {
            "t=" => tm.push(v.to_string()),
            "c=" if media.is_empty() => addr = v.to_string(),
            "m=" => {
                let p: Vec<&str> = v.split(' ').collect();
                media.push(json!({"t": p[0], "port": p[1].parse::<i64>().unwrap_or(-1), "proto": p[2],
                    "fmts": p[3..], "maps": [], "fmtp": [], "dir": "", "mid": "", "ptime": 0}));
            }
            "a=" => {
                let (n, x) = v.split_once(':').unwrap_or((v, ""));
                if DIRS.contains(&n) {
                    match media.last_mut() {
                        Some(m) if m["dir"] == "" => m["dir"] = json!(n),
                        Some(_) => {}
                        None => sdir = n.into(),
                    }
                } else if let Some(m) = media.last_mut() {
                    let (pt, r) = x.split_once(' ').unwrap_or((x, ""));
                    match n {
                        "rtpmap" => {
                            let c: Vec<&str> = r.split('/').collect();
                            m["maps"].as_array_mut().unwrap().push(json!({"pt": pt, "k": c[0].to_lowercase(),
                                "rate": c.get(1).and_then(|y| y.parse::<i64>().ok()).unwrap_or(-1),
                                "ch": c.get(2).map_or(1, |y| y.parse::<i64>().unwrap_or(-1))}));
                        }
                        "fmtp" => m["fmtp"].as_array_mut().unwrap().push(json!({"pt": pt, "v": r})),
                        "mid" => m["mid"] = json!(x),
                        "ptime" => m["ptime"] = json!(x.parse::<i64>().unwrap_or(-1)),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    for m in &mut media {
        if m["port"] == 0 {
            m["dir"] = json!("");
        } else if m["dir"] == "" {
            m["dir"] = json!(if sdir.is_empty() { "sendrecv" } else { &sdir });
        }
    }
    json!({"r": "ok", "tm": tm.join(";"), "addr": addr, "media": media})
}

fn codecs(v: &Value) -> Vec<CodecInfo> {
    v.as_array()
        .expect("SCRIPT: codecs")
        .iter()
        .map(|c| {
            let ch = it(c, "ch");
            CodecInfo::new(st(c, "n"), it(c, "rate") as u32, if ch == 0 { None } else { Some(ch as u16) })
                .expect("SCRIPT: codec")
        })
        .collect()
}
fn dir(d: &str) -> Direction {
    Direction::parse(d).expect("SCRIPT: direction")
}

struct End {
    sess: SdpSession,
}
pub struct Oa {
    ends: [Option<End>; 2],
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(Oa { ends: [None, None] })
}

fn answer(op: &Value) -> Value {
    let o = &op["o"];
    let addr = st(o, "ip");
    let t = text(&op["off"], "192.0.2.1", "1");
    match st(op, "eng") {
        "core" => {
            let off = SdpSession::parse(&t).expect("SCRIPT: offer for core");
            let rej = o["reject"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let mut opt = AnswerOptions::new()
                .with_local_address(addr)
                .expect("SCRIPT: addr")
                .with_base_port(it(o, "base") as u16)
                .with_audio_codecs(codecs(&o["audio"]))
                .expect("SCRIPT: audio")
                .with_video_codecs(codecs(&o["video"]))
                .expect("SCRIPT: video")
                .with_reject_media(rej)
                .expect("SCRIPT: reject");
            if !st(o, "dir").is_empty() {
                opt = opt.with_direction_override(dir(st(o, "dir")));
            }
            match OfferAnswerEngine::new().generate_answer(&off, opt) {
                Ok(a) => read(&a.to_string()),
                Err(_) => json!({"r": "err"}),
            }
        }
        "caps" => {
            let off = SessionDescription::parse(&t).expect("SCRIPT: offer for sip-sdp");
            let loc = SessionDescription::parse(&text(&o["loc"], addr, "1")).expect("SCRIPT: local");
            match sip_sdp::negotiate::negotiate_answer(&off, addr, &loc) {
                Ok(a) => read(&a.serialize()),
                Err(_) => json!({"r": "err"}),
            }
        }
        "profile" => {
            let off = SessionDescription::parse(&t).expect("SCRIPT: offer for sip-sdp");
            // Only the payload numbers of a profile matter when answering.
            let mut p = if bo(o, "bv") { MediaProfileBuilder::audio_video() } else { MediaProfileBuilder::audio_only() };
            for x in o["xa"].as_array().unwrap() {
                p = p.add_audio_codec(x.as_str().unwrap().parse().unwrap(), "x", 8000);
            }
            for x in o["xv"].as_array().unwrap() {
                p = p.add_video_codec(x.as_str().unwrap().parse().unwrap(), "x", 8000);
            }
            p = p.telephone_event(bo(o, "tel"));
            let a = sip_sdp::profiles::negotiate_answer(&off, &p, "bob", addr, it(o, "ap") as u16, Some(it(o, "vp") as u16));
            read(&a.serialize())
        }
        e => panic!("SCRIPT: engine {e}"),
    }
}

fn dirs(s: &SdpSession) -> Vec<String> {
    let v = read(&s.to_string());
    v["media"].as_array().unwrap().iter().map(|m| m["dir"].as_str().unwrap().to_string()).collect()
}
/// Everything but the media directions and the origin line.
fn rest(s: &SdpSession) -> Vec<String> {
    let mut media = false;
    s.to_string()
        .lines()
        .filter(|l| {
            media |= l.starts_with("m=");
            !l.starts_with("o=") && !(media && l.len() > 2 && DIRS.contains(&&l[2..]))
        })
        .map(String::from)
        .collect()
}
fn version(s: &SdpSession) -> String {
    s.to_string().lines().find(|l| l.starts_with("o=")).unwrap().split(' ').nth(2).unwrap().to_string()
}
/// Difference of two decimal numbers of any length: 0, 1, or -1 for anything else.
fn step(a: &str, b: &str) -> i64 {
    if a == b {
        return 0;
    }
    let (a, b): (Option<u128>, Option<u128>) = (a.parse().ok(), b.parse().ok());
    match (a, b) {
        (Some(a), Some(b)) if b == a + 1 => 1,
        _ => -1,
    }
}

impl Sut for Oa {
    fn step(&mut self, op: &Value) -> Value {
        if st(op, "op") == "answer" {
            return answer(op);
        }
        let e = OfferAnswerEngine::new();
        let me = if st(op, "by") == "A" { 0 } else { 1 };
        let (offer, up, same) = match st(op, "op") {
            "start" => {
                let media: Vec<Value> = op["dirs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .enumerate()
                    .map(|(i, d)| {
                        let v = i % 2 == 1;
                        json!({"t": if v {"video"} else {"audio"}, "port": 4000 + 2 * i, "proto": "RTP/AVP",
                            "fmts": if v {json!(["96"])} else {json!(["0", "8"])},
                            "maps": if v {json!([{"pt":"96","n":"H264","rate":90000,"ch":0}])} else {json!([])},
                            "fmtp": [], "dir": d, "mid": format!("m{i}"), "ptime": 20})
                    })
                    .collect();
                let d = json!({"dir": st(op, "sdir"), "tm": "0 0", "media": media});
                (SdpSession::parse(&text(&d, "192.0.2.1", st(op, "ver"))).expect("SCRIPT: start"), 0, true)
            }
            k => {
                let cur = &self.ends[me].as_ref().expect("SCRIPT: start first").sess;
                let o = if k == "hold" { e.create_hold_offer(cur) } else { e.create_resume_offer(cur) };
                let (u, s) = (step(&version(cur), &version(&o)), rest(cur) == rest(&o));
                (o, u, s)
            }
        };
        let wire = SdpSession::parse(&offer.to_string()).expect("offer on the wire");
        let mut opt = AnswerOptions::new();
        if !st(op, "wish").is_empty() {
            opt = opt.with_direction_override(dir(st(op, "wish")));
        }
        let ans = match e.generate_answer(&wire, opt) {
            Ok(a) => a,
            Err(_) => return json!({"r": "err"}),
        };
        let r = json!({"r": "ok", "offer": dirs(&offer), "ans": dirs(&ans), "up": up, "same": same});
        self.ends[me] = Some(End { sess: offer });
        self.ends[1 - me] = Some(End { sess: ans });
        r
    }
}

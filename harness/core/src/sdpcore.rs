//! Session descriptions of sip-core: reader, writer, queries and preconditions.
use crate::{bo, st, Sut};
use serde_json::{json, Value};
use sip_core::sdp::{Bandwidth, MediaDescription, PreconditionDirection, SdpSession};
use sip_core::{AnswerOptions, OfferAnswerEngine};

pub struct Core {
    d: Option<SdpSession>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(Core { d: None })
}

fn bw(b: &[Bandwidth]) -> Vec<String> {
    b.iter()
        .map(|x| {
            let t = x.bandwidth_type();
            if x.is_rtcp() != ["RS", "RR"].contains(&t.as_str()) {
                return format!("{} rtcp?", t.as_str());
            }
            t.as_str().to_string()
        })
        .collect()
}

fn view(d: &SdpSession, i: usize, m: &MediaDescription) -> Value {
    let opt = |x: Option<String>| x.into_iter().collect::<Vec<_>>();
    let text = |q: Vec<String>| q;
    json!({"dir": d.find_direction(Some(i)).map_or("", |x| x.as_str()),
        "maps": d.find_rtpmaps(i).iter().map(|x| x.to_value()).collect::<Vec<_>>(),
        "fmtp": d.find_fmtps(i).iter().map(|x| x.to_value()).collect::<Vec<_>>(),
        "curr": text(d.find_current_status(i).iter().map(|x| x.to_string()).collect()),
        "des": text(d.find_desired_status(i).iter().map(|x| x.to_string()).collect()),
        "conf": text(d.find_confirm_status(i).iter().map(|x| x.to_string()).collect()),
        "met": d.are_preconditions_met(i), "bw": bw(m.bandwidth()),
        "mid": opt(m.mid().map(String::from)), "rtcp": opt(m.rtcp().map(|x| x.to_string()))})
}

fn show(d: &SdpSession) -> Value {
    let t = d.to_string();
    let (eq, idem) = match SdpSession::parse(&t) {
        Ok(x) => (&x == d, x.to_string() == t),
        Err(_) => (false, false),
    };
    json!({"r": "ok", "out": t.lines().collect::<Vec<_>>(), "eq": eq, "idem": idem,
        "dir": d.find_direction(None).map_or("", |x| x.as_str()), "bw": bw(d.bandwidth()),
        "view": d.media().iter().enumerate().map(|(i, m)| view(d, i, m)).collect::<Vec<_>>()})
}

fn way(x: &str) -> Option<PreconditionDirection> {
    if x.is_empty() {
        return None;
    }
    Some(match x {
        "send" => PreconditionDirection::Send,
        "recv" => PreconditionDirection::Recv,
        "sendrecv" => PreconditionDirection::SendRecv,
        "none" => PreconditionDirection::None,
        _ => panic!("SCRIPT: way {x}"),
    })
}

impl Sut for Core {
    fn step(&mut self, op: &Value) -> Value {
        match st(op, "op") {
            "parse" => {
                let q: Vec<&str> = op["lines"]
                    .as_array()
                    .expect("SCRIPT: lines")
                    .iter()
                    .map(|x| x.as_str().expect("SCRIPT: line"))
                    .collect();
                let t = q.join(st(op, "eol")) + st(op, "end");
                self.d = match st(op, "via") {
                    "core" => SdpSession::parse(&t).ok(),
                    "body" => sip_parse::parse_sdp(&bytes::Bytes::from(t)),
                    x => panic!("SCRIPT: via {x}"),
                };
                self.d.as_ref().map_or(json!({"r": "err"}), show)
            }
            "answer" => {
                let Some(d) = &self.d else {
                    return json!({"r": "none"});
                };
                let mut o = AnswerOptions::new().with_upgrade_preconditions(bo(op, "up"));
                if let Some(w) = way(st(op, "loc")) {
                    o = o.with_qos_local_status(w);
                }
                if let Some(w) = way(st(op, "rem")) {
                    o = o.with_qos_remote_status(w);
                }
                let Ok(a) = OfferAnswerEngine::new().generate_answer(d, o) else {
                    return json!({"r": "err"});
                };
                // read from what would go on the wire
                let mut media: Vec<Value> = vec![];
                for l in a.to_string().lines() {
                    if let Some(m) = l.strip_prefix("m=") {
                        media.push(json!({"rej": m.split(' ').nth(1) == Some("0"), "pre": [], "rtcp": false, "caps": false}));
                    } else if let (Some(x), Some(m)) = (l.strip_prefix("a="), media.last_mut()) {
                        match x.split(':').next().unwrap_or("") {
                            "curr" | "des" | "conf" => m["pre"].as_array_mut().unwrap().push(json!(x)),
                            "rtcp" => m["rtcp"] = json!(true),
                            "sqn" | "cdsc" | "cpar" | "cparmin" | "cparmax" => m["caps"] = json!(true),
                            _ => {}
                        }
                    }
                }
                json!({"r": "ok", "media": media})
            }
            o => panic!("SCRIPT: op {o}"),
        }
    }
}

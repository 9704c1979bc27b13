//! Header fields with a value of their own form (sip-core, sip-parse).
use crate::{st, Sut};
use serde_json::{json, Value};
use sip_core::event::SubscriptionState;
use sip_core::*;
use sip_parse::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;
use std::str::FromStr;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub struct F {
    last: Option<(String, String)>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(F { last: None })
}

struct Shown {
    d: Vec<String>,
    ps: Vec<Value>,
    x: String,
    t: Vec<String>,
}
fn yes(b: bool) -> String {
    (if b { "yes" } else { "no" }).to_owned()
}
fn opt(x: Option<&str>) -> String {
    x.unwrap_or("-").to_owned()
}
fn par(n: &str, v: Option<&str>) -> Value {
    json!({"n": n, "v": v.into_iter().collect::<Vec<_>>()})
}
fn some(d: Vec<&str>, x: String) -> Option<Shown> {
    Some(Shown { d: d.into_iter().map(str::to_owned).collect(), ps: vec![], x, t: vec![] })
}
fn same<T: PartialEq + std::fmt::Debug, E>(a: Option<T>, b: Result<T, E>) -> Option<T> {
    let b = b.ok();
    assert_eq!(a, b);
    b
}
/// parameters as listed, checked against the look-up by name in any letter case
macro_rules! params {
    ($h:expr) => {{
        for (n, v) in $h.params() {
            assert_eq!($h.get_param(&n.to_uppercase()).map(|x| x.as_deref()), Some(v));
        }
        assert_eq!($h.get_param("no-such-parameter"), None);
        $h.params().map(|(n, v)| par(n, v)).collect::<Vec<Value>>()
    }};
}

fn event(h: EventHeader) -> Option<Shown> {
    let mut ps = params!(h);
    ps.extend(h.id().map(|i| par("id", Some(i))));
    Some(Shown { d: vec![h.package().to_owned()], ps, x: String::new(), t: vec![opt(h.id())] })
}
fn substate(h: SubscriptionStateHeader) -> Option<Shown> {
    let t = match h.state() {
        SubscriptionState::Active => "active",
        SubscriptionState::Pending => "pending",
        SubscriptionState::Terminated => "terminated",
        SubscriptionState::Unknown(_) => "other",
    };
    Some(Shown { d: vec![h.state().as_str().to_owned()], ps: params!(h), x: String::new(), t: vec![t.to_owned()] })
}
fn reason(h: ReasonHeader) -> Option<Shown> {
    let c = h.cause_code().map(|c| c.to_string());
    let q = h.as_q850_cause();
    if let Some(q) = q {
        assert_eq!((Q850Cause::from_code(q.code()), Some(q.code())), (Some(q), h.cause_code()));
        assert_eq!(q.to_string(), q.text());
    }
    if let Ok(p) = ReasonProtocol::from_str(h.protocol()) {
        assert_eq!((p.as_str(), p.to_string().as_str()), (h.protocol(), h.protocol()));
    }
    Some(Shown {
        d: vec![h.protocol().to_owned()],
        ps: params!(h),
        x: h.to_string(),
        t: vec![opt(c.as_deref()), opt(h.text()), yes(h.is_q850()), yes(h.is_sip()), opt(q.map(|q| q.text()))],
    })
}
fn replaces(h: ReplacesHeader) -> Option<Shown> {
    let e = yes(h.is_early_only());
    some(vec![h.call_id(), h.to_tag(), h.from_tag(), &e], h.to_string())
}
fn access(h: PAccessNetworkInfo) -> Option<Shown> {
    Some(Shown { d: vec![h.access_type().to_owned()], ps: params!(h), x: String::new(), t: vec![] })
}
fn nets(h: PVisitedNetworkIdHeader) -> Option<Shown> {
    let v: Vec<&str> = h.values().collect();
    assert_eq!((h.len(), h.is_empty()), (v.len(), v.is_empty()));
    some(v, String::new())
}
fn geoerr(h: GeolocationErrorHeader) -> Option<Shown> {
    let d = std::iter::once(h.code().unwrap_or("")).chain(h.description()).map(str::to_owned).collect();
    Some(Shown { d, ps: params!(h), x: String::new(), t: vec![] })
}
fn georoute(h: GeolocationRoutingHeader) -> Option<Shown> {
    assert_eq!(h.is_empty(), h.params().count() == 0);
    Some(Shown { d: vec![], ps: params!(h), x: String::new(), t: vec![] })
}
fn mime(h: MimeType) -> Option<Shown> {
    let ps: Vec<Value> = h.params().map(|(n, v)| par(n, Some(v))).collect();
    for (n, v) in h.params() {
        assert_eq!(h.param(&n.to_uppercase()), Some(v));
    }
    assert_eq!((h.param_count(), h.has_params(), h.as_str()), (ps.len(), !ps.is_empty(), format!("{}/{}", h.top_level(), h.subtype())));
    assert_eq!(h.to_string(), h.to_string_with_params());
    Some(Shown { d: vec![h.top_level().to_owned(), h.subtype().to_owned()], ps, x: h.to_string(), t: vec![] })
}
fn tokens(h: TokenList) -> Option<Shown> {
    assert_eq!((h.len(), h.is_empty()), (h.tokens().len(), h.tokens().is_empty()));
    assert!(h.iter().eq(h.tokens().iter().map(|t| t.as_str())));
    let t = ["INVITE", "invite", "100rel", "x"].iter().map(|p| yes(h.contains(p))).collect();
    Some(Shown { t, ..some(h.iter().collect(), h.to_string())? })
}
fn rp(h: ResourcePriorityHeader) -> Option<Shown> {
    assert_eq!((h.len(), h.is_empty()), (h.values().len(), h.values().is_empty()));
    for v in h.values() {
        assert_eq!(ResourcePriorityValue::parse(&v.to_string()).as_ref(), Ok(v));
    }
    some(h.values().iter().flat_map(|v| [v.namespace(), v.priority()]).collect(), h.to_string())
}
fn prio(h: PriorityValue) -> Option<Shown> {
    assert_eq!((h.is_extension(), h.as_str()), (!h.is_standard(), h.to_string().as_str()));
    Some(Shown { t: vec![opt(h.urgency_level().map(|l| l.to_string()).as_deref()), yes(h.is_standard())], ..some(vec![h.as_str()], h.to_string())? })
}
fn refersub(h: ReferSubHeader) -> Option<Shown> {
    assert_ne!(h.is_enabled(), h.is_suppressed());
    let x = (if h.is_enabled() { "true" } else { "false" }).to_owned();
    some(vec![&x], h.to_string())
}
fn rack(h: RAckHeader) -> Option<Shown> {
    let (a, b) = (h.rseq().to_string(), h.cseq_number().to_string());
    some(vec![&a, &b, h.cseq_method().as_str()], h.to_string())
}
fn date(h: DateHeader, written: bool) -> Option<Shown> {
    let t = h.timestamp().map(|t| {
        let s = t.duration_since(UNIX_EPOCH).unwrap().as_secs();
        format!("{}:{}", s / 86400, s % 86400)
    });
    if let Some(t) = h.timestamp() {
        let (a, b) = (SystemTime::now() > t + Duration::from_secs(600), SystemTime::now() + Duration::from_secs(600) < t);
        assert!(!a || (h.is_past() == Some(true) && h.is_future() != Some(true)));
        assert!(!b || (h.is_future() == Some(true) && h.is_past() != Some(true)));
    } else {
        assert_eq!((h.is_past(), h.is_future()), (None, None));
    }
    assert_eq!(h.raw(), h.to_string());
    Some(Shown { t: vec![opt(t.as_deref())], ..some(vec![h.raw()], if written { h.to_string() } else { String::new() })? })
}

fn read(k: &str, x: &str) -> Option<Shown> {
    let s = SmolStr::new(x);
    match k {
        "event" => parse_event_header(&s).and_then(event),
        "substate" => parse_subscription_state(&s).and_then(substate),
        "reason" => {
            let r = sip_parse::parse_reason_header(&s);
            let mut h = Headers::new();
            if h.push("Reason", x).is_ok() && x == x.trim() {
                assert_eq!(sip_core::parse_reason_header(&h), r);
            }
            r.and_then(reason)
        }
        "replaces" => ReplacesHeader::parse(x).ok().and_then(replaces),
        "access" => parse_p_access_network_info(&s).and_then(access),
        "nets" => parse_p_visited_network_id(&s).and_then(nets),
        "geoerr" => parse_geolocation_error(&s).ok().and_then(geoerr),
        "georoute" => parse_geolocation_routing(&s).ok().and_then(georoute),
        "mime" => same(parse_mime_type(&s), x.parse()).and_then(mime),
        "tokens" => TokenList::parse(x).ok().and_then(tokens),
        "allow" => {
            let a = parse_allow_header(&s);
            assert_eq!(a, parse_supported_header(&s));
            tokens(a)
        }
        "etag" => same(parse_sip_etag(&s), SipETagHeader::parse(x)).and_then(|h| {
            assert!(h.constant_time_eq(&h.clone()));
            some(vec![h.value()], h.to_string())
        }),
        "ifmatch" => SipIfMatchHeader::parse(x).ok().and_then(|h| some(vec![h.value()], h.to_string())),
        "rp" => same(parse_resource_priority(&s), ResourcePriorityHeader::parse(x)).and_then(rp),
        "prio" => same(PriorityValue::parse(x).ok(), x.parse()).and_then(prio),
        "priol" => prio(parse_priority_header(&s)),
        "subject" => same(parse_subject_header(&s), SubjectHeader::parse(x)).and_then(|h| some(vec![h.value()], h.to_string())),
        "refersub" => ReferSubHeader::parse(x).and_then(refersub),
        "rseq" => same(parse_rseq_header(&s), RSeqHeader::parse(x)).and_then(|h| some(vec![&h.sequence().to_string()], h.to_string())),
        "rack" => same(parse_rack_header(&s), RAckHeader::parse(x)).and_then(rack),
        "date" => DateHeader::new(x).ok().and_then(|h| date(h, true)),
        "datel" => {
            let h = parse_date_header(&s);
            if h.raw() == x {
                return date(h, false);
            }
            // unreadable: the present moment
            let t = h.timestamp().expect("a moment");
            let n = SystemTime::now();
            assert!(t <= n && t + Duration::from_secs(60) > n);
            date(h, false).map(|s| Shown { d: vec!["now".into()], t: vec!["-".into()], ..s })
        }
        k => panic!("SCRIPT: kind {k}"),
    }
}

fn pars(a: &Value) -> Vec<(&str, Option<&str>)> {
    a["ps"].as_array().unwrap().iter().map(|p| (st(p, "n"), p["v"].as_array().unwrap().first().map(|v| v.as_str().unwrap()))).collect()
}
fn num(x: &str) -> u32 {
    x.parse().unwrap_or_else(|_| panic!("SCRIPT: number {x}"))
}
fn create(k: &str, d: &[&str], a: &Value) -> Option<Shown> {
    let add = st(a, "via") == "add";
    macro_rules! with {
        ($h:expr) => {{
            let mut h = $h;
            for (n, v) in pars(a) {
                if add {
                    h.add_param(n, v).ok()?;
                } else {
                    h = h.with_param(n, v).ok()?;
                }
            }
            h
        }};
    }
    match k {
        "event" => {
            let mut h = EventHeader::new(d[0]).ok()?;
            for (n, v) in pars(a) {
                if n.eq_ignore_ascii_case("id") {
                    h = h.with_id(v.unwrap_or_else(|| panic!("SCRIPT: id without value"))).ok()?;
                } else if add {
                    h.add_param(n, v).ok()?;
                } else {
                    h = h.with_param(n, v).ok()?;
                }
            }
            event(h)
        }
        "substate" => substate(with!(SubscriptionStateHeader::new(if add { d[0].parse().ok()? } else { SubscriptionState::parse(d[0]).ok()? }))),
        "reason" => {
            let mut m = BTreeMap::new();
            for (n, v) in pars(a) {
                if m.insert(SmolStr::new(n), v.map(SmolStr::new)).is_some() {
                    return None; // the map cannot hold it twice
                }
            }
            ReasonHeader::new(d[0], m).ok().and_then(reason)
        }
        "replaces" => ReplacesHeader::new(d[0], d[1], d[2]).ok().and_then(|h| replaces(if add { h.with_early_only(true).with_early_only(d[3] == "yes") } else { h.with_early_only(d[3] == "yes") })),
        "access" => access(with!(PAccessNetworkInfo::new(d[0]).ok()?)),
        "nets" => PVisitedNetworkIdHeader::new(d.to_vec()).ok().and_then(nets),
        "geoerr" => {
            let mut h = if add { GeolocationErrorHeader::default() } else { GeolocationErrorHeader::new() };
            if !d[0].is_empty() {
                h = h.with_code(d[0]).ok()?;
            }
            if let Some(t) = d.get(1) {
                h = h.with_description(t).ok()?;
            }
            geoerr(with!(h))
        }
        "georoute" => georoute(with!(GeolocationRoutingHeader::new())),
        "mime" => {
            let mut h = MimeType::new(d[0], d[1]).ok()?;
            for (n, v) in pars(a) {
                let v = v.unwrap_or_else(|| panic!("SCRIPT: media type parameter without value"));
                if add {
                    h.add_param(n, v).ok()?;
                } else {
                    h = h.with_param(n, v).ok()?;
                }
            }
            mime(h)
        }
        "tokens" if add => {
            let mut h = TokenList::new();
            for (i, t) in d.iter().enumerate() {
                if i % 2 == 0 {
                    h.add_token(t).ok()?;
                } else {
                    h = h.with_token(t).ok()?;
                }
            }
            tokens(h)
        }
        "tokens" => same(TokenList::from_tokens(d).ok(), TokenList::from_slice(d)).and_then(tokens),
        "etag" => SipETagHeader::new(d[0]).ok().and_then(|h| some(vec![h.value()], h.to_string())),
        "ifmatch" => SipIfMatchHeader::new(d[0]).ok().and_then(|h| some(vec![h.value()], h.to_string())),
        "rp" => {
            let mut h = ResourcePriorityHeader::new();
            for (i, v) in d.chunks(2).enumerate() {
                let v = ResourcePriorityValue::new(v[0], v[1]).ok()?;
                if i == 0 && add {
                    h = ResourcePriorityHeader::single(v);
                } else {
                    h.add_value(v).ok()?;
                }
            }
            rp(h)
        }
        "subject" => SubjectHeader::new(d[0]).ok().and_then(|h| some(vec![h.value()], h.to_string())),
        "refersub" => refersub(match (add, d[0] == "true") {
            (true, true) => ReferSubHeader::enabled(),
            (true, false) => ReferSubHeader::suppressed(),
            (false, b) => ReferSubHeader::new(b),
        }),
        "rseq" => RSeqHeader::new(num(d[0])).ok().and_then(|h| some(vec![&h.sequence().to_string()], h.to_string())),
        "rack" => RAckHeader::new(num(d[0]), num(d[1]), Method::from_token(d[2]).ok()?).ok().and_then(rack),
        "date" => date(DateHeader::from_timestamp(UNIX_EPOCH + Duration::from_secs(num(d[0]) as u64 * 86400 + num(d[1]) as u64)), true),
        k => panic!("SCRIPT: kind {k}"),
    }
}

impl F {
    fn show(&mut self, k: &str, s: Option<Shown>) -> Value {
        match s {
            None => json!({"r": "err"}),
            Some(s) => {
                if !["event", "substate", "access", "nets", "geoerr", "georoute", "datel"].contains(&k) {
                    self.last = Some((k.to_owned(), s.x.clone()));
                }
                json!({"r": "val", "d": s.d, "ps": s.ps, "x": s.x, "t": s.t})
            }
        }
    }
}
impl Sut for F {
    fn step(&mut self, a: &Value) -> Value {
        match st(a, "op") {
            "read" => {
                let k = st(a, "k");
                self.show(k, read(k, st(a, "x")))
            }
            "make" => {
                let k = st(a, "k");
                let d: Vec<&str> = a["d"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                self.show(k, create(k, &d, a))
            }
            "again" => match self.last.clone() {
                None => json!({"r": "none"}),
                Some((k, x)) => self.show(&k, read(&k, &x)),
            },
            "q850" => self.show("reason", Q850Cause::from_code(num(st(a, "n")) as u16).and_then(|c| ReasonHeader::q850(c).ok()).and_then(reason)),
            "sipr" => self.show("reason", ReasonHeader::sip(num(st(a, "n")) as u16, a["text"][0].as_str()).ok().and_then(reason)),
            "next" => {
                let h = RSeqHeader::new(num(st(a, "n"))).ok().and_then(|h| h.next().ok());
                self.show("rseq", h.and_then(|h| some(vec![&h.sequence().to_string()], h.to_string())))
            }
            "match" => match (SipIfMatchHeader::new(st(a, "a")), SipETagHeader::new(st(a, "b"))) {
                (Ok(m), Ok(e)) => {
                    let (m2, e2) = (SipIfMatchHeader::new(e.value()).unwrap(), SipETagHeader::new(m.value()).unwrap());
                    assert_eq!((m.constant_time_eq(&m2), e.constant_time_eq(&e2)), (m == m2, e == e2));
                    json!({"r": yes(m.matches_etag(&e))})
                }
                _ => json!({"r": "err"}),
            },
            "mf" => {
                let mut h = Headers::new();
                for (i, x) in a["h"].as_array().unwrap().iter().enumerate() {
                    h.push("X-Other", "7").unwrap();
                    h.push(if i % 2 == 0 { "max-forwards" } else { "Max-Forwards" }, x.as_str().unwrap()).unwrap_or_else(|e| panic!("SCRIPT: {e}"));
                }
                let n = match decrement_max_forwards(&mut h) {
                    Ok(n) => n.to_string(),
                    Err(MaxForwardsError::Exhausted) => "exhausted".into(),
                    Err(MaxForwardsError::Invalid) => "invalid".into(),
                };
                assert!(h.iter().all(|x| x.name().eq_ignore_ascii_case("Max-Forwards") || (x.name(), x.value()) == ("X-Other", "7")));
                let v: Vec<String> = h.iter().filter(|x| x.name() != "X-Other").map(|x| x.value().to_owned()).collect();
                json!({"r": "mf", "n": n, "h": v})
            }
            "branch" => json!({"r": yes(is_valid_branch(st(a, "x")))}),
            op => panic!("SCRIPT: op {op}"),
        }
    }
}

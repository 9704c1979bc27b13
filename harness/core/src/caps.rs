//! Capabilities (RFC 3840) and caller preferences (RFC 3841) of sip-core.
use crate::{bo, it, st, Sut};
use serde_json::{json, Value};
use sip_core::*;
use smol_str::SmolStr;
use std::collections::BTreeMap;

pub struct C {
    caps: CapabilitySet,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(C { caps: CapabilitySet::new() })
}

const TAGS: [FeatureTag; 19] = [
    FeatureTag::Audio, FeatureTag::Video, FeatureTag::Application, FeatureTag::Data, FeatureTag::Control,
    FeatureTag::Text, FeatureTag::Automata, FeatureTag::Class, FeatureTag::Duplex, FeatureTag::Mobility,
    FeatureTag::Description, FeatureTag::Events, FeatureTag::Priority, FeatureTag::Methods, FeatureTag::Schemes,
    FeatureTag::Extensions, FeatureTag::IsFocus, FeatureTag::Actor, FeatureTag::Language,
];
const NAMES: [&str; 19] = [
    "audio", "video", "application", "data", "control", "text", "automata", "class", "duplex", "mobility",
    "description", "events", "priority", "methods", "schemes", "extensions", "isfocus", "actor", "language",
];
fn tag(n: &str) -> FeatureTag {
    TAGS[NAMES.iter().position(|x| *x == n).unwrap_or_else(|| panic!("SCRIPT: tag {n}"))]
}
fn name(t: FeatureTag) -> &'static str {
    NAMES[TAGS.iter().position(|x| *x == t).unwrap()]
}
fn strs(v: &Value) -> Vec<SmolStr> {
    v.as_array().expect("SCRIPT: list").iter().map(|x| SmolStr::new(x.as_str().unwrap())).collect()
}
fn val(v: &Value) -> FeatureValue {
    match st(v, "k") {
        "bool" => FeatureValue::Boolean(bo(v, "b")),
        "tok" => FeatureValue::Token(st(v, "x").into()),
        "list" => FeatureValue::TokenList(strs(&v["l"])),
        "str" => FeatureValue::String(st(v, "x").into()),
        "num" => FeatureValue::Numeric(it(v, "n") as f64 / 1000.0),
        k => panic!("SCRIPT: kind {k}"),
    }
}
fn show(v: &FeatureValue) -> Value {
    let (mut k, mut b, mut x, mut l, mut n) = ("bool", false, "", vec![], 0i64);
    match v {
        FeatureValue::Boolean(y) => b = *y,
        FeatureValue::Token(y) => (k, x) = ("tok", y.as_str()),
        FeatureValue::TokenList(y) => {
            k = "list";
            l = y.iter().map(|t| t.to_string()).collect();
        }
        FeatureValue::String(y) => (k, x) = ("str", y.as_str()),
        FeatureValue::Numeric(y) => {
            k = "num";
            n = (y * 1000.0).round() as i64;
        }
    }
    json!({"k": k, "b": b, "x": x, "l": l, "n": n})
}
/// The typed constructors; equal results are expected from `Capability::new`.
fn cap(t: FeatureTag, v: &Value) -> Result<Capability, CapabilityError> {
    let c = match val(v) {
        FeatureValue::Boolean(b) => Capability::boolean(t, b),
        FeatureValue::Token(x) => Capability::token(t, x),
        FeatureValue::TokenList(l) => Capability::token_list(t, l),
        FeatureValue::String(x) => Capability::string(t, x),
        FeatureValue::Numeric(n) => Capability::numeric(t, n),
    };
    let d = Capability::new(t, val(v));
    assert_eq!(c.is_ok(), d.is_ok(), "constructors disagree");
    c
}
fn set(f: &Value) -> CapabilitySet {
    let mut c = CapabilitySet::new();
    for p in f.as_array().expect("SCRIPT: features") {
        c.add(cap(tag(st(p, "t")), &p["v"]).unwrap_or_else(|e| panic!("SCRIPT: {e} {p}"))).unwrap();
    }
    c
}
fn accept(a: &Value) -> Result<AcceptContact, CallerPrefsError> {
    let mut x = AcceptContact::new();
    for (i, p) in a["f"].as_array().expect("SCRIPT: features").iter().enumerate() {
        let (t, v) = (tag(st(p, "t")), val(&p["v"]));
        if i % 2 == 0 {
            x = x.with_feature(t, v)?;
        } else {
            x.add_feature(t, v)?;
        }
    }
    if bo(a, "req") {
        x = x.with_require();
    }
    if bo(a, "exp") {
        x = x.with_explicit();
    }
    x = x.with_q(0.3)?;
    Ok(x)
}
fn reject(a: &Value) -> Result<RejectContact, CallerPrefsError> {
    let mut x = RejectContact::new();
    for (i, p) in a["f"].as_array().expect("SCRIPT: features").iter().enumerate() {
        let (t, v) = (tag(st(p, "t")), val(&p["v"]));
        if i % 2 == 0 {
            x = x.with_feature(t, v)?;
        } else {
            x.add_feature(t, v)?;
        }
    }
    Ok(x)
}
fn arr<'a>(a: &'a Value, k: &str) -> &'a Vec<Value> {
    a[k].as_array().unwrap_or_else(|| panic!("SCRIPT: {k} missing in {a}"))
}
fn units(x: f64) -> i64 {
    (x * 720720.0).round() as i64
}
fn disp(d: &RequestDisposition) -> Value {
    let v = [
        d.proxy().map_or("", |x| match x { ProxyDirective::Proxy => "proxy", ProxyDirective::Redirect => "redirect" }),
        d.fork().map_or("", |x| match x { ForkDirective::Fork => "fork", ForkDirective::NoFork => "no-fork" }),
        d.cancel().map_or("", |x| match x { CancelDirective::Cancel => "cancel", CancelDirective::NoCancel => "no-cancel" }),
        d.recurse().map_or("", |x| match x { RecurseDirective::Recurse => "recurse", RecurseDirective::NoRecurse => "no-recurse" }),
        d.parallel().map_or("", |x| match x { ParallelDirective::Parallel => "parallel", ParallelDirective::Sequential => "sequential" }),
        d.queue().map_or("", |x| match x { QueueDirective::Queue => "queue", QueueDirective::NoQueue => "no-queue" }),
    ];
    json!({"r": "disp", "d": v, "x": d.to_string()})
}

impl C {
    fn read(&mut self, ps: &BTreeMap<SmolStr, Option<SmolStr>>) -> Value {
        match CapabilitySet::from_params(ps) {
            Err(_) => json!({"r": "err"}),
            Ok(c) => {
                self.caps = c;
                let v: Vec<Value> = self.caps.iter().map(|c| json!({"t": name(c.tag()), "v": show(c.value())})).collect();
                json!({"r": "set", "v": v})
            }
        }
    }
}

impl Sut for C {
    fn step(&mut self, a: &Value) -> Value {
        let yes = |b: bool| json!({"r": if b { "yes" } else { "no" }});
        match st(a, "op") {
            "add" => match cap(tag(st(a, "t")), &a["v"]) {
                Ok(c) => {
                    self.caps.add(c).unwrap();
                    json!({"r": "ok"})
                }
                Err(_) => json!({"r": "err"}),
            },
            "clear" => {
                self.caps = CapabilitySet::default();
                json!({"r": "ok"})
            }
            "write" => match self.caps.to_params() {
                Ok(m) => json!({"r": "params", "v": m.iter().map(|(n, v)| json!({"n": n.as_str(),
                    "v": v.iter().map(|x| x.to_string()).collect::<Vec<_>>()})).collect::<Vec<_>>()}),
                Err(_) => json!({"r": "err"}),
            },
            "reread" => match self.caps.to_params() {
                Ok(m) => self.read(&m),
                Err(_) => json!({"r": "err"}),
            },
            "read" => {
                let m = arr(a, "ps").iter().map(|p| (SmolStr::new(st(p, "n")), arr(p, "v").first().map(|x| SmolStr::new(x.as_str().unwrap())))).collect();
                self.read(&m)
            }
            "has" => {
                let t = tag(st(a, "t"));
                let v: Vec<Value> = self.caps.get(t).map(show).into_iter().collect();
                assert_eq!((self.caps.has(t), self.caps.is_empty()), (!v.is_empty(), self.caps.len() == 0));
                json!({"r": "has", "v": v, "n": self.caps.len()})
            }
            "match" => yes(self.caps.matches(&set(&a["f"]))),
            "accept" => match accept(a) {
                Ok(x) => json!({"r": "points", "n": units(x.matches(&self.caps, bo(a, "has")))}),
                Err(_) => json!({"r": "err"}),
            },
            "reject" => match reject(a) {
                Ok(x) => yes(x.matches(&self.caps, bo(a, "has"))),
                Err(_) => json!({"r": "err"}),
            },
            "score" => {
                let mut cs = vec![];
                let mut caps = vec![];
                for (i, c) in arr(a, "cs").iter().enumerate() {
                    cs.push(
                        ScoredContact::new(format!("{}", i + 1), it(c, "q") as f64 / 1000.0).unwrap()
                            .with_explicit_features(bo(c, "has"))
                            .with_caller_qa(it(c, "qa") as f64 / 1000.0).unwrap(),
                    );
                    caps.push(set(&c["f"]));
                }
                let ac: Vec<_> = arr(a, "ac").iter().map(|x| accept(x).unwrap_or_else(|e| panic!("SCRIPT: {e}"))).collect();
                let rj: Vec<_> = arr(a, "rj").iter().map(|x| reject(x).unwrap_or_else(|e| panic!("SCRIPT: {e}"))).collect();
                match score_contacts(cs, &ac, &rj, &caps) {
                    Err(_) => json!({"r": "err"}),
                    Ok(v) => json!({"r": "chosen", "v": v.iter().map(|c| json!({"i": c.uri().parse::<i64>().unwrap(),
                        "q": (c.callee_q() * 1000.0).round() as i64, "qa": units(c.caller_qa())})).collect::<Vec<_>>()}),
                }
            }
            "sizes" => {
                let n = |k: &str| it(a, k) as usize;
                let cs = (0..n("cs")).map(|i| ScoredContact::new(format!("{i}"), 0.5).unwrap()).collect();
                let r = score_contacts(cs, &vec![AcceptContact::new(); n("ac")], &vec![RejectContact::default(); n("rj")], &vec![CapabilitySet::new(); n("caps")]);
                match r {
                    Err(_) => json!({"r": "err"}),
                    Ok(v) => json!({"r": "count", "n": v.len()}),
                }
            }
            "disp" => RequestDisposition::parse(st(a, "x")).map_or(json!({"r": "err"}), |d| disp(&d)),
            "dispw" => {
                let mut d = RequestDisposition::new();
                for x in strs(&a["d"]) {
                    d = match x.as_str() {
                        "" => d,
                        "proxy" => d.with_proxy(ProxyDirective::Proxy),
                        "redirect" => d.with_proxy(ProxyDirective::Redirect),
                        "fork" => d.with_fork(ForkDirective::Fork),
                        "no-fork" => d.with_fork(ForkDirective::NoFork),
                        "cancel" => d.with_cancel(CancelDirective::Cancel),
                        "no-cancel" => d.with_cancel(CancelDirective::NoCancel),
                        "recurse" => d.with_recurse(RecurseDirective::Recurse),
                        "no-recurse" => d.with_recurse(RecurseDirective::NoRecurse),
                        "parallel" => d.with_parallel(ParallelDirective::Parallel),
                        "sequential" => d.with_parallel(ParallelDirective::Sequential),
                        "queue" => d.with_queue(QueueDirective::Queue),
                        "no-queue" => d.with_queue(QueueDirective::NoQueue),
                        x => panic!("SCRIPT: directive {x}"),
                    };
                }
                disp(&d)
            }
            "name" => match FeatureTag::from_param_name(st(a, "x")) {
                None => json!({"r": "err"}),
                Some(t) => json!({"r": "tag", "x": t.param_name(), "full": t.to_string(), "media": t.is_media_type(), "list": t.is_list_valued()}),
            },
            op => panic!("SCRIPT: op {op}"),
        }
    }
}

//! XML bodies: presence, watcher and registration information (sip-core).
use crate::{st, Sut};
use serde_json::{json, Value};
use sip_core::presence::{parse_pidf, BasicStatus, PresenceDocument, Tuple};
use sip_core::reg_event::{self, ContactEvent, ContactState, RegInfo, RegInfoState, Registration, RegistrationState};
use sip_core::watcher_info::{parse_watcherinfo, Watcher, WatcherEvent, WatcherList, WatcherStatus, WatcherinfoDocument};

#[derive(Clone)]
enum Doc {
    None,
    Pidf(PresenceDocument),
    Winfo(WatcherinfoDocument),
    Reg(RegInfo),
}
pub struct X {
    doc: Doc,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(X { doc: Doc::None })
}

// ---------------------------------------------------------------- a strict reader of XML
struct Reader<'a> {
    x: &'a str,
    i: usize,
}
impl<'a> Reader<'a> {
    fn rest(&self) -> &'a str {
        &self.x[self.i..]
    }
    fn eat(&mut self, p: &str) -> bool {
        let yes = self.rest().starts_with(p);
        if yes {
            self.i += p.len();
        }
        yes
    }
    fn need(&mut self, p: &str) {
        assert!(self.eat(p), "XML: {p:?} expected at {:?}", self.rest());
    }
    fn blanks(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches([' ', '\t', '\r', '\n']).len();
        self.i += n;
        n > 0
    }
    fn name(&mut self) -> &'a str {
        let r = self.rest();
        let n = r.find(|c: char| !(c.is_alphanumeric() || "-_.:".contains(c))).unwrap_or(r.len());
        assert!(n > 0, "XML: name expected at {r:?}");
        self.i += n;
        &r[..n]
    }
    fn text(&mut self, end: char) -> String {
        let r = self.rest();
        let n = r.find(end).unwrap_or_else(|| panic!("XML: no {end:?}"));
        self.i += n;
        let raw = &r[..n];
        assert!(!raw.contains('<'), "XML: '<' within {raw:?}");
        let mut parts = raw.split('&');
        let blank = |c: char| if end != '<' && "\t\r\n".contains(c) { ' ' } else { c };
        let mut out: String = parts.next().unwrap().chars().map(blank).collect();
        for p in parts {
            let (e, rest) = p.split_once(';').expect("XML: reference without end");
            out.push(match e {
                "lt" => '<',
                "gt" => '>',
                "amp" => '&',
                "quot" => '"',
                "apos" => '\'',
                _ => {
                    let d = e.strip_prefix('#').expect("XML: unknown entity");
                    let n = d.strip_prefix('x').map_or_else(|| d.parse(), |h| u32::from_str_radix(h, 16)).expect("XML: reference");
                    assert!(n >= 32 || [9, 10, 13].contains(&n), "XML: character {n}");
                    char::from_u32(n).expect("XML: character")
                }
            });
            out.extend(rest.chars().map(blank));
        }
        assert!(out.chars().all(|c| c >= ' ' || "\t\r\n".contains(c)), "XML: control character");
        out
    }
    fn element(&mut self) -> Value {
        self.need("<");
        let n = self.name();
        let mut at: Vec<Value> = vec![];
        loop {
            let b = self.blanks();
            if self.eat("/>") {
                return json!({"n": n, "as": at, "t": "", "ks": []});
            }
            if self.eat(">") {
                break;
            }
            assert!(b, "XML: blank expected before attribute");
            let a = self.name();
            self.blanks();
            self.need("=");
            self.blanks();
            let q = self.rest().chars().next().filter(|c| "\"'".contains(*c)).expect("XML: quote");
            self.i += 1;
            let v = self.text(q);
            self.i += 1;
            assert!(at.iter().all(|x| x["n"] != a), "XML: attribute {a} twice");
            at.push(json!({"n": a, "v": v}));
        }
        let (mut t, mut ks) = (String::new(), vec![]);
        loop {
            t.push_str(&self.text('<'));
            if self.eat("</") {
                assert_eq!(self.name(), n, "XML: end tag");
                self.blanks();
                self.need(">");
                let t = t.trim_matches([' ', '\t', '\r', '\n']);
                assert!(ks.is_empty() || t.is_empty(), "XML: text {t:?} among elements");
                return json!({"n": n, "as": at, "t": t, "ks": ks});
            }
            ks.push(self.element());
        }
    }
}
fn tree(x: &str) -> Value {
    let mut r = Reader { x, i: 0 };
    if r.eat("<?xml ") {
        r.i += r.rest().find("?>").expect("XML: declaration") + 2;
    }
    r.blanks();
    let e = r.element();
    r.blanks();
    assert_eq!(r.rest(), "", "XML: more after the document");
    e
}

// ---------------------------------------------------------------- documents
fn opt<'a>(d: &'a Value, f: &str) -> Option<&'a str> {
    d[f].as_array().unwrap_or_else(|| panic!("SCRIPT: {f}")).first().map(|v| v.as_str().unwrap())
}
fn many<'a>(d: &'a Value, f: &str) -> Vec<&'a Value> {
    d[f].as_array().unwrap_or_else(|| panic!("SCRIPT: {f}")).iter().collect()
}
fn list<T: ToString>(x: Option<T>) -> Value {
    json!(x.into_iter().map(|x| x.to_string()).collect::<Vec<_>>())
}
fn num(x: &str) -> u32 {
    x.parse().unwrap_or_else(|_| panic!("SCRIPT: number {x}"))
}
fn tuple(d: &Value) -> Option<Tuple> {
    let mut t = Tuple::new(st(d, "id")).ok()?;
    if let Some(x) = opt(d, "st") {
        t = t.with_status(x.parse::<BasicStatus>().ok()?);
    }
    if let Some(x) = opt(d, "c") {
        t = t.with_contact(x).ok()?;
    }
    for x in many(d, "ns") {
        t = t.with_note(x.as_str().unwrap()).ok()?;
    }
    if let Some(x) = opt(d, "tm") {
        t = t.with_timestamp(x).ok()?;
    }
    Some(t)
}
fn watcher(d: &Value) -> Option<Watcher> {
    let s = WatcherStatus::parse(st(d, "st"));
    assert_eq!(s, st(d, "st").parse().ok());
    let mut w = Watcher::new(st(d, "id"), s?, st(d, "ev").parse::<WatcherEvent>().ok()?).ok()?;
    if let Some(x) = opt(d, "uri") {
        w = w.with_uri(x).ok()?;
    }
    if let Some(x) = opt(d, "dn") {
        w = w.with_display_name(x).ok()?;
    }
    if let Some(x) = opt(d, "ex") {
        w = w.with_expiration(num(x));
    }
    if let Some(x) = opt(d, "du") {
        w = w.with_duration_subscribed(num(x));
    }
    Some(w)
}
fn contact(d: &Value) -> Option<reg_event::Contact> {
    let s = [ContactState::Active, ContactState::Terminated].into_iter().find(|s| s.as_str() == st(d, "st")).expect("SCRIPT: state");
    let mut c = reg_event::Contact::new(st(d, "id"), s, st(d, "uri")).ok()?;
    if let Some(x) = opt(d, "ev") {
        c = c.with_event(x.parse::<ContactEvent>().ok()?);
    }
    if let Some(x) = opt(d, "dn") {
        c = c.with_display_name(x).ok()?;
    }
    if let Some(x) = opt(d, "ci") {
        c = c.with_call_id(x).ok()?;
    }
    if let Some(x) = opt(d, "q") {
        c = c.with_q(x.parse().expect("SCRIPT: q")).ok()?;
    }
    if let Some(x) = opt(d, "ex") {
        c = c.with_expires(num(x));
    }
    if let Some(x) = opt(d, "ra") {
        c = c.with_retry_after(num(x));
    }
    if let Some(x) = opt(d, "du") {
        c = c.with_duration_registered(num(x));
    }
    if let Some(x) = opt(d, "sq") {
        c = c.with_cseq(num(x));
    }
    Some(c)
}
fn show(d: &Doc) -> Value {
    match d {
        Doc::None => json!({"r": "none"}),
        Doc::Pidf(d) => {
            let ts: Vec<Value> = d
                .tuples()
                .map(|t| json!({"id": t.id(), "st": list(t.status()), "c": list(t.contact()), "ns": t.notes().collect::<Vec<_>>(), "tm": list(t.timestamp())}))
                .collect();
            assert_eq!((d.len(), d.is_empty()), (ts.len(), ts.is_empty()));
            json!({"r": "pidf", "e": d.entity(), "ns": d.notes().collect::<Vec<_>>(), "ts": ts, "bs": list(d.basic_status())})
        }
        Doc::Winfo(d) => {
            assert_eq!((d.is_full(), d.is_partial()), (d.state() == "full", d.state() == "partial"));
            assert_eq!(d.is_empty(), d.watcher_lists().is_empty());
            let w = |w: &Watcher| json!({"id": w.id(), "st": w.status().to_string(), "ev": w.event().to_string(), "uri": list(w.uri()), "dn": list(w.display_name()), "ex": list(w.expiration()), "du": list(w.duration_subscribed())});
            let ls: Vec<Value> = d
                .watcher_lists()
                .iter()
                .map(|l| {
                    assert_eq!(l.is_empty(), l.watchers().is_empty());
                    json!({"r": l.resource(), "p": l.package(), "ws": l.watchers().iter().map(w).collect::<Vec<_>>()})
                })
                .collect();
            json!({"r": "winfo", "ver": d.version().to_string(), "st": d.state(), "ls": ls})
        }
        Doc::Reg(d) => {
            assert_eq!(d.is_empty(), d.registrations().is_empty());
            let c = |c: &reg_event::Contact| {
                json!({"id": c.id(), "st": c.state().as_str(), "ev": list(c.event().map(|e| e.as_str().to_owned())), "uri": c.uri(), "dn": list(c.display_name()), "ex": list(c.expires()), "ra": list(c.retry_after()),
                    "du": list(c.duration_registered()), "q": list(c.q()), "ci": list(c.call_id()), "sq": list(c.cseq())})
            };
            let rs: Vec<Value> = d
                .registrations()
                .iter()
                .map(|r| {
                    assert_eq!(r.is_empty(), r.contacts().is_empty());
                    json!({"a": r.aor(), "id": r.id(), "st": r.state().as_str(), "cs": r.contacts().iter().map(c).collect::<Vec<_>>()})
                })
                .collect();
            json!({"r": "reg", "ver": d.version().to_string(), "st": d.state().as_str(), "rs": rs})
        }
    }
}
fn trimmed(v: Value) -> Value {
    match v {
        Value::String(x) => json!(x.trim()),
        Value::Array(q) => q.into_iter().map(trimmed).collect(),
        Value::Object(m) => m.into_iter().map(|(k, v)| (k, trimmed(v))).collect(),
        v => v,
    }
}
fn read(k: &str, x: &str) -> Option<Doc> {
    match k {
        "pidf" => parse_pidf(x).ok().map(Doc::Pidf),
        "winfo" => parse_watcherinfo(x).ok().map(Doc::Winfo),
        k => panic!("SCRIPT: kind {k}"),
    }
}
fn write(d: &Doc) -> String {
    match d {
        Doc::None => String::new(),
        Doc::Pidf(d) => {
            assert_eq!(d.to_xml(), d.to_string());
            d.to_xml()
        }
        Doc::Winfo(d) => {
            assert_eq!(d.to_xml(), d.to_string());
            d.to_xml()
        }
        Doc::Reg(d) => d.to_string(),
    }
}
fn new(k: &str, d: &Value) -> Option<Doc> {
    Some(match k {
        "pidf" => Doc::Pidf(PresenceDocument::new(st(d, "e")).ok()?),
        "winfo" => Doc::Winfo(WatcherinfoDocument::new(num(st(d, "ver")), st(d, "st")).ok()?),
        "reg" => Doc::Reg(RegInfo::new(num(st(d, "ver")), if st(d, "st") == "full" { RegInfoState::Full } else { RegInfoState::Partial })),
        k => panic!("SCRIPT: kind {k}"),
    })
}
impl X {
    /// Adds the element `rep` times; None if one of them is refused.
    fn add(&mut self, a: &Value) -> Option<()> {
        let (d, rep, more) = (&a["d"], a["rep"].as_u64().unwrap(), a["more"].as_u64().unwrap() as usize);
        match &mut self.doc {
            Doc::None => None,
            Doc::Pidf(p) => {
                let t = tuple(d)?;
                (0..rep).try_for_each(|_| p.add_tuple(t.clone()).ok())
            }
            Doc::Winfo(p) => {
                let mut l = WatcherList::new(st(d, "r"), st(d, "p")).ok()?;
                let ws = many(d, "ws").into_iter().map(watcher).collect::<Option<Vec<_>>>()?;
                for w in ws.iter().chain(std::iter::repeat_n(ws.last(), more).flatten()) {
                    l.add_watcher(w.clone()).ok()?;
                }
                (0..rep).try_for_each(|_| p.add_watcher_list(l.clone()).ok())
            }
            Doc::Reg(p) => {
                let s = [RegistrationState::Init, RegistrationState::Active, RegistrationState::Terminated].into_iter().find(|s| s.as_str() == st(d, "st")).expect("SCRIPT: state");
                let mut r = Registration::new(st(d, "a"), st(d, "id"), s).ok()?;
                let cs = many(d, "cs").into_iter().map(contact).collect::<Option<Vec<_>>>()?;
                for c in cs.iter().chain(std::iter::repeat_n(cs.last(), more).flatten()) {
                    r.add_contact(c.clone()).ok()?;
                }
                (0..rep).try_for_each(|_| p.add_registration(r.clone()).ok())
            }
        }
    }
    fn kind(&self) -> &'static str {
        match self.doc {
            Doc::None => "none",
            Doc::Pidf(_) => "pidf",
            Doc::Winfo(_) => "winfo",
            Doc::Reg(_) => "reg",
        }
    }
}
impl Sut for X {
    fn step(&mut self, a: &Value) -> Value {
        let op = st(a, "op");
        let ok = |b| json!({"r": if b { "ok" } else { "err" }});
        match op {
            "new" | "read" => {
                let d = if op == "new" { new(st(a, "k"), &a["d"]) } else { read(st(a, "k"), st(a, "x")) };
                let r = ok(d.is_some());
                if let Some(d) = d {
                    self.doc = d;
                }
                return r;
            }
            "junk" => {
                // whatever is read can be written and read back
                let Some(d) = read(st(a, "k"), st(a, "x")) else { return json!({"r": "refused"}) };
                let x = write(&d);
                tree(&x);
                assert_eq!(trimmed(show(&read(st(a, "k"), &x).expect("reads back"))), trimmed(show(&d)));
                return json!({"r": "read"});
            }
            _ => {}
        }
        if op == "add" && st(a, "k") == self.kind() {
            return ok(self.add(a).is_some());
        }
        match (&mut self.doc, op) {
            (Doc::None, _) => json!({"r": "none"}),
            (Doc::Pidf(p), "note") => ok(p.add_note(st(a, "x")).is_ok()),
            (d, "show") => show(d),
            (d, "again") => {
                let x = write(d);
                let mut o = show(&if let Doc::Reg(_) = d { d.clone() } else { read(if let Doc::Pidf(_) = d { "pidf" } else { "winfo" }, &x).expect("reads back") });
                o["t"] = tree(&x);
                o
            }
            _ => json!({"r": "none"}),
        }
    }
}

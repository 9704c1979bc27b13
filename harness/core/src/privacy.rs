//! Privacy (RFC 3323) and asserted identities (RFC 3325) of sip-core.
use crate::{st, Sut};
use serde_json::{json, Value};
use sip_core::*;
use std::collections::BTreeMap;

pub struct P {
    h: Headers,
    ids: Vec<PIdentity>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    Box::new(P { h: Headers::new(), ids: vec![] })
}

fn arr<'a>(a: &'a Value, k: &str) -> &'a Vec<Value> {
    a[k].as_array().unwrap_or_else(|| panic!("SCRIPT: {k} missing in {a}"))
}
fn privs(a: &Value) -> Vec<PrivacyValue> {
    arr(a, "v")
        .iter()
        .map(|x| match x.as_str().unwrap() {
            "none" => PrivacyValue::None,
            "header" => PrivacyValue::Header,
            "session" => PrivacyValue::Session,
            "user" => PrivacyValue::User,
            "id" => PrivacyValue::Id,
            "critical" => PrivacyValue::Critical,
            x => panic!("SCRIPT: privacy {x}"),
        })
        .collect()
}
fn show(p: &PrivacyHeader) -> Value {
    assert_eq!((p.len(), p.is_empty()), (p.values().count(), false));
    for v in p.values() {
        assert!(p.contains(v));
    }
    json!({"r": "priv", "v": p.values().map(|v| v.as_str()).collect::<Vec<_>>(), "x": p.to_string(), "crit": p.is_critical(),
        "none": p.is_none(), "ident": p.requires_identity_anonymization(), "heads": p.requires_header_privacy(), "sess": p.requires_session_privacy()})
}
fn uri(x: &str) -> Uri {
    Uri::parse(x).unwrap_or_else(|e| panic!("SCRIPT: {x}: {e:?}"))
}
fn sip(x: &str) -> SipUri {
    SipUri::parse(x).unwrap_or_else(|e| panic!("SCRIPT: {x}: {e:?}"))
}
fn ids<'a>(v: impl Iterator<Item = &'a PIdentity>, sip: Option<&str>, tel: Option<&str>, has: (bool, bool)) -> Value {
    assert_eq!(has, (sip.is_some(), tel.is_some()));
    let v: Vec<Value> = v
        .map(|i| {
            let ps: Vec<Value> = i.params().map(|(n, v)| json!({"n": n, "v": v.into_iter().collect::<Vec<_>>()})).collect();
            for (n, v) in i.params() {
                assert_eq!(i.get_param(&n.to_uppercase()).map(|x| x.as_deref()), Some(v));
            }
            json!({"name": i.display_name().unwrap_or(""), "uri": i.uri().as_str(), "ps": ps})
        })
        .collect();
    json!({"r": "ids", "v": v, "sip": sip.into_iter().collect::<Vec<_>>(), "tel": tel.into_iter().collect::<Vec<_>>()})
}

impl P {
    fn look(&self, r: &str) -> Value {
        let mut m: BTreeMap<String, Vec<&str>> = BTreeMap::new();
        for h in self.h.iter() {
            m.entry(h.name().to_ascii_lowercase()).or_default().push(h.value());
        }
        json!({"r": r, "h": m.iter().map(|(n, v)| json!({"n": n, "v": v})).collect::<Vec<_>>()})
    }
    fn enforce(&mut self, p: &PrivacyHeader) -> Value {
        let r = enforce_privacy(&mut self.h, p);
        self.look(if r.is_ok() { "hdrs" } else { "err" })
    }
    fn own(a: &Value) -> Result<PIdentity, p_headers::PHeaderError> {
        let mut i = PIdentity::from_uri(uri(st(a, "uri")));
        if st(a, "name") != "" {
            i = i.with_display_name(st(a, "name"))?;
        }
        for (k, p) in arr(a, "ps").iter().enumerate() {
            let v = arr(p, "v").first().map(|x| x.as_str().unwrap());
            if k % 2 == 0 {
                i.add_param(st(p, "n"), v)?;
            } else {
                i = i.with_param(st(p, "n"), v)?;
            }
        }
        Ok(i)
    }
}

impl Sut for P {
    fn step(&mut self, a: &Value) -> Value {
        let w = || match st(a, "w") {
            "pai" => "P-Asserted-Identity",
            "ppi" => "P-Preferred-Identity",
            x => panic!("SCRIPT: which {x}"),
        };
        let err = || json!({"r": "err"});
        match st(a, "op") {
            "hdr" => {
                self.h.push(st(a, "n"), st(a, "v")).unwrap_or_else(|e| panic!("SCRIPT: {e}"));
                json!({"r": "ok"})
            }
            "privacy" => PrivacyHeader::parse(st(a, "x")).map_or(err(), |p| show(&p)),
            "build" => PrivacyHeader::new(privs(a)).map_or(err(), |p| show(&p)),
            "asks" => {
                let v: Vec<Vec<&str>> = parse_privacy_header(&self.h).iter().map(|p| p.values().map(|v| v.as_str()).collect()).collect();
                json!({"r": if requires_privacy_enforcement(&self.h) { "yes" } else { "no" }, "v": v})
            }
            "enforce" => {
                let v = privs(a);
                let p = if v.len() == 1 { PrivacyHeader::single(v[0]) } else { PrivacyHeader::new(v).unwrap_or_else(|e| panic!("SCRIPT: {e}")) };
                self.enforce(&p)
            }
            "apply" => match parse_privacy_header(&self.h) {
                Some(p) => self.enforce(&p),
                None => json!({"r": "no"}),
            },
            "ids" => {
                if w() == "P-Asserted-Identity" {
                    match parse_p_asserted_identity(&self.h) {
                        Err(_) => err(),
                        Ok(None) => json!({"r": "none"}),
                        Ok(Some(x)) => {
                            assert_eq!((x.len(), x.is_empty()), (x.identities().count(), false));
                            ids(x.identities(), x.sip_identity(), x.tel_identity(), (x.has_sip_identity(), x.has_tel_identity()))
                        }
                    }
                } else {
                    match parse_p_preferred_identity(&self.h) {
                        Err(_) => err(),
                        Ok(None) => json!({"r": "none"}),
                        Ok(Some(x)) => {
                            assert_eq!((x.len(), x.is_empty()), (x.identities().count(), false));
                            ids(x.identities(), x.sip_identity(), x.tel_identity(), (x.has_sip_identity(), x.has_tel_identity()))
                        }
                    }
                }
            }
            "own" => match Self::own(a) {
                Ok(i) => {
                    self.ids.push(i);
                    json!({"r": "ok"})
                }
                Err(_) => err(),
            },
            "simple" => {
                let n = st(a, "n");
                let u = || sip(st(a, "uri"));
                let r = if a["pref"].as_bool().unwrap_or(false) {
                    match st(a, "k") {
                        "sip" => Ok(PPreferredIdentityHeader::single_sip(u())),
                        "tel" => PPreferredIdentityHeader::single_tel(n),
                        _ => PPreferredIdentityHeader::sip_and_tel(u(), n),
                    }
                    .map(|x| x.identities().cloned().collect())
                } else {
                    match st(a, "k") {
                        "sip" => Ok(PAssertedIdentityHeader::single_sip(u())),
                        "tel" => PAssertedIdentityHeader::single_tel(n),
                        _ => PAssertedIdentityHeader::sip_and_tel(u(), n),
                    }
                    .map(|x| x.identities().cloned().collect())
                };
                match r {
                    Ok(v) => {
                        self.ids = v;
                        json!({"r": "ok"})
                    }
                    Err(_) => err(),
                }
            }
            "put" => {
                let v = self.ids.clone();
                let x = if w() == "P-Asserted-Identity" {
                    PAssertedIdentityHeader::new(v).map(|h| h.to_string())
                } else {
                    PPreferredIdentityHeader::new(v).map(|h| h.to_string())
                };
                match x {
                    Ok(x) => {
                        if self.h.push(w(), &x).is_err() {
                            return json!({"r": "unsendable", "x": x});
                        }
                        self.ids.clear();
                        json!({"r": "text", "x": x})
                    }
                    Err(_) => err(),
                }
            }
            op => panic!("SCRIPT: op {op}"),
        }
    }
}

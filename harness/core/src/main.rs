//! See driver.rs.
mod addr;
mod auth;
mod body;
mod caps;
mod clock;
mod dialog;
mod dns;
mod driver;
mod field;
mod identity;
mod msg;
mod privacy;
mod ratelimit;
mod registrar;
mod sdpcore;
mod sdpoa;
mod sdptext;
mod secagree;
mod sipmsg;
mod uri;
mod usage;
mod viacred;
mod xmldoc;

pub use driver::{bo, has, it, st, Maker, Sut};

fn maker(suite: &str) -> Option<Maker> {
    Some(match suite {
        "dialog" => dialog::make,
        "prack" => usage::make_prack,
        "timers" => usage::make_timers,
        "subs" => usage::make_subs,
        "ratelimit" => ratelimit::make,
        "addr" => addr::make,
        "auth" => auth::make,
        "body" => body::make,
        "caps" => caps::make,
        "field" => field::make,
        "privacy" => privacy::make,
        "registrar" => registrar::make,
        "sdpcore" => sdpcore::make,
        "sdpoa" => sdpoa::make,
        "sdptext" => sdptext::make,
        "sipmsg" => sipmsg::make,
        "uri" => uri::make,
        "dns" => dns::make,
        "identity" => identity::make,
        "secagree" => secagree::make,
        "viacred" => viacred::make,
        "xmldoc" => xmldoc::make,
        _ => return None,
    })
}

fn main() {
    driver::drive(maker);
}

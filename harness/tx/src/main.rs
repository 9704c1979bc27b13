//! conform-tx: the suites that need sip-transaction and sip-proxy; same
//! command line and driver as harness/core.
#[path = "../../core/src/clock.rs"]
mod clock;
#[path = "../../core/src/driver.rs"]
mod driver;
mod pool;
mod proxy;
mod stream;
mod transaction;

pub use driver::{bo, has, it, st, Maker, Sut};

fn maker(suite: &str) -> Option<Maker> {
    Some(match suite {
        "transaction" => transaction::make,
        "proxy" => proxy::make,
        "stream" => stream::make,
        "pool" => pool::make,
        _ => return None,
    })
}

fn main() {
    driver::drive(maker);
}

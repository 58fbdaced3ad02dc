//! The native functions of the HTTP package.

extern crate ffi as pen_ffi;
#[path = "../../ffi/src/host.rs"]
mod host;
mod messages;
mod values;
mod wire;

use pbt::{Campaign, Property};
use pkg_http as _;

pub mod tasks {
    pub enum Wake {
        Now,
    }
    pub async fn yield_now(_: Wake) {
        tokio::task::yield_now().await
    }
}

fn main() {
    pbt::main(vec![Property {
        id: "P12",
        level: "exploration",
        rule: "exchanges with a header and a body in at least one direction",
        assumptions: &[
            "messages are given as maps of headers, so names repeated in a message are left out",
            "headers of the connection itself (framing, upgrades) belong to the implementation",
            "what several threads share is marked as shared, as compiled programs do",
        ],
        campaigns: vec![
            Campaign::new("client", 8_000, 100_000, messages::clients),
            Campaign::new("server", 8_000, 100_000, messages::servers),
            Campaign::new("client and server", 4_000, 50_000, messages::both),
            Campaign::new("malformed requests", 8_000, 100_000, messages::malformed),
            Campaign::new("addresses", 2_000, 40_000, messages::addresses),
        ],
    }])
}

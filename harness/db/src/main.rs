//! The native functions of the SQL package.

extern crate ffi as pen_ffi;
#[path = "../../ffi/src/host.rs"]
mod host;
mod histories;
mod values;

use pbt::{Campaign, Property};
use pkg_sql as _;

pub mod tasks {
    use std::future::poll_fn;
    use std::task::Poll;
    pub enum Wake {
        Now,
    }
    pub async fn yield_now(_: Wake) {
        let mut first = true;
        poll_fn(|context| {
            context.waker().wake_by_ref();
            if std::mem::take(&mut first) { Poll::Pending } else { Poll::Ready(()) }
        })
        .await
    }
}

fn main() {
    pbt::main(vec![Property {
        id: "P11",
        level: "exploration",
        rule: "queries with at least 2 parameters of different values, histories with at least 2 changes and 2 queries that give rows",
        assumptions: &[
            "SQLite databases only: no server of another kind is there",
            "SQLite has neither booleans nor not-a-number: they come back as 0 and 1 and as none",
        ],
        campaigns: vec![
            Campaign::new("parameters", 8_000, 300_000, histories::parameters),
            Campaign::new("tables", 4_000, 150_000, histories::tables),
            Campaign::new("together", 1_500, 40_000, histories::together),
            Campaign::new("boolean column", 1, 1, histories::booleans),
            Campaign::new("pools", 1_500, 40_000, histories::pools),
        ],
    }])
}

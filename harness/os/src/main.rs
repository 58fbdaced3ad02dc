//! The native functions of the asynchronous system package.

extern crate ffi as pen_ffi;
#[path = "../../ffi/src/host.rs"]
mod host;
mod concurrency;
mod files;
mod heap;
mod process;
mod script;
mod sockets;
mod sys;
mod values;

use pbt::{Campaign, Property};
use {pkg_os as _, pkg_os_app as _};

pub mod tasks {
    pub enum Wake {
        Now,
    }
    pub async fn yield_now(_: Wake) {
        tokio::task::yield_now().await
    }
}

pub fn vec(list: ffi::List) -> Vec<ffi::Any> {
    use futures::StreamExt;
    sys::run(ffi::future::stream::from_list(list).collect())
}

pub fn list(list: ffi::List) -> Vec<Vec<u8>> {
    vec(list).into_iter().map(|x| ffi::ByteString::try_from(x).expect("string").as_slice().to_vec()).collect()
}

fn programs(g: &mut pbt::Gen) -> pbt::CaseResult {
    process::programs(g, true)
}

fn main() {
    pbt::main(vec![
        Property {
            id: "P07",
            level: "exploration",
            rule: "histories of at least 3 operations of which at least 4 kinds succeed",
            assumptions: &[
                "std::fs on the same file system is the reference; both directories are in scratch space of the check",
                "copying a file onto itself is left out: the operating system's copy empties it",
                "the process runs as root, so permissions never refuse an operation",
            ],
            campaigns: vec![
                Campaign::new("histories", 12_000, 400_000, files::histories),
                Campaign::new("large", 400, 10_000, files::large_histories),
                Campaign::new("together", 8_000, 200_000, files::together),
            ],
        },
        Property {
            id: "P10",
            level: "exploration",
            rule: "a spawned function's result asked for more than once, at least 2 sources with elements",
            assumptions: &["what functions and lists share is marked as shared, as compiled programs do"],
            campaigns: vec![
                Campaign::new("spawns", 40_000, 1_500_000, concurrency::spawns),
                Campaign::new("races", 30_000, 1_000_000, concurrency::races),
                Campaign::new("long races", 4_000, 100_000, concurrency::long_races),
                Campaign::new("wide races", 4_000, 100_000, concurrency::wide_races),
                Campaign::new("stopped races", 6_000, 200_000, concurrency::stopped_races),
            ],
        },
        Property {
            id: "P15",
            level: "exploration",
            rule: "programs of at least 3 steps",
            assumptions: &["standard streams are pipes or files that take all that is written"],
            campaigns: vec![Campaign::new("programs", 1_600, 60_000, programs)],
        },
        Property {
            id: "P13",
            level: "exploration",
            rule: "histories in which blocks grow, shrink and are freed",
            assumptions: &["sizes of at least one byte, and memory enough"],
            campaigns: vec![Campaign::new("small", 200_000, 10_000_000, heap::small), Campaign::new("large", 300, 20_000, heap::large)],
        },
        Property {
            id: "P09",
            level: "exploration",
            rule: "connections with at least 2 sends and 2 receives, several clients at a listener, at least 2 datagrams received",
            assumptions: &[
                "the loopback interface loses nothing while less than its buffers hold is under way",
                "datagrams of at most 512 bytes, the most that the functions can receive",
            ],
            campaigns: vec![
                Campaign::new("streams", 20_000, 300_000, sockets::streams),
                Campaign::new("listeners", 6_000, 100_000, sockets::listeners),
                Campaign::new("datagrams", 20_000, 300_000, sockets::datagrams),
            ],
        },
    ])
}

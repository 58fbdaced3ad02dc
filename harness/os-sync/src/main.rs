//! The native functions of the synchronous system package.

extern crate ffi as pen_ffi;
#[path = "../../os/src/files.rs"]
mod files;
#[path = "../../os/src/heap.rs"]
mod heap;
#[path = "../../ffi/src/host.rs"]
mod host;
#[path = "../../os/src/process.rs"]
mod process;
#[path = "../../os/src/script.rs"]
mod script;
#[path = "../../os/src/sockets.rs"]
mod sockets;
mod sys;
#[path = "../../os/src/values.rs"]
mod values;

use pbt::{Campaign, Property};
use {pkg_os_sync as _, pkg_os_sync_app as _};

pub mod tasks {
    pub enum Wake {
        Now,
    }
    pub async fn yield_now(_: Wake) {}
}

pub fn vec(list: ffi::List) -> Vec<ffi::Any> {
    use futures::StreamExt;
    futures::executor::block_on(ffi::future::stream::from_list(list).collect())
}

pub fn list(list: ffi::List) -> Vec<Vec<u8>> {
    vec(list).into_iter().map(|x| ffi::ByteString::try_from(x).expect("string").as_slice().to_vec()).collect()
}

fn programs(g: &mut pbt::Gen) -> pbt::CaseResult {
    process::programs(g, false)
}

fn main() {
    pbt::main(vec![
        Property {
            id: "P08",
            level: "exploration",
            rule: "histories of at least 3 operations of which at least 4 kinds succeed",
            assumptions: &[
                "std::fs on the same file system is the reference; both directories are in scratch space of the check",
                "copying a file onto itself is left out: the operating system's copy empties it",
                "the process runs as root, so permissions never refuse an operation",
            ],
            campaigns: vec![
                Campaign::new("histories", 40_000, 1_200_000, files::histories),
                Campaign::new("large", 400, 10_000, files::large_histories),
                Campaign::new("together", 3_000, 100_000, files::together),
            ],
        },
        Property {
            id: "P16",
            level: "exploration",
            rule: "connections with at least 2 sends and 2 receives, several clients at a listener, at least 2 datagrams received",
            assumptions: &[
                "the loopback interface loses nothing while less than its buffers hold is under way",
                "datagrams of at most 512 bytes, the most that the functions can receive",
            ],
            campaigns: vec![
                Campaign::new("streams", 20_000, 300_000, sockets::streams),
                Campaign::new("listeners", 6_000, 100_000, sockets::listeners),
                Campaign::new("datagrams", 20_000, 300_000, sockets::datagrams),
            ],
        },
        Property {
            id: "P17",
            level: "exploration",
            rule: "programs of at least 3 steps",
            assumptions: &["standard streams are pipes or files that take all that is written"],
            campaigns: vec![Campaign::new("programs", 6_000, 200_000, programs)],
        },
        Property {
            id: "P18",
            level: "exploration",
            rule: "histories in which blocks grow, shrink and are freed",
            assumptions: &["sizes of at least one byte, and memory enough"],
            campaigns: vec![Campaign::new("small", 200_000, 10_000_000, heap::small), Campaign::new("large", 300, 20_000, heap::large)],
        },
    ])
}

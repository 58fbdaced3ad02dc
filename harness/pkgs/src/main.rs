//! The native functions of the packages, called as compiled programs call them.

#[path = "../../ffi/src/host.rs"]
mod host;
mod bits;
mod bytes;
mod hashes;
mod html;
mod numbers;
mod patterns;
mod random;
mod texts;

use pen_ffi::{Any, ByteString, List};
// Linked for their exported functions.
use {pkg_core as _, pkg_html as _, pkg_json as _, pkg_prelude as _, pkg_random as _, pkg_regex as _, pkg_test as _};

pub mod tasks {
    pub enum Wake {
        Now,
    }
    pub async fn yield_now(_: Wake) {}

    pub fn complete<T>(future: impl std::future::Future<Output = T>) -> T {
        let mut future = std::pin::pin!(future);
        let mut context = std::task::Context::from_waker(std::task::Waker::noop());
        for _ in 0..1_000_000 {
            if let std::task::Poll::Ready(value) = future.as_mut().poll(&mut context) {
                return value;
            }
        }
        panic!("a call does not finish")
    }
}

/// What a native function that can fail returns: a pointer to a counted block of a success flag and a value.
pub fn vec(list: List) -> Vec<Any> {
    use futures::StreamExt;
    tasks::complete(pen_ffi::future::stream::from_list(list).collect())
}

/// The elements of a list of texts.
pub fn strings(list: List) -> Vec<Vec<u8>> {
    vec(list).into_iter().map(|x| ByteString::try_from(x).expect("an element is a string").as_slice().to_vec()).collect()
}

pub fn s(x: &[u8]) -> ByteString {
    ByteString::from(x)
}

fn main() {
    if let [_, command, count] = &std::env::args().collect::<Vec<_>>()[..] {
        if command == "draw" {
            return random::serve(count);
        }
    }

    pbt::main(vec![
        numbers::property(),
        texts::property(),
        bytes::property(),
        hashes::property(),
        patterns::property(),
        html::property(),
        bits::property(),
        random::property(),
    ])
}

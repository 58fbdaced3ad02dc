//! The application of the package with a program that runs scripts.

extern crate ffi as pen_ffi;
#[path = "../../../ffi/src/host.rs"]
mod host;
#[path = "../script.rs"]
mod script;
#[path = "../sys.rs"]
mod sys;
#[path = "../values.rs"]
mod values;

use pkg_os as _;

mod tasks {
    pub enum Wake {
        Now,
    }
    pub async fn yield_now(_: Wake) {
        tokio::task::yield_now().await
    }
}

pub fn vec(list: ffi::List) -> Vec<ffi::Any> {
    use futures::StreamExt;
    sys::run(ffi::future::stream::from_list(list).collect())
}

pub fn list(list: ffi::List) -> Vec<Vec<u8>> {
    vec(list).into_iter().map(|x| ffi::ByteString::try_from(x).expect("string").as_slice().to_vec()).collect()
}

mod program {
    #[ffi::bindgen]
    async fn _pen_main() -> ffi::None {
        crate::script::run();
        ffi::None::new()
    }
}

include!("/repo/packages/os/ffi/application/src/main.rs");

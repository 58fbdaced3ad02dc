//! The application of the package with a program that runs scripts.

extern crate ffi as pen_ffi;
#[path = "../../../ffi/src/host.rs"]
mod host;
#[path = "../../../os/src/script.rs"]
mod script;
#[path = "../sys.rs"]
mod sys;
#[path = "../../../os/src/values.rs"]
mod values;

use pkg_os_sync as _;

mod tasks {
    pub enum Wake {
        Now,
    }
    pub async fn yield_now(_: Wake) {}
}

pub fn vec(list: ffi::List) -> Vec<ffi::Any> {
    use futures::StreamExt;
    futures::executor::block_on(ffi::future::stream::from_list(list).collect())
}

pub fn list(list: ffi::List) -> Vec<Vec<u8>> {
    vec(list).into_iter().map(|x| ffi::ByteString::try_from(x).expect("string").as_slice().to_vec()).collect()
}

mod program {
    #[no_mangle]
    unsafe extern "C" fn _pen_main(stack: *mut ffi::cps::Stack, continuation: extern "C" fn(*mut ffi::cps::Stack, ffi::None)) {
        crate::script::run();
        continuation(stack, ffi::None::new())
    }
}

include!("/repo/packages/os-sync/ffi/application/src/main.rs");

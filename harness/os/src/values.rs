//! Values that compiled programs pass to and get from the native functions of the system packages.

use ffi::{Any, Arc, ByteString, Error, Number, TypeInformation};
use std::mem::{forget, transmute};

/// An opaque handle, such as an open file.
#[repr(transparent)]
#[derive(Clone)]
pub struct Handle(pub Arc<Any>);

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, Hash, PartialEq, Eq)]
pub struct Options {
    pub append: bool,
    pub create: bool,
    pub create_new: bool,
    pub read: bool,
    pub truncate: bool,
    pub write: bool,
}

#[repr(C)]
pub struct Metadata {
    size: Number,
}

#[repr(C)]
pub struct Accepted {
    pub stream: Handle,
    pub address: ByteString,
}

#[repr(C)]
pub struct Datagram {
    pub data: ByteString,
    pub address: ByteString,
}

extern "C" fn ignore(_: u64) {}

macro_rules! boxed {
    ($name:ident, $module:ident, $into:ident, $type:ty) => {
        mod $module {
            use super::*;
            pub extern "C" fn clone(x: u64) -> u64 {
                let x: $type = unsafe { transmute(x) };
                let y = x.clone();
                forget(x);
                unsafe { transmute(y) }
            }
            pub extern "C" fn drop(x: u64) {
                std::mem::drop(unsafe { transmute::<u64, $type>(x) })
            }
        }
        static $name: TypeInformation = TypeInformation::new($module::clone, $module::drop, ignore);
        #[no_mangle]
        extern "C" fn $into(x: $type) -> Any {
            Any::new(&$name, unsafe { transmute(x) })
        }
    };
}

boxed!(FILE, file, _pen_os_file_to_any, Handle);
boxed!(METADATA, metadata, _pen_os_file_metadata_to_any, Arc<Metadata>);
boxed!(LISTENER, listener, _pen_os_tcp_listener_to_any, Handle);
boxed!(STREAM, stream, _pen_os_tcp_stream_to_any, Handle);
boxed!(ACCEPTED, accepted, _pen_os_tcp_accepted_stream_to_any, Arc<Accepted>);
boxed!(SOCKET, socket, _pen_os_udp_socket_to_any, Handle);
boxed!(DATAGRAM, datagram, _pen_os_udp_datagram_to_any, Arc<Datagram>);

pub type Outcome<T> = Result<T, String>;

/// Tells apart an error and a value in the result of a function that can fail.
fn value(x: Any) -> Outcome<Any> {
    if x.is_error() {
        let error = Error::try_from(x).expect("error");
        let source = ByteString::try_from(crate::host::source(&error)).expect("message of an error");
        Err(String::from_utf8_lossy(source.as_slice()).into_owned())
    } else {
        Ok(x)
    }
}

fn unboxed<T>(x: Any, information: &'static TypeInformation) -> T {
    assert!(std::ptr::eq(x.type_information(), information), "a result has another type");
    assert_eq!(std::mem::size_of::<T>(), 8);
    let payload = *x.payload();
    forget(x);
    unsafe { std::mem::transmute_copy(&payload) }
}

pub fn handle_of(x: Any, information: &'static TypeInformation) -> Outcome<Handle> {
    Ok(unboxed(value(x)?, information))
}

pub fn file(x: Any) -> Outcome<Handle> {
    handle_of(x, &FILE)
}
pub fn listener(x: Any) -> Outcome<Handle> {
    handle_of(x, &LISTENER)
}
pub fn stream(x: Any) -> Outcome<Handle> {
    handle_of(x, &STREAM)
}
pub fn socket(x: Any) -> Outcome<Handle> {
    handle_of(x, &SOCKET)
}
pub fn bytes(x: Any) -> Outcome<Vec<u8>> {
    Ok(ByteString::try_from(value(x)?).expect("a result is a string").as_slice().to_vec())
}
pub fn number(x: Any) -> Outcome<f64> {
    Ok(Number::try_from(value(x)?).expect("a result is a number").into())
}
pub fn none(x: Any) -> Outcome<()> {
    assert!(value(x)?.is_none(), "a result is none");
    Ok(())
}
pub fn size(x: Any) -> Outcome<f64> {
    let metadata: Arc<Metadata> = unboxed(value(x)?, &METADATA);
    Ok(metadata.size.into())
}
pub fn accepted_stream(x: Any) -> Outcome<(Handle, Vec<u8>)> {
    let accepted: Arc<Accepted> = unboxed(value(x)?, &ACCEPTED);
    Ok((accepted.stream.clone(), accepted.address.as_slice().to_vec()))
}
pub fn received_datagram(x: Any) -> Outcome<(Vec<u8>, Vec<u8>)> {
    let datagram: Arc<Datagram> = unboxed(value(x)?, &DATAGRAM);
    Ok((datagram.data.as_slice().to_vec(), datagram.address.as_slice().to_vec()))
}
pub fn list(x: Any) -> Outcome<Vec<Vec<u8>>> {
    let list = ffi::List::try_from(value(x)?).expect("a result is a list");
    Ok(crate::vec(list).into_iter().map(|x| ByteString::try_from(x).expect("an element is a string").as_slice().to_vec()).collect())
}

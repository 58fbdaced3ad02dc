//! Values that compiled programs pass to and get from the native functions of the HTTP package.

use ffi::{Any, Arc, ByteString, Closure, Error, List, None, Number, TypeInformation};
use std::future::Future;
use std::mem::{forget, transmute};
use std::pin::Pin;

pub type Map = Vec<(Vec<u8>, Vec<u8>)>;

#[repr(transparent)]
#[derive(Clone)]
pub struct HeaderMap(Arc<Any>);

#[repr(C)]
pub struct ResponseInner {
    status: Number,
    headers: HeaderMap,
    body: ByteString,
}

#[repr(transparent)]
#[derive(Clone)]
pub struct Response(Arc<ResponseInner>);

extern "C" fn ignore(_: u64) {}

macro_rules! boxed {
    ($name:ident, $module:ident, $type:ty) => {
        mod $module {
            use super::*;
            pub extern "C" fn clone(x: u64) -> u64 {
                let x: $type = unsafe { transmute(x) };
                let y = x.clone();
                forget(x);
                unsafe { transmute(y) }
            }
            pub extern "C" fn drop(x: u64) {
                std::mem::drop(unsafe { transmute::<u64, $type>(x) })
            }
        }
        static $name: TypeInformation = TypeInformation::new($module::clone, $module::drop, ignore);
    };
}

boxed!(MAP, map, std::sync::Arc<Map>);
boxed!(RESPONSE, response, Response);

impl HeaderMap {
    pub fn new(map: Map) -> Self {
        Self(Arc::new(Any::new(&MAP, unsafe { transmute::<std::sync::Arc<Map>, u64>(std::sync::Arc::new(map)) })))
    }
    pub fn entries(&self) -> &Map {
        assert!(std::ptr::eq(self.0.type_information(), &MAP), "a map of headers has another type");
        let map: &std::sync::Arc<Map> = unsafe { transmute(self.0.payload()) };
        map
    }
}

#[no_mangle]
extern "C" fn _pen_http_header_map_create() -> HeaderMap {
    HeaderMap::new(vec![])
}
#[no_mangle]
extern "C" fn _pen_http_header_map_get(map: HeaderMap, key: ByteString) -> ByteString {
    map.entries().iter().find(|(x, _)| x == key.as_slice()).map_or(&[][..], |(_, x)| x).into()
}
#[no_mangle]
extern "C" fn _pen_http_header_map_set(map: HeaderMap, key: ByteString, value: ByteString) -> HeaderMap {
    let mut entries = map.entries().clone();
    entries.retain(|(x, _)| x != key.as_slice());
    entries.push((key.as_slice().to_vec(), value.as_slice().to_vec()));
    HeaderMap::new(entries)
}
#[no_mangle]
extern "C" fn _pen_http_header_map_keys(map: HeaderMap) -> List {
    map.entries().iter().map(|(x, _)| Any::from(ByteString::from(x.as_slice()))).collect::<Vec<_>>().into()
}
#[no_mangle]
extern "C" fn _pen_http_response_to_any(x: Response) -> Any {
    Any::new(&RESPONSE, unsafe { transmute(x) })
}

pub type Outcome<T> = Result<T, String>;

fn value(x: Any) -> Outcome<Any> {
    if x.is_error() {
        let error = Error::try_from(x).expect("error");
        let source = ByteString::try_from(crate::host::source(&error)).expect("message of an error");
        Err(String::from_utf8_lossy(source.as_slice()).into_owned())
    } else {
        Ok(x)
    }
}

#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Request {
    pub method: Vec<u8>,
    pub uri: Vec<u8>,
    pub headers: Map,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reply {
    pub status: f64,
    pub headers: Map,
    pub body: Vec<u8>,
}

ffi::import!(_pen_http_client_send, async fn(method: ByteString, uri: ByteString, headers: HeaderMap, body: ByteString) -> Any);
ffi::import!(_pen_http_server_serve, async fn(address: ByteString, callback: Closure) -> Any);

pub async fn send(request: &Request) -> Outcome<Reply> {
    let x = _pen_http_client_send(
        request.method.as_slice().into(),
        request.uri.as_slice().into(),
        HeaderMap::new(request.headers.clone()),
        request.body.as_slice().into(),
    )
    .await;
    let x = value(x)?;
    assert!(std::ptr::eq(x.type_information(), &RESPONSE), "a result has another type");
    let response: Response = unsafe { transmute(*x.payload()) };
    forget(x);
    Ok(Reply { status: response.0.status.into(), headers: response.0.headers.entries().clone(), body: response.0.body.as_slice().to_vec() })
}

pub type Handler = dyn Fn(Request) -> Pin<Box<dyn Future<Output = Reply> + Send>> + Send + Sync;

#[ffi::bindgen]
async fn _web_handle(closure: Closure, method: ByteString, uri: ByteString, headers: HeaderMap, body: ByteString) -> Response {
    let handler: &std::sync::Arc<Handler> = unsafe { &*(closure.payload() as *const std::sync::Arc<Handler>) };
    let request = Request {
        method: method.as_slice().to_vec(),
        uri: uri.as_slice().to_vec(),
        headers: headers.entries().clone(),
        body: body.as_slice().to_vec(),
    };
    let reply = handler(request).await;
    Response(Arc::new(ResponseInner { status: reply.status.into(), headers: HeaderMap::new(reply.headers), body: reply.body.into() }))
}

/// Serves until it is stopped or fails.
pub async fn serve(address: &[u8], handler: std::sync::Arc<Handler>) -> Outcome<()> {
    let closure = Closure::new(_web_handle as *const u8, handler).into_opaque();
    unsafe { transmute::<_, Arc<u8>>(closure.clone()) }.synchronize();
    let x = value(_pen_http_server_serve(address.into(), closure).await)?;
    assert!(x.is_none(), "a result is none");
    Ok(())
}

#[allow(dead_code)]
fn unused(_: None) {}

//! The functions that compiled programs give to the native interface, written from their documented meaning.

use pen_ffi::cps::{AsyncStack, ContinuationFunction};
use pen_ffi::future::{from_closure, to_closure};
use pen_ffi::{Any, Arc, Boolean, ByteString, Closure, Error, List, None, Number, TypeInformation};
use std::mem::{forget, transmute};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

macro_rules! boxed {
    ($info:ident, $clone:ident, $drop:ident, $type:ty, $synchronize:ident) => {
        extern "C" fn $clone(x: u64) -> u64 {
            let x: $type = unsafe { transmute(x) };
            let y = x.clone();
            forget(x);
            unsafe { transmute(y) }
        }
        extern "C" fn $drop(x: u64) {
            drop(unsafe { transmute::<u64, $type>(x) })
        }
        static $info: TypeInformation = TypeInformation::new($clone, $drop, $synchronize);
    };
}

extern "C" fn ignore(_: u64) {}
extern "C" fn same(x: u64) -> u64 {
    x
}

boxed!(STRING, clone_string, drop_string, ByteString, synchronize_block);
boxed!(LIST, clone_list, drop_list, List, synchronize_list);
boxed!(ERROR, clone_error, drop_error, Error, synchronize_error);

extern "C" fn synchronize_block(x: u64) {
    let block: std::mem::ManuallyDrop<Arc<u8>> = unsafe { transmute(x) };
    Arc::synchronize((*block).clone());
}
extern "C" fn synchronize_error(x: u64) {
    let error: std::mem::ManuallyDrop<Error> = unsafe { transmute(x) };
    synchronize_any(&source(&error));
    synchronize_block(x);
}
extern "C" fn synchronize_list(x: u64) {
    let list: std::mem::ManuallyDrop<List> = unsafe { transmute(x) };
    let closure: &Arc<Closure> = unsafe { transmute(&*list) };
    match unsafe { &*(closure.payload() as *const Node) } {
        Node::Empty => {}
        Node::Cons(x, xs) => {
            synchronize_any(x);
            synchronize_list(unsafe { std::mem::transmute_copy(xs) })
        }
        Node::Lazy(closure) => synchronize_block(unsafe { std::mem::transmute_copy(closure) }),
    }
    synchronize_block(unsafe { std::mem::transmute_copy(&**closure) });
    synchronize_block(x);
}

/// Marks a value as shared between threads.
pub fn synchronize_any(x: &Any) {
    (x.type_information().synchronize_fn())(*x.payload())
}

extern "C" fn same_boolean(x: u64) -> u64 {
    x & 1
}
static BOOLEAN: TypeInformation = TypeInformation::new(same_boolean, ignore, ignore);
static NUMBER: TypeInformation = TypeInformation::new(same, ignore, ignore);
static NONE: TypeInformation = TypeInformation::new(same, ignore, ignore);

fn is(any: Any, information: &'static TypeInformation) -> Boolean {
    std::ptr::eq(any.type_information(), information).into()
}

macro_rules! host {
    ($is:ident, $info:ident) => {
        #[no_mangle]
        extern "C" fn $is(any: Any) -> Boolean {
            is(any, &$info)
        }
    };
}

host!(pen_ffi_any_is_boolean, BOOLEAN);
host!(pen_ffi_any_is_error, ERROR);
host!(pen_ffi_any_is_none, NONE);
host!(pen_ffi_any_is_list, LIST);
host!(pen_ffi_any_is_number, NUMBER);
host!(pen_ffi_any_is_string, STRING);

fn payload(any: Any, information: &'static TypeInformation) -> u64 {
    if !std::ptr::eq(any.type_information(), information) {
        panic!("value converted to a type it does not have")
    }
    let payload = *any.payload();
    forget(any);
    payload
}

#[no_mangle]
extern "C" fn pen_ffi_any_to_boolean(any: Any) -> Boolean {
    (payload(any, &BOOLEAN) != 0).into()
}
#[no_mangle]
extern "C" fn pen_ffi_any_to_number(any: Any) -> Number {
    f64::from_bits(payload(any, &NUMBER)).into()
}
#[no_mangle]
extern "C" fn pen_ffi_any_to_string(any: Any) -> ByteString {
    unsafe { transmute(payload(any, &STRING)) }
}
#[no_mangle]
extern "C" fn pen_ffi_any_to_list(any: Any) -> List {
    unsafe { transmute(payload(any, &LIST)) }
}
#[no_mangle]
extern "C" fn pen_ffi_any_to_error(any: Any) -> Error {
    unsafe { transmute(payload(any, &ERROR)) }
}

#[no_mangle]
extern "C" fn pen_ffi_boolean_to_any(x: Boolean) -> Any {
    Any::new(&BOOLEAN, bool::from(x) as u64)
}
#[no_mangle]
extern "C" fn pen_ffi_number_to_any(x: Number) -> Any {
    Any::new(&NUMBER, f64::from(x).to_bits())
}
#[no_mangle]
extern "C" fn pen_ffi_none_to_any(_: None) -> Any {
    Any::new(&NONE, 0)
}
#[no_mangle]
extern "C" fn pen_ffi_string_to_any(x: ByteString) -> Any {
    Any::new(&STRING, unsafe { transmute(x) })
}
#[no_mangle]
extern "C" fn pen_ffi_list_to_any(x: List) -> Any {
    Any::new(&LIST, unsafe { transmute(x) })
}
#[no_mangle]
extern "C" fn pen_ffi_error_to_any(x: Error) -> Any {
    Any::new(&ERROR, unsafe { transmute(x) })
}

/// The source of an error.
pub fn source(error: &Error) -> Any {
    let source: &Arc<Any> = unsafe { transmute(error) };
    (**source).clone()
}

enum Node {
    Empty,
    Cons(Any, List),
    Lazy(Closure),
}

/// If new lists are marked as shared between threads.
pub static SHARED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn list(node: Node) -> List {
    // A list is a counted block that holds the closure of its node.
    let closure = Closure::new(std::ptr::null(), node).into_opaque();
    if SHARED.load(SeqCst) {
        unsafe { transmute::<_, Arc<u8>>(closure.clone()) }.synchronize();
    }
    let list = Arc::new(closure);
    if SHARED.load(SeqCst) {
        list.clone().synchronize();
    }
    unsafe { transmute(list) }
}

#[no_mangle]
extern "C" fn pen_ffi_list_create() -> List {
    list(Node::Empty)
}
#[no_mangle]
extern "C" fn pen_ffi_list_prepend(x: Any, xs: List) -> List {
    list(Node::Cons(x, xs))
}
#[no_mangle]
extern "C" fn pen_ffi_list_lazy(xs: Closure) -> List {
    list(Node::Lazy(xs))
}

#[repr(C)]
struct FirstRest {
    ok: Boolean,
    first: Closure,
    rest: List,
}

/// How many nodes have been looked at and how many first elements have been computed.
pub static NODES: AtomicUsize = AtomicUsize::new(0);
pub static FIRSTS: AtomicUsize = AtomicUsize::new(0);
/// How often the traversal of nodes and elements suspends: the low two and the next two bits.
pub static SUSPENSIONS: AtomicUsize = AtomicUsize::new(0);

#[pen_ffi::bindgen(crate = "pen_ffi")]
async fn pen_ffi_list_first_rest(list: List) -> Arc<FirstRest> {
    NODES.fetch_add(1, SeqCst);
    let mut list = list;
    loop {
        for _ in 0..SUSPENSIONS.load(SeqCst) & 3 {
            crate::tasks::yield_now(crate::tasks::Wake::Now).await;
        }
        let node = {
            let inner: &Arc<Closure> = unsafe { transmute(&list) };
            unsafe { &*(inner.payload() as *const Node) }
        };
        let next = match node {
            Node::Empty => {
                return Arc::new(FirstRest {
                    ok: false.into(),
                    first: to_closure::<Any, _>(async { panic!("first element of an empty list") }),
                    rest: list.clone(),
                })
            }
            Node::Cons(x, xs) => {
                let x = x.clone();
                return Arc::new(FirstRest {
                    ok: true.into(),
                    first: to_closure(async move {
                        FIRSTS.fetch_add(1, SeqCst);
                        for _ in 0..SUSPENSIONS.load(SeqCst) >> 2 & 3 {
                            crate::tasks::yield_now(crate::tasks::Wake::Now).await;
                        }
                        x
                    }),
                    rest: xs.clone(),
                });
            }
            Node::Lazy(closure) => closure.clone(),
        };
        list = from_closure::<(), List>(next).await;
    }
}

#[allow(dead_code)]
fn unused(_: &mut AsyncStack, _: ContinuationFunction<()>) {}

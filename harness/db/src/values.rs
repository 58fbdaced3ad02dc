//! Values that compiled programs pass to and get from the native functions of the SQL package.

use ffi::{Any, Arc, Boolean, ByteString, Error, List, Number, TypeInformation};
use futures::StreamExt;
use std::mem::{forget, transmute};

#[repr(C)]
pub struct PoolOptions {
    pub min_connections: Number,
    pub max_connections: Number,
    pub connect_timeout: Number,
}

#[repr(transparent)]
#[derive(Clone)]
pub struct Pool(Arc<Any>);

extern "C" fn ignore(_: u64) {}
extern "C" fn clone(x: u64) -> u64 {
    let x: Pool = unsafe { transmute(x) };
    let y = x.clone();
    forget(x);
    unsafe { transmute(y) }
}
extern "C" fn release(x: u64) {
    drop(unsafe { transmute::<u64, Pool>(x) })
}
static POOL: TypeInformation = TypeInformation::new(clone, release, ignore);

#[no_mangle]
extern "C" fn _pen_sql_pool_to_any(x: Pool) -> Any {
    Any::new(&POOL, unsafe { transmute(x) })
}

pub type Outcome<T> = Result<T, String>;

fn value(x: Any) -> Outcome<Any> {
    if x.is_error() {
        let error = Error::try_from(x).expect("error");
        let source = ByteString::try_from(crate::host::source(&error)).expect("message of an error");
        Err(String::from_utf8_lossy(source.as_slice()).into_owned())
    } else {
        Ok(x)
    }
}

#[derive(Clone, Debug)]
pub enum Value {
    None,
    Boolean(bool),
    Number(f64),
    Text(String),
    /// A string that is no text.
    Bytes(Vec<u8>),
    /// A value that is none of a database.
    Other,
}

impl Value {
    pub fn key(&self) -> (u8, u64, Vec<u8>) {
        match self {
            Self::None => (0, 0, vec![]),
            Self::Boolean(x) => (1, *x as u64, vec![]),
            Self::Number(x) => (2, x.to_bits(), vec![]),
            Self::Text(x) => (3, 0, x.as_bytes().to_vec()),
            Self::Bytes(x) => (4, 0, x.clone()),
            Self::Other => (5, 0, vec![]),
        }
    }
}

impl PartialEq for Value {
    fn eq(&self, other: &Self) -> bool {
        self.key() == other.key()
    }
}

impl From<&Value> for Any {
    fn from(x: &Value) -> Any {
        match x {
            Value::None => ffi::None::default().into(),
            Value::Boolean(x) => Boolean::from(*x).into(),
            Value::Number(x) => Number::from(*x).into(),
            Value::Text(x) => ByteString::from(x.as_str()).into(),
            Value::Bytes(x) => ByteString::from(x.as_slice()).into(),
            Value::Other => List::new().into(),
        }
    }
}

impl From<Any> for Value {
    fn from(x: Any) -> Value {
        if x.is_none() {
            Value::None
        } else if x.is_boolean() {
            Value::Boolean(Boolean::try_from(x).unwrap().into())
        } else if x.is_number() {
            Value::Number(Number::try_from(x).unwrap().into())
        } else if x.is_string() {
            let x = ByteString::try_from(x).unwrap().as_slice().to_vec();
            match String::from_utf8(x) {
                Ok(x) => Value::Text(x),
                Err(x) => Value::Bytes(x.into_bytes()),
            }
        } else {
            Value::Other
        }
    }
}

pub type Rows = Vec<Vec<Value>>;

ffi::import!(_pen_sql_pool_create, async fn(uri: ByteString, options: Arc<PoolOptions>) -> Any);
ffi::import!(_pen_sql_pool_query, async fn(pool: Pool, query: ByteString, arguments: List) -> Any);
ffi::import!(_pen_sql_pool_execute, async fn(pool: Pool, query: ByteString, arguments: List) -> Any);

pub async fn create(uri: &[u8], min: f64, max: f64, timeout: f64) -> Outcome<Pool> {
    let options = PoolOptions { min_connections: min.into(), max_connections: max.into(), connect_timeout: timeout.into() };
    let x = value(_pen_sql_pool_create(uri.into(), Arc::new(options)).await)?;
    assert!(std::ptr::eq(x.type_information(), &POOL), "a result has another type");
    let payload = *x.payload();
    forget(x);
    Ok(unsafe { transmute(payload) })
}

fn arguments(values: &[Value]) -> List {
    values.iter().map(Any::from).collect::<Vec<_>>().into()
}

async fn vec(list: List) -> Vec<Any> {
    ffi::future::stream::from_list(list).collect().await
}

pub async fn query(pool: &Pool, query: &[u8], values: &[Value]) -> Outcome<Rows> {
    let x = value(_pen_sql_pool_query(pool.clone(), query.into(), arguments(values)).await)?;
    let mut rows = vec![];
    for row in vec(List::try_from(x).expect("a result is a list")).await {
        let row = List::try_from(row).expect("a row is a list");
        rows.push(vec(row).await.into_iter().map(Value::from).collect());
    }
    Ok(rows)
}

pub async fn execute(pool: &Pool, query: &[u8], values: &[Value]) -> Outcome<f64> {
    let x = value(_pen_sql_pool_execute(pool.clone(), query.into(), arguments(values)).await)?;
    Ok(Number::try_from(x).expect("a result is a number").into())
}

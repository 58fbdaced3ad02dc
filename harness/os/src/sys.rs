//! The functions of the asynchronous system package, called as a compiled program calls them, on a runtime.

use crate::values::{self, Handle, Options, Outcome};
use ffi::{Any, Arc, ByteString, Number};
use std::future::Future;
use std::sync::LazyLock;
use tokio::runtime::{Builder, Runtime};

pub static RUNTIME: LazyLock<Runtime> = LazyLock::new(|| Builder::new_current_thread().enable_all().build().unwrap());

pub fn run<T>(future: impl Future<Output = T>) -> T {
    match tokio::runtime::Handle::try_current() {
        Ok(handle) => tokio::task::block_in_place(|| handle.block_on(future)),
        Err(_) => RUNTIME.block_on(future),
    }
}

pub mod raw {
    use super::*;
    ffi::import!(_pen_os_open_file, async fn(path: ByteString, options: Arc<Options>) -> Any);
    ffi::import!(_pen_os_read_file, async fn(file: Handle) -> Any);
    ffi::import!(_pen_os_read_limit_file, async fn(file: Handle, limit: Number) -> Any);
    ffi::import!(_pen_os_write_file, async fn(file: Handle, bytes: ByteString) -> Any);
    ffi::import!(_pen_os_copy_file, async fn(source: ByteString, destination: ByteString) -> Any);
    ffi::import!(_pen_os_move_file, async fn(source: ByteString, destination: ByteString) -> Any);
    ffi::import!(_pen_os_remove_file, async fn(path: ByteString) -> Any);
    ffi::import!(_pen_os_read_metadata, async fn(path: ByteString) -> Any);
    ffi::import!(_pen_os_read_directory, async fn(path: ByteString) -> Any);
    ffi::import!(_pen_os_create_directory, async fn(path: ByteString) -> Any);
    ffi::import!(_pen_os_remove_directory, async fn(path: ByteString) -> Any);
    ffi::import!(_pen_os_tcp_bind, async fn(address: ByteString) -> Any);
    ffi::import!(_pen_os_tcp_connect, async fn(address: ByteString) -> Any);
    ffi::import!(_pen_os_tcp_accept, async fn(listener: Handle) -> Any);
    ffi::import!(_pen_os_tcp_receive, async fn(socket: Handle, limit: Number) -> Any);
    ffi::import!(_pen_os_tcp_send, async fn(socket: Handle, data: ByteString) -> Any);
    ffi::import!(_pen_os_udp_bind, async fn(address: ByteString) -> Any);
    ffi::import!(_pen_os_udp_connect, async fn(socket: Handle, address: ByteString) -> Any);
    ffi::import!(_pen_os_udp_receive, async fn(socket: Handle) -> Any);
    ffi::import!(_pen_os_udp_receive_from, async fn(socket: Handle) -> Any);
    ffi::import!(_pen_os_udp_send, async fn(socket: Handle, data: ByteString) -> Any);
    ffi::import!(_pen_os_udp_send_to, async fn(socket: Handle, data: ByteString, address: ByteString) -> Any);
    ffi::import!(_pen_os_read_stdin, async fn() -> Any);
    ffi::import!(_pen_os_read_limit_stdin, async fn(limit: Number) -> Any);
    ffi::import!(_pen_os_write_stdout, async fn(bytes: ByteString) -> Any);
    ffi::import!(_pen_os_write_stderr, async fn(bytes: ByteString) -> Any);
    ffi::import!(_pen_os_exit, async fn(code: Number) -> ffi::None);
    ffi::import!(_pen_os_run_command, async fn(command: ByteString, arguments: ffi::List) -> Any);
    ffi::import!(_pen_os_sleep, async fn(milliseconds: Number) -> ffi::None);
    extern "C" {
        pub fn _pen_os_get_time() -> Number;
        pub fn _pen_os_get_arguments() -> ffi::List;
        pub fn _pen_os_get_environment_variable(name: ByteString) -> Any;
    }

    macro_rules! call {
        ($name:ident, $inner:ident, ($($x:ident: $t:ty),*)) => {
            pub async fn $name($($x: $t),*) -> Any { $inner($($x),*).await }
        };
    }
    call!(read_limit, _pen_os_read_limit_file, (file: Handle, limit: Number));
    call!(write_output, _pen_os_write_stdout, (bytes: ByteString));
    call!(write, _pen_os_write_file, (file: Handle, bytes: ByteString));

    macro_rules! blocking {
        ($name:ident, $inner:ident, ($($x:ident: $t:ty),*), $result:ty, $convert:expr) => {
            pub fn $name($($x: $t),*) -> $result { let x = run($inner($($x.into_ffi()),*)); $convert(x) }
        };
    }
    blocking!(open, _pen_os_open_file, (path: &[u8], options: Options), Outcome<Handle>, values::file);
    blocking!(read, _pen_os_read_file, (file: &Handle), Outcome<Vec<u8>>, values::bytes);
    blocking!(read_part, _pen_os_read_limit_file, (file: &Handle, limit: f64), Outcome<Vec<u8>>, values::bytes);
    blocking!(write_file, _pen_os_write_file, (file: &Handle, data: &[u8]), Outcome<f64>, values::number);
    blocking!(copy, _pen_os_copy_file, (source: &[u8], destination: &[u8]), Outcome<()>, values::none);
    blocking!(rename, _pen_os_move_file, (source: &[u8], destination: &[u8]), Outcome<()>, values::none);
    blocking!(remove, _pen_os_remove_file, (path: &[u8]), Outcome<()>, values::none);
    blocking!(size, _pen_os_read_metadata, (path: &[u8]), Outcome<f64>, values::size);
    blocking!(entries, _pen_os_read_directory, (path: &[u8]), Outcome<Vec<Vec<u8>>>, values::list);
    blocking!(create_directory, _pen_os_create_directory, (path: &[u8]), Outcome<()>, values::none);
    blocking!(remove_directory, _pen_os_remove_directory, (path: &[u8]), Outcome<()>, values::none);
    blocking!(tcp_bind, _pen_os_tcp_bind, (address: &[u8]), Outcome<Handle>, values::listener);
    blocking!(tcp_connect, _pen_os_tcp_connect, (address: &[u8]), Outcome<Handle>, values::stream);
    blocking!(tcp_accept, _pen_os_tcp_accept, (listener: &Handle), Outcome<(Handle, Vec<u8>)>, values::accepted_stream);
    blocking!(tcp_receive, _pen_os_tcp_receive, (socket: &Handle, limit: f64), Outcome<Vec<u8>>, values::bytes);
    blocking!(tcp_send, _pen_os_tcp_send, (socket: &Handle, data: &[u8]), Outcome<f64>, values::number);
    blocking!(udp_bind, _pen_os_udp_bind, (address: &[u8]), Outcome<Handle>, values::socket);
    blocking!(udp_connect, _pen_os_udp_connect, (socket: &Handle, address: &[u8]), Outcome<()>, values::none);
    blocking!(udp_receive, _pen_os_udp_receive, (socket: &Handle), Outcome<Vec<u8>>, values::bytes);
    blocking!(udp_receive_from, _pen_os_udp_receive_from, (socket: &Handle), Outcome<(Vec<u8>, Vec<u8>)>, values::received_datagram);
    blocking!(udp_send, _pen_os_udp_send, (socket: &Handle, data: &[u8]), Outcome<f64>, values::number);
    blocking!(udp_send_to, _pen_os_udp_send_to, (socket: &Handle, data: &[u8], address: &[u8]), Outcome<f64>, values::number);
    blocking!(read_stdin, _pen_os_read_stdin, (), Outcome<Vec<u8>>, values::bytes);
    blocking!(read_part_stdin, _pen_os_read_limit_stdin, (limit: f64), Outcome<Vec<u8>>, values::bytes);
    blocking!(write_stdout, _pen_os_write_stdout, (data: &[u8]), Outcome<f64>, values::number);
    blocking!(write_stderr, _pen_os_write_stderr, (data: &[u8]), Outcome<f64>, values::number);
    pub fn exit(code: f64) {
        run(_pen_os_exit(code.into()));
    }
    pub fn run_command(command: &[u8], arguments: ffi::List) -> Outcome<()> {
        values::none(run(_pen_os_run_command(command.into_ffi(), arguments)))
    }
    pub fn sleep(milliseconds: f64) {
        run(_pen_os_sleep(milliseconds.into()));
    }

    /// Receives while something else happens meanwhile.
    pub fn tcp_receive_during(socket: &Handle, limit: f64, meanwhile: impl FnOnce() + Send) -> Outcome<Vec<u8>> {
        let (x, ()) = run(futures::future::join(_pen_os_tcp_receive(socket.clone(), limit.into()), async {
            for _ in 0..3 {
                tokio::task::yield_now().await;
            }
            meanwhile()
        }));
        values::bytes(x)
    }
}
pub use raw::*;

/// Conversions of arguments.
pub trait Argument {
    type Target;
    fn into_ffi(self) -> Self::Target;
}
impl Argument for &[u8] {
    type Target = ByteString;
    fn into_ffi(self) -> ByteString {
        self.into()
    }
}
impl Argument for f64 {
    type Target = Number;
    fn into_ffi(self) -> Number {
        self.into()
    }
}
impl Argument for &Handle {
    type Target = Handle;
    fn into_ffi(self) -> Handle {
        self.clone()
    }
}
impl Argument for Options {
    type Target = Arc<Options>;
    fn into_ffi(self) -> Arc<Options> {
        Arc::new(self)
    }
}

/// Writes through one handle at the same time.
pub fn writes(file: &Handle, data: &[Vec<u8>]) -> Vec<Outcome<f64>> {
    run(futures::future::join_all(data.iter().map(|x| write(file.clone(), x.as_slice().into())))).into_iter().map(values::number).collect()
}

/// Reads through one handle at the same time.
pub fn reads(file: &Handle, limits: &[usize]) -> Vec<Outcome<Vec<u8>>> {
    run(futures::future::join_all(limits.iter().map(|x| read_limit(file.clone(), (*x as f64).into())))).into_iter().map(values::bytes).collect()
}

/// Writes to the standard output at the same time.
#[allow(dead_code)]
pub fn write_stdouts(data: &[Vec<u8>]) -> String {
    let results = run(futures::future::join_all(data.iter().map(|x| write_output(x.as_slice().into()))));
    results.into_iter().map(|x| values::number(x).map_or("error".into(), |x| x.to_string())).collect::<Vec<_>>().join(" ")
}

/// Starts the runtime, which opens files of its own.
pub fn start() {
    LazyLock::force(&RUNTIME);
}

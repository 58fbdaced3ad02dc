//! The functions of the synchronous system package, called as a compiled program calls them.

use crate::values::{self, Handle, Options, Outcome};
use ffi::{Any, Arc, ByteString, Number};

pub mod raw {
    use super::*;
    extern "C" {
        pub fn _pen_os_open_file(path: ByteString, options: Arc<Options>) -> Any;
        pub fn _pen_os_read_file(file: Handle) -> Any;
        pub fn _pen_os_read_limit_file(file: Handle, limit: Number) -> Any;
        pub fn _pen_os_write_file(file: Handle, bytes: ByteString) -> Any;
        pub fn _pen_os_copy_file(source: ByteString, destination: ByteString) -> Any;
        pub fn _pen_os_move_file(source: ByteString, destination: ByteString) -> Any;
        pub fn _pen_os_remove_file(path: ByteString) -> Any;
        pub fn _pen_os_read_metadata(path: ByteString) -> Any;
        pub fn _pen_os_read_directory(path: ByteString) -> Any;
        pub fn _pen_os_create_directory(path: ByteString) -> Any;
        pub fn _pen_os_remove_directory(path: ByteString) -> Any;
        pub fn _pen_os_tcp_bind(address: ByteString) -> Any;
        pub fn _pen_os_tcp_connect(address: ByteString) -> Any;
        pub fn _pen_os_tcp_accept(listener: Handle) -> Any;
        pub fn _pen_os_tcp_receive(socket: Handle, limit: Number) -> Any;
        pub fn _pen_os_tcp_send(socket: Handle, data: ByteString) -> Any;
        pub fn _pen_os_udp_bind(address: ByteString) -> Any;
        pub fn _pen_os_udp_connect(socket: Handle, address: ByteString) -> Any;
        pub fn _pen_os_udp_receive(socket: Handle) -> Any;
        pub fn _pen_os_udp_receive_from(socket: Handle) -> Any;
        pub fn _pen_os_udp_send(socket: Handle, data: ByteString) -> Any;
        pub fn _pen_os_udp_send_to(socket: Handle, data: ByteString, address: ByteString) -> Any;
        pub fn _pen_os_read_stdin() -> Any;
        pub fn _pen_os_read_limit_stdin(limit: Number) -> Any;
        pub fn _pen_os_write_stdout(bytes: ByteString) -> Any;
        pub fn _pen_os_write_stderr(bytes: ByteString) -> Any;
        pub fn _pen_os_exit(code: Number) -> ffi::None;
        pub fn _pen_os_sleep(milliseconds: Number) -> ffi::None;
        pub fn _pen_os_get_time() -> Number;
        pub fn _pen_os_get_arguments() -> ffi::List;
        pub fn _pen_os_get_environment_variable(name: ByteString) -> Any;
    }

    macro_rules! blocking {
        ($name:ident, $inner:ident, ($($x:ident: $t:ty),*), $result:ty, $convert:expr) => {
            pub fn $name($($x: $t),*) -> $result { let x = unsafe { $inner($($x.into_ffi()),*) }; $convert(x) }
        };
    }
    blocking!(open, _pen_os_open_file, (path: &[u8], options: Options), Outcome<Handle>, values::file);
    blocking!(read, _pen_os_read_file, (file: &Handle), Outcome<Vec<u8>>, values::bytes);
    blocking!(read_part, _pen_os_read_limit_file, (file: &Handle, limit: f64), Outcome<Vec<u8>>, values::bytes);
    blocking!(write_file, _pen_os_write_file, (file: &Handle, data: &[u8]), Outcome<f64>, values::number);
    blocking!(copy, _pen_os_copy_file, (source: &[u8], destination: &[u8]), Outcome<()>, values::none);
    blocking!(rename, _pen_os_move_file, (source: &[u8], destination: &[u8]), Outcome<()>, values::none);
    blocking!(remove, _pen_os_remove_file, (path: &[u8]), Outcome<()>, values::none);
    blocking!(size, _pen_os_read_metadata, (path: &[u8]), Outcome<f64>, values::size);
    blocking!(entries, _pen_os_read_directory, (path: &[u8]), Outcome<Vec<Vec<u8>>>, values::list);
    blocking!(create_directory, _pen_os_create_directory, (path: &[u8]), Outcome<()>, values::none);
    blocking!(remove_directory, _pen_os_remove_directory, (path: &[u8]), Outcome<()>, values::none);
    blocking!(tcp_bind, _pen_os_tcp_bind, (address: &[u8]), Outcome<Handle>, values::listener);
    blocking!(tcp_connect, _pen_os_tcp_connect, (address: &[u8]), Outcome<Handle>, values::stream);
    blocking!(tcp_accept, _pen_os_tcp_accept, (listener: &Handle), Outcome<(Handle, Vec<u8>)>, values::accepted_stream);
    blocking!(tcp_receive, _pen_os_tcp_receive, (socket: &Handle, limit: f64), Outcome<Vec<u8>>, values::bytes);
    blocking!(tcp_send, _pen_os_tcp_send, (socket: &Handle, data: &[u8]), Outcome<f64>, values::number);
    blocking!(udp_bind, _pen_os_udp_bind, (address: &[u8]), Outcome<Handle>, values::socket);
    blocking!(udp_connect, _pen_os_udp_connect, (socket: &Handle, address: &[u8]), Outcome<()>, values::none);
    blocking!(udp_receive, _pen_os_udp_receive, (socket: &Handle), Outcome<Vec<u8>>, values::bytes);
    blocking!(udp_receive_from, _pen_os_udp_receive_from, (socket: &Handle), Outcome<(Vec<u8>, Vec<u8>)>, values::received_datagram);
    blocking!(udp_send, _pen_os_udp_send, (socket: &Handle, data: &[u8]), Outcome<f64>, values::number);
    blocking!(udp_send_to, _pen_os_udp_send_to, (socket: &Handle, data: &[u8], address: &[u8]), Outcome<f64>, values::number);
    blocking!(read_stdin, _pen_os_read_stdin, (), Outcome<Vec<u8>>, values::bytes);
    blocking!(read_part_stdin, _pen_os_read_limit_stdin, (limit: f64), Outcome<Vec<u8>>, values::bytes);
    blocking!(write_stdout, _pen_os_write_stdout, (data: &[u8]), Outcome<f64>, values::number);
    blocking!(write_stderr, _pen_os_write_stderr, (data: &[u8]), Outcome<f64>, values::number);
    pub fn exit(code: f64) {
        unsafe { _pen_os_exit(code.into()) };
    }
    pub fn sleep(milliseconds: f64) {
        unsafe { _pen_os_sleep(milliseconds.into()) };
    }

    /// Receives while something else happens meanwhile.
    pub fn tcp_receive_during(socket: &Handle, limit: f64, meanwhile: impl FnOnce() + Send) -> Outcome<Vec<u8>> {
        std::thread::scope(|scope| {
            scope.spawn(meanwhile);
            values::bytes(unsafe { _pen_os_tcp_receive(socket.clone(), limit.into()) })
        })
    }
}
pub use raw::*;

/// Conversions of arguments.
pub trait Argument {
    type Target;
    fn into_ffi(self) -> Self::Target;
}
impl Argument for &[u8] {
    type Target = ByteString;
    fn into_ffi(self) -> ByteString {
        self.into()
    }
}
impl Argument for f64 {
    type Target = Number;
    fn into_ffi(self) -> Number {
        self.into()
    }
}
impl Argument for &Handle {
    type Target = Handle;
    fn into_ffi(self) -> Handle {
        self.clone()
    }
}
impl Argument for Options {
    type Target = Arc<Options>;
    fn into_ffi(self) -> Arc<Options> {
        Arc::new(self)
    }
}

/// A handle that several threads use.
fn share(file: &Handle) {
    file.0.clone().synchronize()
}

/// Writes through one handle at the same time.
pub fn writes(file: &Handle, data: &[Vec<u8>]) -> Vec<Outcome<f64>> {
    share(file);
    together(data, |data| write_file(file, data))
}

/// Reads through one handle at the same time.
pub fn reads(file: &Handle, limits: &[usize]) -> Vec<Outcome<Vec<u8>>> {
    share(file);
    together(limits, |&limit| read_part(file, limit as f64))
}

#[allow(dead_code)]
pub fn write_stdouts(data: &[Vec<u8>]) -> String {
    let results = together(data, |data| write_stdout(data));
    results.into_iter().map(|x| x.map_or("error".into(), |x| x.to_string())).collect::<Vec<_>>().join(" ")
}

#[allow(dead_code)]
pub fn run_command(_: &[u8], _: ffi::List) -> Outcome<()> {
    Err("there is no such function".into())
}

struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

fn together<T, U: Send>(all: &[T], f: impl Fn(&T) -> U) -> Vec<U> {
    let (all, f) = (Shared(all), Shared(f));
    let barrier = std::sync::Barrier::new(all.get().len());
    std::thread::scope(|scope| {
        let threads: Vec<_> = (0..all.get().len())
            .map(|i| {
                let (all, f, barrier) = (&all, &f, &barrier);
                scope.spawn(move || {
                    barrier.wait();
                    (f.get())(&all.get()[i])
                })
            })
            .collect();
        threads.into_iter().map(|x| x.join().unwrap()).collect()
    })
}

pub fn start() {}

//! P12: exchanges of messages over the loopback interface.

use crate::values::{send, serve, Handler, Map, Outcome, Reply, Request};
use crate::wire::{self, Framing, Message};
use pbt::{ensure, ensure_eq, fail, CaseResult, Failure, Gen};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io::{BufReader, Write};
use std::mem::{size_of, zeroed};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::{mpsc, Arc, LazyLock, Mutex};
use std::time::{Duration, Instant};
use tokio::runtime::{Builder, Runtime};

static SINGLE: LazyLock<Runtime> = LazyLock::new(|| Builder::new_current_thread().enable_all().build().unwrap());
static MULTIPLE: LazyLock<Runtime> = LazyLock::new(|| Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap());
const PATIENCE: Duration = Duration::from_secs(20);

fn run<T: Send + 'static>(multiple: bool, future: impl Future<Output = T> + Send + 'static) -> T {
    if multiple {
        MULTIPLE.block_on(async { tokio::spawn(future).await }).unwrap_or_else(|error| std::panic::resume_unwind(error.into_panic()))
    } else {
        SINGLE.block_on(future)
    }
}

async fn blocking<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    tokio::task::spawn_blocking(f).await.unwrap_or_else(|error| std::panic::resume_unwind(error.into_panic()))
}

async fn timeout<T>(future: impl Future<Output = T>) -> Option<T> {
    tokio::time::timeout(PATIENCE, future).await.ok()
}

/// An address of the loopback interface that is used by few others, so that ports are free.
fn home() -> Ipv4Addr {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    Ipv4Addr::new(127, 1 + (std::process::id() % 250) as u8, 1 + (n / 250 % 250) as u8, 1 + (n % 250) as u8)
}

fn listen() -> TcpListener {
    TcpListener::bind((home(), 0)).expect("HARNESS: bind")
}

fn show(x: &[u8]) -> String {
    let more = if x.len() > 80 { format!("… ({} bytes)", x.len()) } else { String::new() };
    format!("{:?}{more}", String::from_utf8_lossy(&x[..x.len().min(80)]))
}

/// Closes a connection without a time of waiting, in which its port is not free.
fn reset(stream: &TcpStream) {
    let linger = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(stream.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const _, size_of::<libc::linger>() as u32) };
}

fn listening() -> BTreeSet<i32> {
    let all: Vec<i32> = std::fs::read_dir("/proc/self/fd")
        .expect("HARNESS: list descriptors")
        .filter_map(|x| x.ok()?.file_name().to_str()?.parse().ok())
        .collect();
    all.into_iter()
        .filter(|fd| unsafe {
            let (mut x, mut n) = (0i32, 4u32);
            libc::getsockopt(*fd, libc::SOL_SOCKET, libc::SO_ACCEPTCONN, &mut x as *mut _ as *mut _, &mut n) == 0 && x != 0
        })
        .collect()
}

fn local(fd: i32) -> Option<SocketAddr> {
    unsafe {
        let mut address: libc::sockaddr_in = zeroed();
        let mut n = size_of::<libc::sockaddr_in>() as u32;
        if libc::getsockname(fd, &mut address as *mut _ as *mut _, &mut n) != 0 || address.sin_family != libc::AF_INET as u16 {
            return None;
        }
        Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(address.sin_addr.s_addr)), u16::from_be(address.sin_port)).into())
    }
}

// Generators

const TOKEN: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";
const METHODS: [&str; 9] = ["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "PROPFIND"];
/// Headers of the connection itself.
const RESERVED: [&str; 15] = [
    "connection", "transfer-encoding", "content-length", "upgrade", "te", "trailer", "expect", "keep-alive", "proxy-connection", "http2-settings", "host",
    "date", "proxy-authenticate", "proxy-authorization", "sec-websocket-key",
];
const NAMES: [&str; 16] = [
    "Accept", "Content-Type", "X-Foo", "x-bar", "ETag", "Cookie", "Set-Cookie", "Authorization", "User-Agent", "Cache-Control", "Location", "Referer", "Origin", "Server", "Vary", "A",
];

fn token(g: &mut Gen) -> Vec<u8> {
    (0..1 + g.usize(10)).map(|_| *g.pick(TOKEN)).collect()
}

fn method(g: &mut Gen) -> Vec<u8> {
    if g.chance(3, 4) {
        return g.pick(&METHODS).as_bytes().to_vec();
    }
    // The implementation's HTTP library does not know methods with some other signs.
    let x: Vec<u8> = token(g).into_iter().map(|x| if b"#$%&'".contains(&x) { b'-' } else { x }).collect();
    // These have meanings of their own.
    if [&b"CONNECT"[..], b"PRI"].contains(&x.as_slice()) {
        b"GET".to_vec()
    } else {
        x
    }
}

fn value(g: &mut Gen) -> Vec<u8> {
    let kind = g.below(3);
    let n = if g.chance(1, 30) { 2000 } else { g.len(30) };
    let mut x: Vec<u8> = (0..n)
        .map(|_| match kind {
            0 => b'a' + g.below(26) as u8,
            1 => 0x20 + g.below(0x5f) as u8,
            _ => match g.below(8) {
                0 => b'\t',
                1 => b' ',
                2 => 0x80 + g.below(0x80) as u8,
                _ => 0x21 + g.below(0x5e) as u8,
            },
        })
        .collect();
    while x.first().is_some_and(|x| b" \t".contains(x)) {
        x.remove(0);
    }
    while x.last().is_some_and(|x| b" \t".contains(x)) {
        x.pop();
    }
    x
}

fn headers(g: &mut Gen) -> Map {
    let mut seen = BTreeSet::new();
    let mut map = vec![];
    for _ in 0..g.len(8) {
        let name = if g.bool() { g.pick(&NAMES).as_bytes().to_vec() } else { token(g) };
        let lower = name.to_ascii_lowercase();
        if RESERVED.iter().any(|x| x.as_bytes() == lower) || !seen.insert(lower) {
            continue;
        }
        map.push((name, value(g)));
    }
    map
}

fn body(g: &mut Gen) -> Vec<u8> {
    match g.weighted(&[4, 8, 2, 1]) {
        0 => vec![],
        1 => g.bytes(100),
        2 => {
            let n = g.usize(20_000);
            let x = g.below(256) as u8;
            (0..n).map(|i| x.wrapping_add(i as u8)).collect()
        }
        _ => {
            let n = g.usize(300_000);
            let x = g.below(256) as u8;
            (0..n).map(|i| x.wrapping_add((i / 7) as u8)).collect()
        }
    }
}

/// A path with a query, if any, that starts with a number.
fn path(g: &mut Gen, index: usize) -> Vec<u8> {
    const PLAIN: &[u8] = b"abcXYZ019-._~!$&'()*+,;=:@/";
    let mut x = format!("/{index}").into_bytes();
    let part = |g: &mut Gen, x: &mut Vec<u8>, more: &[u8]| {
        for _ in 0..g.len(12) {
            match g.below(8) {
                0 => x.extend(format!("%{:02X}", g.below(256)).bytes()),
                1 => x.push(*g.pick(more)),
                _ => x.push(*g.pick(PLAIN)),
            }
        }
    };
    if g.bool() {
        x.push(b'/');
        part(g, &mut x, b"/");
    }
    if g.chance(1, 3) {
        x.push(b'?');
        part(g, &mut x, b"?/");
    }
    x
}

fn index(uri: &[u8]) -> Option<usize> {
    let digits: Vec<u8> = uri.strip_prefix(b"/")?.iter().copied().take_while(u8::is_ascii_digit).collect();
    String::from_utf8(digits).ok()?.parse().ok()
}

fn request(g: &mut Gen, index: usize) -> Request {
    Request { method: method(g), uri: path(g, index), headers: headers(g), body: body(g) }
}

fn reply(g: &mut Gen, head: bool) -> Reply {
    let status = match g.weighted(&[4, 4, 1]) {
        0 => *g.pick(&[200, 201, 204, 301, 304, 400, 404, 418, 500, 503]),
        1 => 200 + g.below(400),
        _ => 600 + g.below(400),
    };
    let none = head && g.bool() || status == 204 || status == 304;
    Reply { status: status as f64, headers: headers(g), body: if none { vec![] } else { body(g) } }
}

fn bodyless(method: &[u8], status: f64) -> bool {
    method == b"HEAD" || status == 204.0 || status == 304.0
}

// Comparisons

fn check_headers(what: &str, expected: &Map, found: &Map, extra: &[&str]) -> CaseResult {
    let mut left: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    for (name, value) in found {
        let name = name.to_ascii_lowercase();
        ensure!(left.insert(name.clone(), value.clone()).is_none(), format!("{what} headers"), "the {what} has two headers {}", show(&name));
    }
    for (name, value) in expected {
        let Some(x) = left.remove(&name.to_ascii_lowercase()) else { fail!(format!("{what} headers"), "the {what} lacks the header {}", show(name)) };
        ensure!(x == *value, format!("{what} headers"), "the header {} of the {what} is {} instead of {}", show(name), show(&x), show(value));
    }
    for (name, value) in left {
        ensure!(extra.iter().any(|x| x.as_bytes() == name), format!("{what} headers"), "the {what} has a header {} with {} of its own", show(&name), show(&value));
    }
    Ok(())
}

fn check_body(what: &str, expected: &[u8], found: &[u8]) -> CaseResult {
    ensure!(expected == found, format!("{what} body"), "the body of the {what} has {} bytes {} instead of {} bytes {}", found.len(), show(found), expected.len(), show(expected));
    Ok(())
}

/// Compares a request that has been sent by the client function with what arrives.
fn check_sent(request: &Request, found: &Message, host: &str) -> CaseResult {
    ensure!(found.start[0] == request.method, "method", "the method {} arrives instead of {}", show(&found.start[0]), show(&request.method));
    ensure!(found.start[1] == request.uri, "path", "the path {} arrives instead of {}", show(&found.start[1]), show(&request.uri));
    ensure!(found.start[2] == b"HTTP/1.1", "version", "the version is {}", show(&found.start[2]));
    ensure!(found.header("host") == Some(host.as_bytes()), "host", "the host is {:?} instead of {host}", found.header("host").map(show));
    check_headers("request", &request.headers, &found.headers, &["host", "content-length", "transfer-encoding", "connection"])?;
    check_body("request", &request.body, &found.body)
}

/// Compares what the client function gives with what has been sent to it.
fn check_reply(request: &Request, expected: &Reply, headers: &Map, found: &Reply, extra: &[&str]) -> CaseResult {
    ensure_eq!(found.status, expected.status, "status", "status");
    check_headers("response", headers, &found.headers, extra)?;
    check_body("response", if bodyless(&request.method, expected.status) { b"" } else { &expected.body }, &found.body)
}

fn write_pieces(stream: &mut TcpStream, bytes: &[u8], pieces: &[usize]) -> std::io::Result<()> {
    let mut at = 0;
    for &n in pieces {
        let end = (at + n).min(bytes.len());
        stream.write_all(&bytes[at..end])?;
        at = end;
    }
    stream.write_all(&bytes[at..])
}

fn pieces(g: &mut Gen) -> Vec<usize> {
    if g.bool() {
        vec![]
    } else {
        (0..g.len(6)).map(|_| if g.bool() { 1 + g.usize(5) } else { 1 + g.usize(200) }).collect()
    }
}

fn framing(g: &mut Gen, close: bool) -> Framing {
    match g.weighted(&[4, 3, 2 * close as u64]) {
        0 => Framing::Length,
        1 => Framing::Chunks(if g.bool() { 1 + g.usize(50) } else { 1 + g.usize(70_000) }),
        _ => Framing::Close,
    }
}

// The client

#[derive(Clone, Debug)]
struct Service {
    reply: Reply,
    framing: Option<Framing>,
    pieces: Vec<usize>,
    informational: bool,
    /// How much of the response is sent, if not all.
    cut: Option<f64>,
    reason: &'static str,
}

pub fn clients(g: &mut Gen) -> CaseResult {
    let multiple = g.bool();
    let n = 1 + if g.bool() { 0 } else { g.usize(4) };
    let mut plan: Vec<(Request, Service)> = vec![];
    for i in 0..n {
        let request = request(g, i);
        let reply = reply(g, request.method == b"HEAD");
        let none = reply.status == 204.0 || reply.status == 304.0;
        let framing = (!none).then(|| framing(g, true));
        let cut = (g.chance(1, 8) && request.method != b"HEAD" && matches!(framing, Some(Framing::Length | Framing::Chunks(_)))).then(|| g.below(1000) as f64 / 1000.0);
        let service = Service { reply, framing, pieces: pieces(g), informational: g.chance(1, 10), cut, reason: *g.pick(&["OK", "", "Not a reason"]) };
        g.label_if(service.cut.is_some(), "truncated");
        if let Some(x) = framing {
            g.label(format!("framing: {}", ["length", "chunks", "close"][match x {
                Framing::Length => 0,
                Framing::Chunks(_) => 1,
                Framing::Close => 2,
            }]));
        }
        g.label_if(request.method == b"HEAD", "head");
        plan.push((request, service));
    }
    let with_path = g.chance(1, 20);
    if with_path {
        plan.truncate(1);
        plan[0].0.uri = b"/".to_vec();
    }
    g.describe(|| format!("threads: {multiple}, {plan:?}"));
    if plan.iter().any(|(x, y)| !x.headers.is_empty() && !x.body.is_empty() || !y.reply.headers.is_empty() && !y.reply.body.is_empty()) {
        g.nontrivial(&format!("{plan:?}"));
    }
    let plan = Arc::new(plan);
    let listener = listen();
    let address = listener.local_addr().unwrap().to_string();
    let plan2 = plan.clone();
    let host = address.clone();
    // Answers each connection on a thread of its own.
    let (accepted, connections) = mpsc::channel::<std::thread::JoinHandle<Result<(), Failure>>>();
    let done = Arc::new(Mutex::new(false));
    let done2 = done.clone();
    let acceptor = std::thread::spawn(move || {
        let mut dones: Vec<mpsc::Sender<()>> = vec![];
        for stream in listener.incoming() {
            if *done2.lock().unwrap() {
                // This one only wakes it up.
                break;
            }
            let stream = stream.expect("HARNESS: accept");
            let (plan, host) = (plan2.clone(), host.clone());
            let (sender, receiver) = mpsc::channel();
            dones.push(sender);
            accepted.send(std::thread::spawn(move || answer(stream, &plan, &host, receiver))).unwrap();
        }
        dones.len()
    });
    let (plan2, address2) = (plan.clone(), address.clone());
    let results = run(multiple, async move {
        timeout(futures::future::join_all(plan2.iter().map(|(x, _)| {
            let uri = if with_path { format!("http://{address2}").into_bytes() } else { [b"http://", address2.as_bytes(), &x.uri].concat() };
            let x = Request { uri, ..x.clone() };
            async move { send(&x).await }
        })))
        .await
    });
    *done.lock().unwrap() = true;
    if let Ok(x) = TcpStream::connect(&address) {
        reset(&x)
    }
    let count = acceptor.join().expect("HARNESS: acceptor");
    // All that the threads wait for is dropped now.
    let answers: Vec<Result<(), Failure>> = connections.into_iter().map(|x| x.join().expect("HARNESS: answer")).collect();
    for x in answers {
        x?;
    }
    let Some(results) = results else { fail!("no result", "the client does not give a result") };
    for ((request, service), result) in plan.iter().zip(results) {
        let (_, headers) = bytes_of(service);
        match result {
            Ok(x) => {
                ensure!(service.cut.is_none(), "truncated", "a response that is cut off is given as one with {} bytes of body", x.body.len());
                check_reply(request, &service.reply, &headers, &x, &[])?;
            }
            Err(x) => ensure!(service.cut.is_some(), "client error", "a request fails: {x}"),
        }
    }
    ensure_eq!(count, plan.len(), "connections", "connections for as many requests");
    Ok(())
}

fn bytes_of(service: &Service) -> (Vec<u8>, Map) {
    let start = format!("HTTP/1.1 {} {}", service.reply.status, service.reason);
    wire::write(start.as_bytes(), &service.reply.headers, &service.reply.body, service.framing)
}

/// Takes one request of the client function and answers it.
fn answer(mut stream: TcpStream, plan: &[(Request, Service)], host: &str, done: mpsc::Receiver<()>) -> Result<(), Failure> {
    stream.set_read_timeout(Some(PATIENCE)).unwrap();
    stream.set_write_timeout(Some(PATIENCE)).unwrap();
    stream.set_nodelay(true).unwrap();
    let message = wire::read(&mut BufReader::new(&stream), false, false);
    let message = match message {
        Ok(Some(x)) => x,
        Ok(None) => fail!("request", "the client connects and sends nothing"),
        Err(x) => fail!("request", "the client sends a request that is malformed: {x}"),
    };
    let i = index(&message.start[1]).unwrap_or(0);
    let Some((request, service)) = plan.get(i) else { fail!("path", "the path {} arrives", show(&message.start[1])) };
    check_sent(request, &message, host)?;
    let (mut bytes, _) = bytes_of(service);
    if request.method == b"HEAD" {
        let n = bytes.windows(4).position(|x| x == b"\r\n\r\n").unwrap() + 4;
        bytes.truncate(n);
    }
    if service.informational {
        bytes = [b"HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n".to_vec(), bytes].concat();
    }
    if let Some(x) = service.cut {
        bytes.truncate((bytes.len() as f64 * x) as usize);
    }
    // The client may have gone after a response that is not the expected one.
    let _ = write_pieces(&mut stream, &bytes, &service.pieces);
    if service.cut.is_some() || service.framing == Some(Framing::Close) {
        let _ = stream.shutdown(std::net::Shutdown::Write);
    }
    let _ = done.recv_timeout(PATIENCE);
    reset(&stream);
    Ok(())
}

// The server

#[derive(Clone, Debug)]
struct Exchange {
    request: Request,
    framing: Option<Framing>,
    pieces: Vec<usize>,
    reply: Reply,
    yields: u64,
    /// If the reply cannot be sent.
    malformed: bool,
}

#[derive(Clone, Debug)]
struct Connection {
    pipelined: bool,
    exchanges: Vec<usize>,
}

type Calls = Arc<Mutex<Vec<(Option<usize>, Request)>>>;

fn handler(exchanges: Arc<Vec<Exchange>>, calls: Calls) -> Arc<Handler> {
    Arc::new(move |request: Request| {
        let i = index(&request.uri).filter(|i| *i < exchanges.len());
        calls.lock().unwrap().push((i, request));
        let exchange = i.map(|i| exchanges[i].clone());
        Box::pin(async move {
            let Some(x) = exchange else { return Reply { status: 404.0, headers: vec![], body: vec![] } };
            for _ in 0..x.yields {
                tokio::task::yield_now().await;
            }
            x.reply
        })
    })
}

/// Runs something while the server function serves.
async fn serving<T>(handler: Arc<Handler>, f: impl Future<Output = T> + Send, address: impl FnOnce(SocketAddr)) -> Result<T, Failure> {
    let before = blocking(listening).await;
    let home = home();
    let server = tokio::spawn(async move { serve(format!("{home}:0").as_bytes(), handler).await });
    let start = Instant::now();
    let fd = loop {
        if let Some(fd) = listening().difference(&before).next() {
            break *fd;
        }
        if server.is_finished() || start.elapsed() > PATIENCE {
            break -1;
        }
        tokio::task::yield_now().await;
    };
    let mut server = server;
    let Some(found) = local(fd) else {
        fail!("serve", "the server does not listen: {:?}", timeout(server).await.map(|x| x.expect("HARNESS: server")));
    };
    ensure!(found.ip() == home, "serve", "the server listens on {found}");
    address(found);
    let result = tokio::select! {
        x = f => x,
        x = &mut server => fail!("serve", "the server ends: {:?}", x.expect("HARNESS: server")),
    };
    server.abort();
    let _ = server.await;
    Ok(result)
}

fn check_calls(exchanges: &[Exchange], calls: &Calls, extra: &[&str], written: impl Fn(&Exchange) -> Map) -> CaseResult {
    let calls = calls.lock().unwrap();
    let mut counts = vec![0; exchanges.len()];
    for (i, request) in calls.iter() {
        let Some(i) = i else { fail!("path", "the handler gets the path {}", show(&request.uri)) };
        let x = &exchanges[*i].request;
        ensure!(request.method == x.method, "method", "the handler gets the method {} instead of {}", show(&request.method), show(&x.method));
        ensure!(request.uri == x.uri, "path", "the handler gets the path {} instead of {}", show(&request.uri), show(&x.uri));
        check_headers("request", &written(&exchanges[*i]), &request.headers, extra)?;
        check_body("request", &x.body, &request.body)?;
        counts[*i] += 1;
    }
    for (i, n) in counts.iter().enumerate() {
        ensure_eq!(*n, 1, "calls", "calls of the handler for request {i}");
    }
    Ok(())
}

fn written(x: &Exchange) -> (Vec<u8>, Map) {
    let start = [&x.request.method, &b" "[..], &x.request.uri, b" HTTP/1.1"].concat();
    let mut headers = x.request.headers.clone();
    headers.insert(0, (b"Host".to_vec(), b"example.org".to_vec()));
    wire::write(&start, &headers, &x.request.body, x.framing)
}

fn read_reply(reader: &mut BufReader<&TcpStream>, x: &Exchange) -> CaseResult {
    let message = match wire::read(reader, true, bodyless(&x.request.method, x.reply.status)) {
        Ok(Some(x)) => x,
        Ok(None) if x.malformed => return Ok(()),
        Ok(None) => fail!("response", "no response comes to {} {}", show(&x.request.method), show(&x.request.uri)),
        Err(y) => fail!("response", "a response to {} {} is malformed: {y}", show(&x.request.method), show(&x.request.uri)),
    };
    ensure!(message.start[0] == b"HTTP/1.1", "version", "the version is {}", show(&message.start[0]));
    if x.malformed {
        ensure!(message.start[1].starts_with(b"5"), "malformed response", "a malformed response is sent with the status {}", show(&message.start[1]));
        for (name, _) in &x.reply.headers {
            ensure!(message.header(&String::from_utf8_lossy(name)).is_none(), "malformed response", "a malformed response is sent");
        }
        return Ok(());
    }
    ensure_eq!(String::from_utf8_lossy(&message.start[1]), x.reply.status.to_string(), "status", "status");
    check_headers("response", &x.reply.headers, &message.headers, &["content-length", "transfer-encoding", "connection", "date"])?;
    check_body("response", if bodyless(&x.request.method, x.reply.status) { b"" } else { &x.reply.body }, &message.body)
}

fn converse(address: SocketAddr, connection: Connection, exchanges: &[Exchange]) -> CaseResult {
    let mut stream = match TcpStream::connect(address) {
        Ok(x) => x,
        Err(x) => fail!("serve", "connecting to the server fails: {x}"),
    };
    stream.set_read_timeout(Some(PATIENCE)).unwrap();
    stream.set_write_timeout(Some(PATIENCE)).unwrap();
    stream.set_nodelay(true).unwrap();
    let other = stream.try_clone().expect("HARNESS: clone");
    let mut reader = BufReader::new(&other);
    let result = (|| {
        if connection.pipelined {
            for i in &connection.exchanges {
                let x = &exchanges[*i];
                if let Err(y) = write_pieces(&mut stream, &written(x).0, &x.pieces) {
                    fail!("serve", "sending a request fails: {y}")
                }
            }
        }
        for i in &connection.exchanges {
            let x = &exchanges[*i];
            if !connection.pipelined {
                if let Err(y) = write_pieces(&mut stream, &written(x).0, &x.pieces) {
                    fail!("serve", "sending a request fails: {y}")
                }
            }
            read_reply(&mut reader, x)?;
        }
        Ok(())
    })();
    reset(&stream);
    result
}

fn exchange(g: &mut Gen, i: usize) -> Exchange {
    let request = request(g, i);
    let reply = reply(g, request.method == b"HEAD");
    let framing = (!request.body.is_empty() || g.chance(1, 4)).then(|| framing(g, false));
    Exchange { request, framing, pieces: pieces(g), reply, yields: if g.chance(1, 3) { g.below(4) } else { 0 }, malformed: false }
}

fn malform(g: &mut Gen, reply: &mut Reply) {
    match g.below(3) {
        0 => reply.status = *g.pick(&[0.0, 99.0, 1000.0, 65535.0, -1.0, 70000.0]),
        1 => {
            let name = bad_name(g);
            reply.headers.push((name, b"x".to_vec()))
        }
        _ => {
            let x = bad_value(g);
            reply.headers.push((b"x-bad".to_vec(), x))
        }
    }
}

fn bad_name(g: &mut Gen) -> Vec<u8> {
    let mut x = if g.chance(1, 4) { vec![] } else { token(g) };
    if !x.is_empty() {
        let i = g.usize(x.len() + 1);
        x.insert(i, *g.pick(b" \t\r\n\0\x7f:(),/;<=>?@[\\]{}\x80\xff"));
    }
    x
}

fn bad_value(g: &mut Gen) -> Vec<u8> {
    let mut x = value(g);
    let i = g.usize(x.len() + 1);
    if g.bool() {
        x.splice(i..i, *b"\r\nX-Injected: 1");
    } else {
        x.insert(i, *g.pick(b"\r\n\0\x01\x1f\x7f"));
    }
    x
}

pub fn servers(g: &mut Gen) -> CaseResult {
    let multiple = g.bool();
    let mut exchanges = vec![];
    let connections: Vec<Connection> = (0..1 + if g.bool() { 0 } else { g.usize(3) })
        .map(|_| {
            let n = 1 + g.usize(4);
            let ids = (0..n).map(|_| {
                let i = exchanges.len();
                exchanges.push(exchange(g, i));
                i
            });
            Connection { exchanges: ids.collect(), pipelined: g.chance(1, 3) }
        })
        .collect();
    for x in &connections {
        g.label_if(x.pipelined && x.exchanges.len() > 1, "pipelined");
        if g.chance(1, 10) {
            // What is wrong ends the connection.
            let x = &mut exchanges[*x.exchanges.last().unwrap()];
            malform(g, &mut x.reply);
            x.malformed = true;
            g.label("malformed response");
        }
    }
    for x in &exchanges {
        g.label_if(matches!(x.framing, Some(Framing::Chunks(_))), "chunks");
        g.label_if(x.request.method == b"HEAD", "head");
    }
    g.describe(|| format!("threads: {multiple}, {connections:?}, {exchanges:?}"));
    if exchanges.iter().any(|x| !x.request.headers.is_empty() && !x.request.body.is_empty() || !x.reply.headers.is_empty() && !x.reply.body.is_empty()) {
        g.nontrivial(&format!("{exchanges:?}"));
    }
    let (exchanges, calls) = (Arc::new(exchanges), Calls::default());
    let handler = handler(exchanges.clone(), calls.clone());
    let exchanges2 = exchanges.clone();
    let results = run(multiple, async move {
        let (sender, receiver) = tokio::sync::oneshot::channel();
        let work = async move {
            let address = receiver.await.unwrap();
            let mut tasks = vec![];
            for connection in connections {
                let exchanges = exchanges2.clone();
                tasks.push(blocking(move || converse(address, connection, &exchanges)));
            }
            futures::future::join_all(tasks).await
        };
        serving(handler, work, |address| sender.send(address).unwrap()).await
    })?;
    for x in results {
        x?;
    }
    check_calls(&exchanges, &calls, &[], |x| written(x).1)
}

pub fn both(g: &mut Gen) -> CaseResult {
    let multiple = g.bool();
    let exchanges: Vec<Exchange> = (0..1 + g.usize(4)).map(|i| exchange(g, i)).collect();
    let one_by_one = g.bool();
    g.describe(|| format!("threads: {multiple}, one by one: {one_by_one}, {exchanges:?}"));
    if exchanges.iter().any(|x| !x.request.headers.is_empty() && !x.request.body.is_empty() || !x.reply.headers.is_empty() && !x.reply.body.is_empty()) {
        g.nontrivial(&format!("{exchanges:?}"));
    }
    let (exchanges, calls) = (Arc::new(exchanges), Calls::default());
    let handler = handler(exchanges.clone(), calls.clone());
    let exchanges2 = exchanges.clone();
    let results: Option<Vec<Outcome<Reply>>> = run(multiple, async move {
        let (sender, receiver) = tokio::sync::oneshot::channel::<SocketAddr>();
        let work = async move {
            let address = receiver.await.unwrap().to_string();
            let all = exchanges2.iter().map(|x| {
                let x = Request { uri: [b"http://", address.as_bytes(), &x.request.uri].concat(), ..x.request.clone() };
                async move { send(&x).await }
            });
            if one_by_one {
                let mut results = vec![];
                for x in all {
                    results.push(timeout(x).await?);
                }
                Some(results)
            } else {
                timeout(futures::future::join_all(all)).await
            }
        };
        serving(handler, work, |address| sender.send(address).unwrap()).await
    })?;
    let Some(results) = results else { fail!("no result", "the client does not give a result") };
    for (x, result) in exchanges.iter().zip(results) {
        match result {
            Ok(y) => check_reply(&x.request, &x.reply, &x.reply.headers, &y, &["content-length", "transfer-encoding", "connection", "date"])?,
            Err(y) => fail!("client error", "a request fails: {y}"),
        }
    }
    check_calls(&exchanges, &calls, &["host", "content-length", "transfer-encoding", "connection"], |x| x.request.headers.clone())
}

// What is malformed

pub fn malformed(g: &mut Gen) -> CaseResult {
    let mut x = request(g, 0);
    let listener = listen();
    listener.set_nonblocking(true).unwrap();
    let address = listener.local_addr().unwrap().to_string();
    x.uri = [b"http://", address.as_bytes(), &x.uri].concat();
    let kind = g.below(4);
    match kind {
        0 => {
            x.method = bad_name(g);
            g.label("method");
        }
        1 => {
            x.uri = match g.below(4) {
                0 => g.pick(&["", "/", "/path", "http://", "http:///x", "http://127.0.0.1:99999/", "http://127.0.0.1:x/", "127.0.0.1", "//127.0.0.1/", "http//127.0.0.1/", "http://[::1/"]).as_bytes().to_vec(),
                1 => format!("{}://{address}/", g.pick(&["https", "ftp", "httq", "h"])).into_bytes(),
                _ => {
                    let at = 7 + address.len();
                    let i = at + 1 + g.usize(x.uri.len() - at);
                    // What would change the request.
                    x.uri.insert(i, *g.pick(b" \t\r\n\0\x7f"));
                    x.uri
                }
            };
            g.label("address");
        }
        2 => {
            let name = bad_name(g);
            let i = g.usize(x.headers.len() + 1);
            x.headers.insert(i, (name, b"x".to_vec()));
            g.label("header name");
        }
        _ => {
            let y = bad_value(g);
            let i = g.usize(x.headers.len() + 1);
            x.headers.insert(i, (b"x-bad".to_vec(), y));
            g.label("header value");
        }
    }
    g.describe(|| format!("{x:?}"));
    g.nontrivial(&format!("{x:?}"));
    let x2 = x.clone();
    let result = run(false, async move { tokio::time::timeout(Duration::from_secs(2), send(&x2)).await });
    ensure!(!matches!(&result, Ok(Ok(_))), "malformed request", "a malformed request gets a response");
    ensure!(listener.accept().is_err(), "malformed request", "a malformed request is sent: {x:?}");
    ensure!(result.is_ok(), "malformed request", "a malformed request is no error");
    Ok(())
}

/// Binds a stream socket to a port without listening.
struct Held(i32, SocketAddr);

fn hold() -> Held {
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        let mut address: libc::sockaddr_in = zeroed();
        address.sin_family = libc::AF_INET as u16;
        address.sin_addr.s_addr = u32::from(home()).to_be();
        assert!(libc::bind(fd, &address as *const _ as *const _, size_of::<libc::sockaddr_in>() as u32) == 0, "HARNESS: bind");
        Held(fd, local(fd).expect("HARNESS: address"))
    }
}

impl Drop for Held {
    fn drop(&mut self) {
        unsafe { libc::close(self.0) };
    }
}

pub fn addresses(g: &mut Gen) -> CaseResult {
    let held = hold();
    let busy = listen();
    let exchanges = Arc::new(vec![]);
    let calls = Calls::default();
    match g.below(4) {
        0 => {
            let x = Request { uri: format!("http://{}/", held.1).into_bytes(), ..request(g, 0) };
            g.describe(|| format!("a port that is not listened to, {x:?}"));
            g.nontrivial(&format!("{x:?}"));
            let x = run(false, async move { timeout(send(&x)).await });
            ensure!(matches!(x, Some(Err(_))), "refused", "a request to a port that is not listened to gives {x:?}");
        }
        1 => {
            let address = busy.local_addr().unwrap().to_string();
            g.describe(|| "a port that is in use".into());
            let handler = handler(exchanges, calls);
            let x = run(false, async move { timeout(serve(address.as_bytes(), handler)).await });
            ensure!(matches!(x, Some(Err(_))), "in use", "serving on a port that is in use gives {x:?}");
        }
        2 => {
            let mut address = match g.below(2) {
                0 => g.pick(&["", "127.0.0.1", "localhost:0", "127.0.0.1:x", "127.0.0.1:70000", "[::1", "127.0.0.1:-1", "127.0.0.1:0:0", "127.0.0:0", "256.0.0.1:0", " 127.0.0.1:0"]).as_bytes().to_vec(),
                _ => b"127.0.0.1:0".to_vec(),
            };
            if address == b"127.0.0.1:0" {
                let i = g.usize(address.len() + 1);
                address.insert(i, *g.pick(b" x\xff\n-"));
            }
            g.describe(|| show(&address));
            g.nontrivial(&address);
            let handler = handler(exchanges, calls);
            let x = run(false, async move { timeout(serve(&address, handler)).await });
            ensure!(matches!(x, Some(Err(_))), "address", "serving on a malformed address gives {x:?}");
        }
        _ => {
            // What is no request is not handled, and does not stop the server.
            let garbage: Vec<u8> = match g.below(3) {
                0 => g.pick(&["\0\0\0\0\r\n\r\n", "GET /0\x01 HTTP/1.1\r\n\r\n", "GET /0 HTTP/9.9\r\n\r\n", "GET /0\r\n\r\n", " GET /0 HTTP/1.1\r\n\r\n", "GET /0 HTTP/1.1\r\nx y: 1\r\n\r\n", "GET /0 HTTP/1.1\r\nx: \0\r\n\r\n", "POST /0 HTTP/1.1\r\nContent-Length: x\r\n\r\n", "POST /0 HTTP/1.1\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nxy", "GE(T /0 HTTP/1.1\r\n\r\n"]).as_bytes().to_vec(),
                1 => {
                    let (mut x, _) = written(&exchange(g, 0));
                    let n = x.len() - 1;
                    x.truncate(g.usize(n) + 1);
                    x
                }
                _ => vec![b'\0'; 1 + g.usize(100)],
            };
            g.describe(|| show(&garbage));
            g.nontrivial(&garbage);
            let exchanges = Arc::new(vec![exchange(g, 0), exchange(g, 1)]);
            let handler = handler(exchanges.clone(), calls.clone());
            let calls2 = calls.clone();
            let result = run(g.bool(), async move {
                let (sender, receiver) = tokio::sync::oneshot::channel();
                let work = async move {
                    let address = receiver.await.unwrap();
                    blocking(move || {
                        let mut stream = TcpStream::connect(address).expect("HARNESS: connect");
                        stream.set_read_timeout(Some(PATIENCE)).unwrap();
                        let _ = stream.write_all(&garbage);
                        let _ = stream.shutdown(std::net::Shutdown::Write);
                        let mut rest = vec![];
                        let _ = std::io::Read::read_to_end(&mut stream, &mut rest);
                        reset(&stream);
                        drop(stream);
                        ensure!(calls2.lock().unwrap().is_empty(), "malformed request", "the handler is called for a malformed request");
                        ensure!(!rest.starts_with(b"HTTP/1.1 2"), "malformed request", "a malformed request is answered with {}", show(&rest));
                        converse(address, Connection { pipelined: false, exchanges: vec![1] }, &exchanges)
                    })
                    .await
                };
                serving(handler, work, |address| sender.send(address).unwrap()).await
            })?;
            result?;
            ensure_eq!(calls.lock().unwrap().len(), 1, "calls", "calls of the handler");
        }
    }
    Ok(())
}

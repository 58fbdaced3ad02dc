//! P09, P15: histories of socket operations over the loopback interface, against queues of bytes and datagrams.

use crate::sys;
use crate::values::Handle;
use pbt::{ensure, ensure_eq, fail, CaseResult, Gen};
use std::collections::{BTreeSet, VecDeque};
use std::io::{Read, Write};
use std::mem::{size_of, zeroed};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, TcpListener, TcpStream, UdpSocket};
use std::time::Duration;

fn descriptors() -> BTreeSet<i32> {
    let all: Vec<i32> = std::fs::read_dir("/proc/self/fd")
        .expect("HARNESS: list descriptors")
        .filter_map(|x| x.ok()?.file_name().to_str()?.parse().ok())
        .collect();
    // Without the one that was open for the listing.
    all.into_iter().filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).collect()
}

/// The local address of a socket.
fn local(fd: i32) -> Option<SocketAddr> {
    unsafe {
        let mut address: libc::sockaddr_in = zeroed();
        let mut n = size_of::<libc::sockaddr_in>() as u32;
        if libc::getsockname(fd, &mut address as *mut _ as *mut _, &mut n) != 0 || address.sin_family != libc::AF_INET as u16 {
            return None;
        }
        Some(SocketAddrV4::new(Ipv4Addr::from(u32::from_be(address.sin_addr.s_addr)), u16::from_be(address.sin_port)).into())
    }
}

/// Does something that opens a socket, whose address is returned too.
fn addressed<T>(f: impl FnOnce() -> T) -> (T, Option<SocketAddr>) {
    let before = descriptors();
    let x = f();
    let after = descriptors();
    let address = after.difference(&before).find_map(|fd| local(*fd));
    (x, address)
}

fn text(x: SocketAddr) -> Vec<u8> {
    x.to_string().into_bytes()
}

const ANY: &[u8] = b"127.0.0.1:0";
const PATIENCE: Duration = Duration::from_secs(20);

/// One end of a connection.
enum End {
    Tested(Handle),
    Twin(TcpStream),
}

impl End {
    fn send(&mut self, data: &[u8]) -> Result<usize, String> {
        match self {
            End::Tested(x) => sys::tcp_send(x, data).map(|x| if x.fract() == 0.0 && x >= 0.0 { x as usize } else { usize::MAX }),
            End::Twin(x) => x.write(data).map_err(|x| x.to_string()),
        }
    }
    fn receive(&mut self, limit: usize) -> Result<Vec<u8>, String> {
        match self {
            End::Tested(x) => sys::tcp_receive(x, limit as f64),
            End::Twin(x) => {
                let mut buffer = vec![0; limit.min(1 << 20)];
                let n = x.read(&mut buffer).map_err(|x| x.to_string())?;
                buffer.truncate(n);
                Ok(buffer)
            }
        }
    }
}

fn connection(g: &mut Gen, script: &mut Vec<String>) -> Result<[End; 2], pbt::Failure> {
    match g.below(3) {
        0 => {
            g.label("connected");
            script.push("connect".into());
            let server = TcpListener::bind("127.0.0.1:0").expect("HARNESS: bind");
            let client = match sys::tcp_connect(&text(server.local_addr().unwrap())) {
                Ok(x) => x,
                Err(x) => fail!("connect", "connecting to a listening socket fails: {x}"),
            };
            let (peer, _) = server.accept().expect("HARNESS: accept");
            peer.set_read_timeout(Some(PATIENCE)).unwrap();
            Ok([End::Tested(client), End::Twin(peer)])
        }
        kind => {
            let (listener, address) = addressed(|| sys::tcp_bind(ANY));
            let listener = match listener {
                Ok(x) => x,
                Err(x) => fail!("bind", "binding to a free port fails: {x}"),
            };
            let Some(address) = address else { fail!("bind", "no socket is bound") };
            ensure!(address.ip() == Ipv4Addr::LOCALHOST, "bind", "bound to {address}");
            let (client, peer) = if kind == 1 {
                g.label("accepted");
                script.push("accept".into());
                let client = match TcpStream::connect(address) {
                    Ok(x) => x,
                    Err(x) => fail!("bind", "connecting to a bound socket fails: {x}"),
                };
                client.set_read_timeout(Some(PATIENCE)).unwrap();
                let local = client.local_addr().unwrap();
                (End::Twin(client), local)
            } else {
                g.label("both ends");
                script.push("connect and accept".into());
                let (client, local) = addressed(|| sys::tcp_connect(&text(address)));
                let client = match client {
                    Ok(x) => x,
                    Err(x) => fail!("connect", "connecting to a listening socket fails: {x}"),
                };
                (End::Tested(client), local.expect("HARNESS: address of a client"))
            };
            let (stream, from) = match sys::tcp_accept(&listener) {
                Ok(x) => x,
                Err(x) => fail!("accept", "accepting fails: {x}"),
            };
            ensure_eq!(String::from_utf8_lossy(&from), peer.to_string(), "accept address", "address of the peer");
            Ok([End::Tested(stream), client])
        }
    }
}

/// Lets connections end without a time of waiting, in which their ports are not free.
struct Reset;
impl Drop for Reset {
    fn drop(&mut self) {
        for fd in descriptors() {
            let linger = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe { libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const _, size_of::<libc::linger>() as u32) };
        }
    }
}

/// How many bytes may be under way, so that no send has to wait for the peer.
const WINDOW: usize = 30_000;

pub fn streams(g: &mut Gen) -> CaseResult {
    sys::start();
    let mut script = vec![];
    let ends = connection(g, &mut script)?;
    let mut ends: [Option<End>; 2] = ends.map(Some);
    let _reset = Reset;
    // Bytes on the way to each end.
    let mut queues: [VecDeque<u8>; 2] = Default::default();
    let mut next = [0u8, 100];
    let (mut moved, mut pieces) = (0, 0);
    let result = (|| -> CaseResult {
        for _ in 0..2 + g.len(30) {
            let i = g.usize(2);
            match g.weighted(&[10, 12, 2, 1]) {
                0 => {
                    // Sending to an end that is closed may reset the connection.
                    if ends[1 - i].is_none() {
                        continue;
                    }
                    let Some(end) = &mut ends[i] else { continue };
                    let most = if g.chance(1, 5) { 9000 } else { 20 };
                    let n = g.len(most).min(WINDOW - queues[1 - i].len().min(WINDOW));
                    let data: Vec<u8> = (0..n).map(|k| next[i].wrapping_add(k as u8)).collect();
                    script.push(format!("send {n} bytes from end {i}"));
                    let count = match end.send(&data) {
                        Ok(x) => x,
                        Err(x) => fail!("send", "sending fails: {x}"),
                    };
                    ensure!(count <= n && (n == 0 || count > 0), "send count", "{count} of {n} bytes are sent");
                    next[i] = next[i].wrapping_add(count as u8);
                    queues[1 - i].extend(&data[..count]);
                    pieces += 1;
                }
                1 => {
                    let limit = match g.weighted(&[8, 4, 2, 1]) {
                        0 => g.usize(20),
                        1 => g.usize(10_000),
                        2 => 0,
                        _ => usize::MAX >> g.usize(32),
                    };
                    // Even a receive of nothing may wait for something to receive.
                    if ends[i].is_none() || queues[i].is_empty() && ends[1 - i].is_some() {
                        continue;
                    }
                    script.push(format!("receive up to {limit} bytes at end {i}"));
                    receive(ends[i].as_mut().unwrap(), limit, &mut queues[i])?;
                    moved += 1;
                }
                2 => {
                    // A receive that has to wait.
                    if !queues[i].is_empty() || ends[0].is_none() || ends[1].is_none() {
                        continue;
                    }
                    let [x, y] = &mut ends;
                    let (receiver, sender) = if i == 0 { (x, y) } else { (y, x) };
                    let (Some(End::Tested(receiver)), Some(End::Twin(sender))) = (receiver.as_ref(), sender.as_mut()) else { continue };
                    let data = vec![next[1 - i]; 1 + g.usize(10)];
                    let limit = 1 + g.usize(10);
                    script.push(format!("receive at end {i} while {} bytes are sent", data.len()));
                    let found = match sys::tcp_receive_during(receiver, limit as f64, || {
                        sender.write_all(&data).expect("HARNESS: send");
                    }) {
                        Ok(x) => x,
                        Err(x) => fail!("receive", "receiving fails: {x}"),
                    };
                    ensure!(!found.is_empty() && found.len() <= limit && data.starts_with(&found), "receive", "{} bytes {:?} are received of {}", found.len(), found, data.len());
                    queues[i].extend(&data[found.len()..]);
                    g.label("waiting receive");
                }
                _ => {
                    // The last handle of an end that has no more to read goes.
                    if ends[0].is_none() || ends[1].is_none() || !queues[i].is_empty() || !matches!(ends[i], Some(End::Tested(_))) {
                        continue;
                    }
                    script.push(format!("close end {i}"));
                    if let Some(End::Tested(x)) = &ends[i] {
                        let copy = x.clone();
                        drop(ends[i].take());
                        ends[i] = Some(End::Tested(copy));
                    }
                    ends[i] = None;
                    g.label("closed");
                }
            }
        }
        // What is left arrives, and the end after it.
        for i in 0..2 {
            while !queues[i].is_empty() && ends[i].is_some() {
                receive(ends[i].as_mut().unwrap(), 1 << 16, &mut queues[i])?;
            }
        }
        let i = g.usize(2);
        if ends[i].is_some() {
            ends[1 - i] = None;
            script.push(format!("end {i} alone"));
            receive(ends[i].as_mut().unwrap(), 7, &mut queues[i])?;
        }
        Ok(())
    })();
    g.describe(|| script.join("; "));
    if moved > 1 && pieces > 1 {
        g.nontrivial(&script);
    }
    result
}

fn receive(end: &mut End, limit: usize, queue: &mut VecDeque<u8>) -> CaseResult {
    let data = match end.receive(limit) {
        Ok(x) => x,
        Err(x) => fail!("receive", "receiving fails: {x}"),
    };
    ensure!(data.len() <= limit, "receive limit", "{} bytes instead of {limit}", data.len());
    ensure!(!data.is_empty() || limit == 0 || queue.is_empty(), "receive", "nothing is received before the end");
    ensure!(data.len() <= queue.len(), "receive", "{} bytes are received of {}", data.len(), queue.len());
    for (i, x) in data.iter().enumerate() {
        let expected = queue.pop_front().unwrap();
        ensure!(*x == expected, "receive", "byte {i} of a receive is {x} instead of {expected}");
    }
    Ok(())
}

/// Several clients at one listener, and addresses that are refused.
pub fn listeners(g: &mut Gen) -> CaseResult {
    sys::start();
    let before = descriptors();
    let (listener, address) = addressed(|| sys::tcp_bind(ANY));
    let (Ok(listener), Some(address)) = (listener, address) else { fail!("bind", "binding to a free port fails") };
    let n = 1 + g.usize(4);
    let mut script = vec![format!("{n} clients")];
    let mut clients: Vec<TcpStream> = (0..n).map(|_| TcpStream::connect(address).expect("connect to a bound socket")).collect();
    let order: Vec<usize> = (0..n).map(|_| g.usize(n)).collect();
    for (i, client) in clients.iter_mut().enumerate() {
        client.write_all(&[b'a' + i as u8; 3]).expect("HARNESS: send");
    }
    let mut accepted = vec![];
    for _ in 0..n {
        match sys::tcp_accept(&listener) {
            Ok(x) => accepted.push(x),
            Err(x) => fail!("accept", "accepting fails: {x}"),
        }
    }
    let mut seen = BTreeSet::new();
    for i in order.into_iter().chain(0..n) {
        if !seen.insert(i) {
            continue;
        }
        let (stream, from) = &accepted[i];
        let Some(k) = clients.iter().position(|x| text(x.local_addr().unwrap()) == *from) else {
            fail!("accept address", "accepted a connection from {:?}, which is no client", String::from_utf8_lossy(from))
        };
        let mut data = vec![];
        while data.len() < 3 {
            match sys::tcp_receive(stream, 3.0 - data.len() as f64) {
                Ok(x) if !x.is_empty() => data.extend(x),
                x => fail!("receive", "receiving from a client gives {x:?}"),
            }
        }
        ensure_eq!(data, vec![b'a' + k as u8; 3], "accept", "bytes of client {k}");
    }
    // Addresses that cannot be used.
    let bad: Vec<u8> = match g.below(4) {
        0 => g.pick(&["", "127.0.0.1", "127.0.0.1:x", "127.0.0.1:70000", "[::1", ":::1:", "127.0.0.1:-1", "127.0.0.1:80:80"]).as_bytes().to_vec(),
        1 => vec![b'1', 0xff],
        2 => text(address),
        _ => {
            // A socket that does not listen.
            let mute = UdpSocket::bind("127.0.0.1:0").expect("HARNESS: bind");
            let port = mute.local_addr().unwrap().port();
            let held = hold(port);
            let x = text(SocketAddrV4::new(Ipv4Addr::LOCALHOST, port).into());
            if held.is_some() {
                script.push("connect to a port that is not listened to".into());
                ensure!(sys::tcp_connect(&x).is_err(), "refused", "connecting to {} succeeds", String::from_utf8_lossy(&x));
                g.label("refused");
            }
            vec![]
        }
    };
    if bad == text(address) {
        script.push("bind twice".into());
        ensure!(sys::tcp_bind(&bad).is_err(), "bind twice", "a port is bound twice");
        g.label("bound twice");
    } else {
        script.push(format!("address {:?}", String::from_utf8_lossy(&bad)));
        ensure!(sys::tcp_bind(&bad).is_err(), "invalid address", "binding to {:?} succeeds", String::from_utf8_lossy(&bad));
        ensure!(sys::tcp_connect(&bad).is_err(), "invalid address", "connecting to {:?} succeeds", String::from_utf8_lossy(&bad));
        ensure!(sys::udp_bind(&bad).is_err(), "invalid address", "binding a datagram socket to {:?} succeeds", String::from_utf8_lossy(&bad));
    }
    g.describe(|| script.join("; "));
    if n > 1 {
        g.nontrivial(&script);
    }
    drop(Reset);
    // The sockets are closed with their last handles.
    drop((clients, listener, accepted));
    ensure!(descriptors().is_subset(&before), "open handle", "a socket stays open after its last handle is gone");
    Ok(())
}

/// Binds a stream socket to a port without listening.
fn hold(port: u16) -> Option<Held> {
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        let mut address: libc::sockaddr_in = zeroed();
        address.sin_family = libc::AF_INET as u16;
        address.sin_port = port.to_be();
        address.sin_addr.s_addr = u32::from(Ipv4Addr::LOCALHOST).to_be();
        let held = Held(fd);
        (libc::bind(fd, &address as *const _ as *const _, size_of::<libc::sockaddr_in>() as u32) == 0).then_some(held)
    }
}

struct Held(i32);
impl Drop for Held {
    fn drop(&mut self) {
        unsafe { libc::close(self.0) };
    }
}

pub const DATAGRAM: usize = 512;

pub fn datagrams(g: &mut Gen) -> CaseResult {
    sys::start();
    let mut script = vec![];
    let (socket, address) = addressed(|| sys::udp_bind(ANY));
    let (Ok(socket), Some(address)) = (socket, address) else { fail!("bind", "binding to a free port fails") };
    let (second, second_address) = addressed(|| sys::udp_bind(ANY));
    let (Ok(second), Some(second_address)) = (second, second_address) else { fail!("bind", "binding to a free port fails") };
    let peers: Vec<UdpSocket> = (0..2).map(|_| UdpSocket::bind("127.0.0.1:0").expect("HARNESS: bind")).collect();
    for x in &peers {
        x.set_read_timeout(Some(PATIENCE)).unwrap();
    }
    let tested = [&socket, &second];
    let addresses = [address, second_address];
    let mut connected: [Option<SocketAddr>; 2] = [None, None];
    // Datagrams on the way to the tested sockets and to the peers.
    let mut incoming: [VecDeque<(Vec<u8>, SocketAddr)>; 2] = Default::default();
    let mut outgoing: [VecDeque<(Vec<u8>, SocketAddr)>; 2] = Default::default();
    let mut received = 0;
    let result = (|| -> CaseResult {
        for _ in 0..2 + g.len(25) {
            let (i, k) = (g.usize(2), g.usize(2));
            let data = match g.weighted(&[6, 2, 1]) {
                0 => g.bytes(20),
                1 => vec![g.below(256) as u8; g.usize(DATAGRAM + 1)],
                _ => vec![g.below(256) as u8; DATAGRAM],
            };
            match g.weighted(&[4, 4, 6, 3, 2, 1]) {
                0 if incoming[i].len() < 20 => {
                    script.push(format!("peer {k} sends {} bytes to {i}", data.len()));
                    peers[k].send_to(&data, addresses[i]).expect("HARNESS: send");
                    let from = peers[k].local_addr().unwrap();
                    if connected[i].is_none_or(|x| x == from) {
                        incoming[i].push_back((data, from));
                    } else {
                        g.label("not from the peer");
                    }
                }
                1 => {
                    // To a peer or to the other tested socket.
                    let (to, queue) = if g.chance(2, 3) { (peers[k].local_addr().unwrap(), &mut outgoing[k]) } else { (addresses[1 - i], &mut incoming[1 - i]) };
                    if queue.len() >= 20 || connected[i].is_some() {
                        continue;
                    }
                    script.push(format!("{i} sends {} bytes to {to}", data.len()));
                    let count = match sys::udp_send_to(tested[i], &data, &text(to)) {
                        Ok(x) => x,
                        Err(x) => fail!("send", "sending fails: {x}"),
                    };
                    ensure_eq!(count, data.len() as f64, "send count", "of {} bytes", data.len());
                    if to == addresses[1 - i] && connected[1 - i].is_some() {
                        // Dropped, for the other socket listens to its peer only.
                    } else {
                        queue.push_back((data, addresses[i]));
                    }
                }
                2 => {
                    if !incoming[i].is_empty() {
                        let (expected, from) = incoming[i].pop_front().unwrap();
                        let (data, address) = if g.bool() {
                            script.push(format!("{i} receives"));
                            (sys::udp_receive(tested[i]), None)
                        } else {
                            script.push(format!("{i} receives with address"));
                            match sys::udp_receive_from(tested[i]) {
                                Ok((x, y)) => (Ok(x), Some(y)),
                                Err(x) => (Err(x), None),
                            }
                        };
                        match data {
                            Ok(x) => ensure!(x == expected, "receive", "{} bytes {:?} instead of {} bytes {:?}", x.len(), &x[..x.len().min(20)], expected.len(), &expected[..expected.len().min(20)]),
                            Err(x) => fail!("receive", "receiving fails: {x}"),
                        }
                        if let Some(x) = address {
                            ensure_eq!(String::from_utf8_lossy(&x), from.to_string(), "sender", "address of a datagram");
                        }
                        received += 1;
                    } else if !outgoing[k].is_empty() {
                        script.push(format!("peer {k} receives"));
                        peer_receive(&peers[k], &mut outgoing[k])?;
                        received += 1;
                    }
                }
                3 => {
                    let Some(to) = connected[i] else { continue };
                    let Some(k) = peers.iter().position(|x| x.local_addr().unwrap() == to) else { continue };
                    if outgoing[k].len() >= 20 {
                        continue;
                    }
                    script.push(format!("{i} sends {} bytes to its peer", data.len()));
                    let count = match sys::udp_send(tested[i], &data) {
                        Ok(x) => x,
                        Err(x) => fail!("send", "sending fails: {x}"),
                    };
                    ensure_eq!(count, data.len() as f64, "send count", "of {} bytes", data.len());
                    outgoing[k].push_back((data, addresses[i]));
                }
                4 if incoming[i].is_empty() => {
                    g.label_if(connected[i].is_some(), "connected again");
                    let to = peers[k].local_addr().unwrap();
                    script.push(format!("connect {i} to peer {k}"));
                    match sys::udp_connect(tested[i], &text(to)) {
                        Ok(()) => connected[i] = Some(to),
                        Err(x) => fail!("connect", "connecting a datagram socket fails: {x}"),
                    }
                    g.label("connected");
                }
                _ => {
                    if connected[i].is_none() {
                        script.push(format!("{i} sends without a peer"));
                        ensure!(sys::udp_send(tested[i], &data).is_err(), "send", "sending without a peer succeeds");
                    }
                    let bad = g.pick(&["", "127.0.0.1", "127.0.0.1:x", "127.0.0.1:70000"]).as_bytes();
                    script.push(format!("send to {:?}", String::from_utf8_lossy(bad)));
                    ensure!(sys::udp_send_to(tested[i], &data, bad).is_err(), "invalid address", "sending to {:?} succeeds", String::from_utf8_lossy(bad));
                    ensure!(sys::udp_bind(&text(addresses[i])).is_err(), "bind twice", "a port is bound twice");
                }
            }
        }
        for k in 0..2 {
            while !outgoing[k].is_empty() {
                peer_receive(&peers[k], &mut outgoing[k])?;
                received += 1;
            }
        }
        for i in 0..2 {
            while let Some((expected, from)) = incoming[i].pop_front() {
                match sys::udp_receive_from(tested[i]) {
                    Ok((x, address)) => {
                        ensure!(x == expected, "receive", "{} bytes instead of {}", x.len(), expected.len());
                        ensure_eq!(String::from_utf8_lossy(&address), from.to_string(), "sender", "address of a datagram");
                    }
                    Err(x) => fail!("receive", "receiving fails: {x}"),
                }
            }
        }
        Ok(())
    })();
    g.describe(|| script.join("; "));
    if received > 1 {
        g.nontrivial(&script);
    }
    result
}

fn peer_receive(peer: &UdpSocket, queue: &mut VecDeque<(Vec<u8>, SocketAddr)>) -> CaseResult {
    let (expected, from) = queue.pop_front().unwrap();
    let mut buffer = [0; 2000];
    match peer.recv_from(&mut buffer) {
        Ok((n, address)) => {
            ensure!(buffer[..n] == expected, "send", "{n} bytes arrive instead of {}", expected.len());
            ensure_eq!(address, from, "send", "sender");
        }
        Err(x) => fail!("send", "a datagram that has been sent does not arrive: {x}"),
    }
    Ok(())
}

//! Messages of HTTP/1.1 as bytes, read and written independently of the code under test.

use crate::values::Map;
use std::io::{BufRead, BufReader, Read};
use std::net::TcpStream;

#[derive(Clone, Debug)]
pub struct Message {
    /// The three parts of the first line.
    pub start: [Vec<u8>; 3],
    pub headers: Map,
    pub body: Vec<u8>,
}

impl Message {
    pub fn header(&self, name: &str) -> Option<&[u8]> {
        self.headers.iter().find(|(x, _)| x.eq_ignore_ascii_case(name.as_bytes())).map(|(_, x)| x.as_slice())
    }
}

fn line(reader: &mut BufReader<&TcpStream>) -> Result<Option<Vec<u8>>, String> {
    let mut line = vec![];
    reader.read_until(b'\n', &mut line).map_err(|x| format!("reading a line: {x}"))?;
    if line.is_empty() {
        return Ok(None);
    }
    if !line.ends_with(b"\r\n") {
        return Err(format!("the line {:?} does not end", String::from_utf8_lossy(&line)));
    }
    line.truncate(line.len() - 2);
    Ok(Some(line))
}

fn trim(x: &[u8]) -> &[u8] {
    let blank = |x: &u8| *x == b' ' || *x == b'\t';
    let start = x.iter().position(|x| !blank(x)).unwrap_or(x.len());
    let end = x.iter().rposition(|x| !blank(x)).map_or(start, |i| i + 1);
    &x[start..end]
}

/// Reads a message, if there is one before the end.
pub fn read(reader: &mut BufReader<&TcpStream>, response: bool, no_body: bool) -> Result<Option<Message>, String> {
    let Some(first) = line(reader)? else { return Ok(None) };
    let parts: Vec<Vec<u8>> = first.splitn(3, |x| *x == b' ').map(|x| x.to_vec()).collect();
    let start: [Vec<u8>; 3] = parts.try_into().map_err(|_| format!("the first line {:?} has not three parts", String::from_utf8_lossy(&first)))?;
    let mut headers = vec![];
    loop {
        let Some(line) = line(reader)? else { return Err("headers do not end".into()) };
        if line.is_empty() {
            break;
        }
        let Some(colon) = line.iter().position(|x| *x == b':') else { return Err(format!("the header {:?} has no colon", String::from_utf8_lossy(&line))) };
        headers.push((line[..colon].to_vec(), trim(&line[colon + 1..]).to_vec()));
    }
    let mut message = Message { start, headers, body: vec![] };
    if no_body {
        return Ok(Some(message));
    }
    let chunked = message.header("transfer-encoding").is_some_and(|x| x.eq_ignore_ascii_case(b"chunked"));
    let length = message.header("content-length").map(|x| String::from_utf8_lossy(x).into_owned());
    let take = |reader: &mut BufReader<&TcpStream>, body: &mut Vec<u8>, n: usize| -> Result<(), String> {
        let m = body.len();
        body.resize(m + n, 0);
        reader.read_exact(&mut body[m..]).map_err(|x| format!("reading {n} bytes of a body: {x}"))
    };
    if chunked {
        loop {
            let Some(line) = line(reader)? else { return Err("chunks do not end".into()) };
            let n = usize::from_str_radix(String::from_utf8_lossy(&line).split(';').next().unwrap().trim(), 16).map_err(|_| "size of a chunk".to_string())?;
            take(reader, &mut message.body, n)?;
            let end = self::line(reader)?;
            if end != Some(vec![]) {
                return Err("the end of a chunk is missing".into());
            }
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = length {
        let n = n.parse().map_err(|_| "length of a body".to_string())?;
        take(reader, &mut message.body, n)?;
    } else if response {
        reader.read_to_end(&mut message.body).map_err(|x| format!("reading a body: {x}"))?;
    }
    Ok(Some(message))
}

/// How the end of a body is told.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Framing {
    Length,
    Chunks(usize),
    Close,
}

pub fn write(start: &[u8], headers: &[(Vec<u8>, Vec<u8>)], body: &[u8], framing: Option<Framing>) -> (Vec<u8>, Map) {
    let mut bytes = [start, b"\r\n"].concat();
    let mut all = headers.to_vec();
    match framing {
        Some(Framing::Length) => all.push((b"Content-Length".to_vec(), body.len().to_string().into())),
        Some(Framing::Chunks(_)) => all.push((b"Transfer-Encoding".to_vec(), b"chunked".to_vec())),
        Some(Framing::Close) => all.push((b"Connection".to_vec(), b"close".to_vec())),
        None => {}
    }
    for (name, value) in &all {
        bytes.extend([name, &b": "[..], value, b"\r\n"].concat());
    }
    bytes.extend(b"\r\n");
    match framing {
        Some(Framing::Chunks(n)) => {
            for chunk in body.chunks(n) {
                bytes.extend(format!("{:x}\r\n", chunk.len()).as_bytes());
                bytes.extend(chunk);
                bytes.extend(b"\r\n");
            }
            bytes.extend(b"0\r\n\r\n");
        }
        Some(_) => bytes.extend(body),
        None => {}
    }
    (bytes, all)
}

//! A program that runs a script: what compiled programs would do with their standard streams and environment.
//!
//! The script is in the file that VERIF_SCRIPT names. What the program sees goes to a file next to it.

use crate::{sys, values};
use std::fmt::Write;

pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().fold(String::from("x"), |mut s, x| {
        write!(s, "{x:02x}").unwrap();
        s
    })
}

pub fn unhex(text: &str) -> Vec<u8> {
    let digits = &text.as_bytes()[1..];
    digits.chunks(2).map(|x| u8::from_str_radix(std::str::from_utf8(x).unwrap(), 16).unwrap()).collect()
}

fn show(x: values::Outcome<Vec<u8>>) -> String {
    match x {
        Ok(x) => hex(&x),
        Err(_) => "error".into(),
    }
}

fn write_all(f: impl Fn(&[u8]) -> values::Outcome<f64>, data: &[u8]) -> String {
    let mut rest = data;
    loop {
        match f(rest) {
            Err(_) => return "error".into(),
            Ok(n) if n.fract() != 0.0 || n < 0.0 || n > rest.len() as f64 || n == 0.0 && !rest.is_empty() => {
                return format!("{n} bytes of {} written", rest.len())
            }
            Ok(n) => rest = &rest[n as usize..],
        }
        if rest.is_empty() {
            return "written".into();
        }
    }
}

extern "C" {
    fn _pen_debug(message: ffi::ByteString);
}

/// Runs the script, and gives what the program sees.
pub fn run() {
    if let Some(path) = std::env::args_os().nth(1).as_ref().and_then(|x| x.to_str()).and_then(|x| x.strip_prefix("--dump=")) {
        let all: Vec<String> = crate::list(unsafe { sys::_pen_os_get_arguments() }).iter().map(|x| hex(x)).collect();
        std::fs::write(path, all.join(" ")).unwrap();
        return;
    }
    let path = std::env::var("VERIF_SCRIPT").expect("script");
    let script = std::fs::read_to_string(&path).expect("script");
    let report = format!("{path}.report");
    let mut lines = String::new();
    for line in script.lines() {
        let words: Vec<&str> = line.split(' ').collect();
        let seen = match words[0] {
            "out" => write_all(sys::write_stdout, &unhex(words[1])),
            "err" => write_all(sys::write_stderr, &unhex(words[1])),
            "debug" => {
                unsafe { _pen_debug(unhex(words[1]).as_slice().into()) };
                "done".into()
            }
            "together" => sys::write_stdouts(&words[1..].iter().map(|x| unhex(x)).collect::<Vec<_>>()),
            "in" => show(sys::read_part_stdin(words[1].parse().unwrap())),
            "all" => show(sys::read_stdin()),
            "arguments" => crate::list(unsafe { sys::_pen_os_get_arguments() }).iter().map(|x| hex(x)).collect::<Vec<_>>().join(" "),
            "variable" => show(values::bytes(unsafe { sys::_pen_os_get_environment_variable(unhex(words[1]).as_slice().into()) })),
            "run" => {
                let arguments: Vec<ffi::ByteString> = words[2..].iter().map(|x| unhex(x).as_slice().into()).collect();
                match sys::run_command(&unhex(words[1]), arguments.into()) {
                    Ok(()) => "done".into(),
                    Err(_) => "error".into(),
                }
            }
            "sleep" => {
                let start = std::time::Instant::now();
                sys::sleep(words[1].parse().unwrap());
                format!("{}", start.elapsed().as_secs_f64() * 1000.0)
            }
            "time" => {
                let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis();
                let before = now();
                let time = f64::from(unsafe { sys::_pen_os_get_time() });
                format!("{before} {time} {}", now())
            }
            "exit" => {
                std::fs::write(&report, &lines).unwrap();
                sys::exit(words[1].parse().unwrap());
                "goes on".into()
            }
            x => panic!("HARNESS: {x}"),
        };
        writeln!(lines, "{seen}").unwrap();
    }
    std::fs::write(&report, lines).unwrap();
}

//! P15 and P17: standard streams, arguments, environment, commands and exit codes of programs.

use crate::script::{hex, unhex};
use pbt::{ensure, ensure_eq, fail, CaseResult, Gen};
use std::ffi::{OsStr, OsString};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn program() -> PathBuf {
    let path = std::env::current_exe().unwrap();
    let mut name = path.file_name().unwrap().to_owned();
    name.push("-app");
    path.with_file_name(name)
}

fn text(g: &mut Gen, most: usize) -> Vec<u8> {
    let n = g.len(most);
    let binary = g.chance(1, 4);
    (0..n)
        .flat_map(|_| match g.weighted(&[6, 2, 2, if binary { 6 } else { 0 }]) {
            0 => vec![b'a' + g.below(26) as u8],
            1 => g.pick(&["\n", " ", "\r\n", "\t", "-", "="]).as_bytes().to_vec(),
            2 => g.pick(&["é", "あ", "💖"]).as_bytes().to_vec(),
            _ => vec![g.below(256) as u8],
        })
        .collect()
}

fn argument(g: &mut Gen) -> Vec<u8> {
    let mut x = match g.weighted(&[1, 1, 6]) {
        0 => vec![],
        1 => g.pick(&[&b"--help"[..], b"-", b"--", b"*", b"$HOME", b"'", b"\"", b"a b", b"\\n", b"\xff\xfe"]).to_vec(),
        _ => text(g, 12),
    };
    x.retain(|&x| x != 0);
    if x.starts_with(b"--dump") {
        x.clear()
    }
    x
}

#[derive(Clone, Debug, Hash)]
enum Step {
    Out(Vec<u8>),
    Err(Vec<u8>),
    Debug(String),
    Together(Vec<Vec<u8>>),
    In(usize),
    All,
    Arguments,
    Variable(Vec<u8>),
    Run(Vec<Vec<u8>>),
    RunMissing,
    Sleep(i64),
    Time,
}

/// Pieces that are told apart by their first byte and have no bytes in common.
fn pieces(g: &mut Gen) -> Vec<Vec<u8>> {
    (0..2 + g.usize(5)).map(|i| vec![b'A' + i as u8; 1 + g.len(2000)]).collect()
}

fn piece(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 20) {
        let n = 1000 + g.usize(200_000);
        let seed = text(g, 20);
        (0..n).map(|i| if seed.is_empty() { b'x' } else { seed[i % seed.len()] }).collect()
    } else {
        text(g, 40)
    }
}

#[derive(Debug, Clone, Copy, Hash, PartialEq)]
enum Streams {
    Apart,
    /// Standard output and error go to the same place.
    Joined,
    /// Standard output and error are files.
    Files,
}

fn io(file: std::fs::File) -> Stdio {
    Stdio::from(file)
}

fn pipe() -> (std::fs::File, std::fs::File) {
    let mut ends = [0; 2];
    assert_eq!(unsafe { libc::pipe2(ends.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "HARNESS: pipe");
    unsafe { (std::fs::File::from_raw_fd(ends[0]), std::fs::File::from_raw_fd(ends[1])) }
}

pub fn programs(g: &mut Gen, commands: bool) -> CaseResult {
    let scratch = pbt::scratch();
    let script = scratch.join("script");
    let report = scratch.join("script.report");
    let dump = scratch.join("dump");
    let arguments: Vec<Vec<u8>> = (0..g.len(5)).map(|_| argument(g)).collect();
    let names: [&[u8]; 4] = [b"A", b"LONGER_NAME", b"lower", "é".as_bytes()];
    let mut variables: Vec<(&[u8], Vec<u8>)> = vec![];
    for name in names {
        if g.bool() {
            let mut value = text(g, 20);
            value.retain(|&x| x != 0);
            variables.push((name, String::from_utf8_lossy(&value).into_owned().into_bytes()));
        }
    }
    let input = if g.bool() { piece(g) } else { text(g, 60) };
    let slow_input = g.chance(1, 4);
    let streams = [Streams::Apart, Streams::Joined, Streams::Files][g.weighted(&[3, 2, 1])];
    let mut steps = vec![];
    for _ in 0..g.len(10) {
        steps.push(match g.weighted(&[8, 5, 2, 2, 5, 2, 3, 4, if commands { 1 } else { 0 }, if commands { 1 } else { 0 }, 1, 1]) {
            0 => Step::Out(piece(g)),
            1 => Step::Err(piece(g)),
            2 => Step::Debug(String::from_utf8_lossy(&text(g, 20)).into_owned()),
            3 => Step::Together(pieces(g)),
            4 => Step::In(match g.below(4) {
                0 => g.usize(4),
                1 => g.usize(40),
                2 => 100_000,
                _ => 1 << 30,
            }),
            5 => Step::All,
            6 => Step::Arguments,
            7 => Step::Variable(match g.weighted(&[6, 1, 1, 1, 1]) {
                0 => g.pick(&names).to_vec(),
                1 => vec![],
                2 => b"A=B".to_vec(),
                3 => b"A\0".to_vec(),
                _ => b"\xff".to_vec(),
            }),
            8 => Step::Run((0..g.len(5)).map(|_| argument(g)).filter(|x| std::str::from_utf8(x).is_ok()).collect()),
            9 => Step::RunMissing,
            10 => Step::Sleep(*g.pick(&[0, 5, 10, 37, -10])),
            _ => Step::Time,
        });
    }
    let code = if g.chance(2, 3) { Some(*g.pick(&[0.0, 1.0, 2.0, 42.0, 127.0, 128.0, 255.0, 256.0, -1.0, 300.0])) } else { None };
    g.describe(|| format!("arguments {:?}, variables {variables:?}, input of {} bytes{}, {streams:?}, {steps:?}, exit {code:?}", arguments.iter().map(|x| String::from_utf8_lossy(x)).collect::<Vec<_>>(), input.len(), if slow_input { " in parts" } else { "" }));
    if steps.len() > 2 {
        g.nontrivial(&(&arguments, &input, &steps, streams));
    }
    g.label(format!("{streams:?}"));
    g.label_if(code.is_some(), "exit code");
    for x in &steps {
        g.label(format!("{x:?}").split(['(', ' ']).next().unwrap().to_owned());
    }

    let lines: Vec<String> = steps
        .iter()
        .map(|x| match x {
            Step::Out(x) => format!("out {}", hex(x)),
            Step::Err(x) => format!("err {}", hex(x)),
            Step::Debug(x) => format!("debug {}", hex(x.as_bytes())),
            Step::Together(x) => format!("together {}", x.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" ")),
            Step::In(n) => format!("in {n}"),
            Step::All => "all".into(),
            Step::Arguments => "arguments".into(),
            Step::Variable(x) => format!("variable {}", hex(x)),
            Step::Run(x) => {
                let dump = format!("--dump={}", dump.display());
                let mut words = vec!["run".into(), hex(program().as_os_str().as_bytes()), hex(dump.as_bytes())];
                words.extend(x.iter().map(|x| hex(x)));
                words.join(" ")
            }
            Step::RunMissing => format!("run {}", hex(scratch.join("missing").as_os_str().as_bytes())),
            Step::Sleep(x) => format!("sleep {}", *x as f64 / 10.0),
            Step::Time => "time".into(),
        })
        .chain(code.map(|x| format!("exit {x}")))
        .collect();
    std::fs::write(&script, lines.join("\n")).unwrap();
    std::fs::remove_file(&report).ok();
    std::fs::remove_file(&dump).ok();

    let mut command = Command::new(program());
    command.args(arguments.iter().map(|x| OsStr::from_bytes(x))).env_clear().env("VERIF_SCRIPT", &script).envs(variables.iter().map(|(x, y)| (OsStr::from_bytes(x), OsString::from_vec(y.clone()))));
    command.stdin(Stdio::piped());
    let files = (scratch.join("out"), scratch.join("err"));
    let mut readers = vec![];
    match streams {
        Streams::Apart => {
            for i in 0..2 {
                let (r, w) = pipe();
                readers.push(r);
                if i == 0 { command.stdout(io(w)) } else { command.stderr(io(w)) };
            }
        }
        Streams::Joined => {
            let (r, w) = pipe();
            readers.push(r);
            command.stdout(io(w.try_clone().unwrap())).stderr(io(w));
        }
        Streams::Files => {
            command.stdout(io(std::fs::File::create(&files.0).unwrap())).stderr(io(std::fs::File::create(&files.1).unwrap()));
        }
    }
    use std::os::unix::process::CommandExt;
    // Programs do not outlive a worker that is ended.
    unsafe {
        command.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        })
    };
    let mut child = command.spawn().expect("HARNESS: spawn");
    drop(command);
    let stdin = child.stdin.take().unwrap();
    let (outputs, status) = std::thread::scope(|scope| {
        let input = &input;
        // Its end closes the pipe, which is the end of the input.
        scope.spawn(move || {
            let mut stdin = stdin;
            if slow_input {
                for x in input.chunks(input.len() / 3 + 1) {
                    std::thread::sleep(std::time::Duration::from_millis(2));
                    if stdin.write_all(x).is_err() {
                        break;
                    }
                }
            } else {
                stdin.write_all(input).ok();
            }
        });
        let threads: Vec<_> = readers
            .iter_mut()
            .map(|x| {
                scope.spawn(move || {
                    let mut bytes = vec![];
                    x.read_to_end(&mut bytes).unwrap();
                    bytes
                })
            })
            .collect();
        let outputs: Vec<Vec<u8>> = threads.into_iter().map(|x| x.join().unwrap()).collect();
        (outputs, child.wait().unwrap())
    });
    let outputs = if streams == Streams::Files { vec![std::fs::read(&files.0).unwrap(), std::fs::read(&files.1).unwrap()] } else { outputs };
    check(&steps, code, &arguments, &variables, &input, streams, &outputs, status, &report, &dump)
}

#[allow(clippy::too_many_arguments)]
fn check(steps: &[Step], code: Option<f64>, arguments: &[Vec<u8>], variables: &[(&[u8], Vec<u8>)], input: &[u8], streams: Streams, outputs: &[Vec<u8>], status: std::process::ExitStatus, report: &Path, dump: &Path) -> CaseResult {
    if let Some(signal) = status.signal() {
        fail!("crash", "the program ends by signal {signal}: {}", String::from_utf8_lossy(outputs.last().unwrap()));
    }
    let Ok(report) = std::fs::read_to_string(report) else {
        fail!("crash", "the program ends with {status} before its script does: {}", String::from_utf8_lossy(outputs.last().unwrap()))
    };
    ensure_eq!(status.code(), Some(code.unwrap_or(0.0) as i32 & 255), "exit code", "exit code");
    let seen: Vec<&str> = report.split('\n').collect();
    let mut rest = input;
    // Expected bytes of standard output and error, or of both.
    let mut expected: [Vec<u8>; 2] = Default::default();
    // Pieces in any order at some place of an output.
    let mut mixed: Vec<(usize, usize, &Vec<Vec<u8>>)> = vec![];
    let target = |x: usize| if streams == Streams::Joined { 0 } else { x };
    for (i, step) in steps.iter().enumerate() {
        let seen = seen[i];
        match step {
            Step::Out(x) => {
                ensure_eq!(seen, "written", "write", "writing to the standard output");
                expected[0].extend(x);
            }
            Step::Err(x) => {
                ensure_eq!(seen, "written", "write", "writing to the standard error");
                expected[target(1)].extend(x);
            }
            Step::Debug(x) => expected[target(1)].extend(format!("{x}\n").bytes()),
            Step::Together(all) => {
                let counts: Vec<&str> = seen.split(' ').collect();
                ensure_eq!(counts.len(), all.len(), "write", "results of writing at the same time");
                for (n, x) in counts.iter().zip(all) {
                    ensure_eq!(*n, x.len().to_string(), "write", "bytes written of {}", x.len());
                }
                let n = all.iter().map(Vec::len).sum();
                mixed.push((expected[0].len(), n, all));
                expected[0].extend(std::iter::repeat_n(0, n));
            }
            Step::In(n) => {
                ensure!(seen != "error", "read", "reading from the standard input fails");
                let x = unhex(seen);
                ensure!(x.len() <= *n, "read limit", "{} bytes are read with a limit of {n}", x.len());
                ensure!(rest.starts_with(&x), "input", "the standard input gives other bytes than those it has");
                ensure!(!x.is_empty() || *n == 0 || rest.is_empty(), "early end", "the standard input ends {} bytes early", rest.len());
                rest = &rest[x.len()..];
            }
            Step::All => {
                ensure!(seen != "error", "read", "reading from the standard input fails");
                let x = unhex(seen);
                ensure!(x == rest, "input", "the standard input gives {} bytes where it has {}", x.len(), rest.len());
                rest = &[];
            }
            Step::Arguments => {
                let all = arguments.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" ");
                ensure_eq!(seen, all, "arguments", "arguments");
            }
            Step::Variable(name) => {
                let value = variables.iter().find(|(x, _)| x == name).map_or("error".into(), |(_, x)| hex(x));
                ensure_eq!(seen, value, "variable", "variable {:?}", String::from_utf8_lossy(name));
            }
            Step::Run(x) => {
                ensure_eq!(seen, "done", "command", "running a command");
                let Ok(found) = std::fs::read_to_string(dump) else { fail!("command", "a command has not been run") };
                let last = steps.iter().rposition(|x| matches!(x, Step::Run(_)));
                if last == Some(i) {
                    let dump = format!("--dump={}", dump.display());
                    let all = std::iter::once(hex(dump.as_bytes())).chain(x.iter().map(|x| hex(x))).collect::<Vec<_>>().join(" ");
                    ensure_eq!(found, all, "command arguments", "arguments of a command");
                }
            }
            Step::RunMissing => ensure_eq!(seen, "error", "missing command", "running a command that is not there"),
            Step::Sleep(n) => {
                let time: f64 = seen.parse().unwrap();
                ensure!(time >= (n / 10) as f64, "sleep", "sleeping for {n} tenths of a millisecond takes {time} ms");
            }
            Step::Time => {
                let x: Vec<f64> = seen.split(' ').map(|x| x.parse().unwrap()).collect();
                ensure!(x[0] <= x[1] && x[1] <= x[2], "time", "the time is {} when it is from {} to {}", x[1], x[0], x[2]);
            }
        }
    }
    ensure!(code.is_none() || seen.iter().all(|x| *x != "goes on"), "exit", "the program goes on after its exit");
    for (i, found) in outputs.iter().enumerate() {
        let name = match (streams, i) {
            (Streams::Joined, _) => "standard output and error",
            (_, 0) => "standard output",
            _ => "standard error",
        };
        let mut found = found.clone();
        ensure_eq!(found.len(), expected[i].len(), "output length", "bytes of the {name}");
        for &(at, n, all) in mixed.iter().filter(|_| i == 0) {
            let part = &mut found[at..at + n];
            let mut place = 0;
            let mut left: Vec<&Vec<u8>> = all.iter().collect();
            while place < n {
                let Some(k) = left.iter().position(|x| part[place..].starts_with(x)) else {
                    fail!("mixed", "pieces written at the same time are mixed up")
                };
                place += left.remove(k).len();
            }
            part.fill(0);
        }
        if found != expected[i] {
            let at = found.iter().zip(&expected[i]).position(|(x, y)| x != y).unwrap();
            fail!("output", "the {name} has other bytes than those written from byte {at} on");
        }
    }
    Ok(())
}

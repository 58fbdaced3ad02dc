//! Programs the tool calls, played by this program under their names.
use std::{
    collections::BTreeMap,
    fs,
    path::Path,
    process::exit,
};

/// Members of an archive by name. The order of members does not matter to linkers.
pub type Archive = BTreeMap<String, Vec<u8>>;

pub fn read_archive(bytes: &[u8]) -> Option<Archive> {
    let mut archive = Archive::new();
    let mut rest = bytes;
    while !rest.is_empty() {
        let end = rest.iter().position(|byte| *byte == b'\n')?;
        let line = std::str::from_utf8(&rest[..end]).ok()?;
        let (length, name) = line.split_once(' ')?;
        let length = length.parse::<usize>().ok()?;
        let body = rest.get(end + 1..end + 1 + length)?;
        archive.insert(name.into(), body.into());
        rest = &rest[end + 1 + length..];
    }
    Some(archive)
}

pub fn write_archive(archive: &Archive) -> Vec<u8> {
    let mut bytes = vec![];
    for (name, body) in archive {
        bytes.extend(format!("{} {name}\n", body.len()).as_bytes());
        bytes.extend(body);
    }
    bytes
}

fn option(words: &[String], name: &str) -> Option<String> {
    words.iter().position(|word| word == name).and_then(|index| words.get(index + 1).cloned())
}

fn fail(message: impl std::fmt::Display) -> ! {
    eprintln!("{message}");
    exit(1)
}

fn read(path: &str) -> Vec<u8> {
    fs::read(path).unwrap_or_else(|error| fail(format!("{path}: {error}")))
}

fn write(path: &str, bytes: &[u8]) {
    if let Some(directory) = Path::new(path).parent() {
        let _ = fs::create_dir_all(directory);
    }
    fs::write(path, bytes).unwrap_or_else(|error| fail(format!("{path}: {error}")))
}

fn translate(name: &str, words: &[String]) {
    let output = option(words, "-o").unwrap_or_else(|| fail("no output"));
    let input = words.last().unwrap();
    let mut bytes = format!("{name}\n").into_bytes();
    if let Some(target) = option(words, "-mtriple") {
        bytes.extend(format!("for {target}\n").as_bytes());
    }
    bytes.extend(read(input));
    write(&output, &bytes);
}

fn archive(words: &[String]) {
    let [operation, output, inputs @ ..] = words else { fail("ar: arguments") };
    if operation != "crs" {
        fail("ar: operation");
    }
    let mut archive = if Path::new(output).exists() {
        read_archive(&read(output)).unwrap_or_else(|| fail("ar: broken archive"))
    } else {
        Archive::new()
    };
    for input in inputs {
        archive.insert(Path::new(input).file_name().unwrap().to_string_lossy().into(), read(input));
    }
    write(output, &write_archive(&archive));
}

/// Puts archives together in order: for each, a line with its length and path, and its contents.
fn link(words: &[String]) {
    let output = option(words, "-o").unwrap_or_else(|| fail("no output"));
    let target = option(words, "-t").unwrap_or_else(|| fail("no target"));
    let mut bytes = format!("target {target}\n").into_bytes();
    let mut index = 0;
    while index < words.len() {
        if words[index].starts_with('-') {
            index += 2;
            continue;
        }
        let body = read(&words[index]);
        bytes.extend(format!("{} {}\n", body.len(), words[index]).as_bytes());
        bytes.extend(body);
        index += 1;
    }
    write(&output, &bytes);
}

/// The compiler of test programs: notes what it is given; the test program tells how it ended by what the case asks for.
fn cargo(words: &[String]) {
    if words.first().map(String::as_str) != Some("build") || !Path::new("Cargo.toml").exists() {
        fail("cargo: arguments");
    }
    let record = std::env::var("TOOL_RECORD").unwrap_or_else(|_| fail("cargo: no record"));
    write(&(record.clone() + "/archives"), std::env::var("PEN_TEST_ARCHIVES").unwrap_or_default().as_bytes());
    write(&(record + "/main.rs"), &read("src/main.rs"));
    write("target/release/test", b"#!/bin/sh\necho test program\nexit ${TOOL_TEST_CODE:-0}\n");
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions("target/release/test", fs::Permissions::from_mode(0o755)).unwrap();
}

/// A clone of a repository: a copy of a directory.
fn clone(words: &[String]) {
    let [operation, url, directory] = words else { fail("git: arguments") };
    let path = url.strip_prefix("git://").unwrap_or_else(|| fail("git: protocol"));
    if operation != "clone" || path.contains("..") {
        fail("git: arguments");
    }
    let source = Path::new(&std::env::var("TOOL_GIT").unwrap_or_default()).join(path);
    if Path::new(directory).exists() {
        fail("git: destination exists");
    }
    let done = std::process::Command::new("cp").arg("-r").arg(source).arg(directory).status();
    if !done.is_ok_and(|status| status.success()) {
        fail("git: no repository");
    }
}

/// Ends the tool and all it runs, as a signal or an outage does.
pub fn kill_group() -> ! {
    unsafe { libc::kill(0, libc::SIGKILL) };
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
    }
}

/// Copies, and stops after as many files as the case asks for.
fn copy(words: &[String]) {
    let limit = std::env::var("TOOL_COPY").ok().and_then(|number| number.parse::<u64>().ok());
    if let (Some(mut limit), [option, source, target]) = (limit, words) {
        if option == "-r" && !Path::new(target).exists() {
            if copy_some(Path::new(source), Path::new(target), &mut limit) {
                return;
            }
            if std::env::var("TOOL_FAIL").is_ok() {
                fail("cp: no space left on device");
            }
            kill_group();
        }
    }
    use std::os::unix::process::CommandExt;
    fail(std::process::Command::new("/bin/cp").args(words).exec());
}

fn copy_some(source: &Path, target: &Path, limit: &mut u64) -> bool {
    if !source.is_dir() {
        if *limit == 0 {
            return false;
        }
        *limit -= 1;
        return fs::copy(source, target).is_ok();
    }
    let _ = fs::create_dir_all(target);
    let mut names = fs::read_dir(source).unwrap().map(|entry| entry.unwrap().file_name()).collect::<Vec<_>>();
    names.sort();
    // The configuration comes first so that the copy looks whole as early as it can.
    names.sort_by_key(|name| name != "pen.json");
    names.iter().all(|name| copy_some(&source.join(name), &target.join(name), limit))
}

/// The compiler of foreign code: an archive with a member that tells what it was made from.
fn foreign(words: &[String]) {
    let [mark, option, target, output] = words else { fail("ffi: arguments") };
    if option != "-t" {
        fail("ffi: arguments");
    }
    write(output, &write_archive(&[("ffi.o".into(), format!("foreign {mark} for {target}\n").into_bytes())].into()));
}

pub const NAMES: &[&str] =
    &["turtle", "opt", "llc", "llvm-ar", "llvm-config", "tool-link", "tool-ffi", "cargo", "git", "cp"];

pub fn run() -> bool {
    let words = std::env::args().collect::<Vec<_>>();
    let name = Path::new(&words[0]).file_name().unwrap().to_string_lossy().into_owned();
    let words = &words[1..];
    match name.as_str() {
        "turtle" => crate::turtle::main(words),
        "opt" | "llc" => translate(&name, words),
        "llvm-ar" => archive(words),
        "llvm-config" => println!("x86_64-pc-linux-gnu"),
        "tool-link" => link(words),
        "tool-ffi" => foreign(words),
        "cargo" => cargo(words),
        "git" => clone(words),
        "cp" => copy(words),
        _ => return false,
    }
    true
}

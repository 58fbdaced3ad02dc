//! P07, P08: histories of file operations, each done on a twin directory too with the functions of the operating system.

use crate::sys;
use crate::values::{Handle, Options, Outcome};
use pbt::{ensure, ensure_eq, fail, CaseResult, Gen};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::fs::{self, File};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

#[derive(Debug, PartialEq, Eq, Clone)]
enum Node {
    File(Vec<u8>),
    Directory,
    Link(PathBuf),
}

type Tree = BTreeMap<Vec<u8>, Node>;

fn tree(root: &Path) -> Tree {
    fn visit(path: &Path, name: &[u8], tree: &mut Tree) {
        for entry in fs::read_dir(path).expect("HARNESS: read scratch directory") {
            let entry = entry.unwrap();
            let mut name = name.to_vec();
            name.push(b'/');
            name.extend(entry.file_name().as_bytes());
            let kind = entry.file_type().unwrap();
            if kind.is_dir() {
                visit(&entry.path(), &name, tree);
                tree.insert(name, Node::Directory);
            } else if kind.is_symlink() {
                tree.insert(name, Node::Link(fs::read_link(entry.path()).unwrap()));
            } else {
                tree.insert(name, Node::File(fs::read(entry.path()).unwrap()));
            }
        }
    }
    let mut t = Tree::new();
    visit(root, b"", &mut t);
    t
}

fn show(tree: &Tree) -> String {
    tree.iter()
        .map(|(name, node)| {
            format!(
                "{} {}",
                String::from_utf8_lossy(name),
                match node {
                    Node::File(x) => format!("= {:?}", String::from_utf8_lossy(&x[..x.len().min(40)])),
                    Node::Directory => "directory".into(),
                    Node::Link(x) => format!("-> {}", x.display()),
                }
            )
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn clear(root: &Path) {
    for entry in fs::read_dir(root).expect("HARNESS: read scratch directory") {
        let entry = entry.unwrap();
        if entry.file_type().unwrap().is_dir() {
            fs::remove_dir_all(entry.path()).expect("HARNESS: clear scratch directory");
        } else {
            fs::remove_file(entry.path()).expect("HARNESS: clear scratch directory");
        }
    }
}

/// The directory of this process: one half for the functions under test, the other one for the twin.
fn roots() -> (PathBuf, PathBuf) {
    let scratch = pbt::scratch();
    let (a, b) = (scratch.join("a"), scratch.join("b"));
    for x in [&a, &b] {
        fs::create_dir_all(x).expect("HARNESS: create scratch directory");
        clear(x);
    }
    (a, b)
}

fn name(g: &mut Gen) -> &'static str {
    g.pick(&["x", "y", "z", "è 1"])
}

/// A path below the root.
fn path(g: &mut Gen) -> Vec<u8> {
    match g.weighted(&[60, 3, 1]) {
        0 => {
            let mut path = String::from(name(g));
            for _ in 0..g.weighted(&[6, 4, 1]) {
                path.push('/');
                path.push_str(name(g));
            }
            path.into_bytes()
        }
        1 => match g.below(5) {
            0 => format!("./{}", name(g)),
            1 => format!("{}//{}", name(g), name(g)),
            2 => format!("{}/../{}", name(g), name(g)),
            3 => format!("{}/", name(g)),
            _ => format!("{}/.", name(g)),
        }
        .into_bytes(),
        _ => match g.below(5) {
            0 => vec![],
            1 => b"x\xff".to_vec(),
            2 => b"x\0y".to_vec(),
            3 => vec![b'a'; 300],
            _ => b"\xc3".to_vec(),
        },
    }
}

fn below(root: &Path, path: &[u8]) -> Vec<u8> {
    if path.is_empty() {
        return vec![];
    }
    let mut x = root.as_os_str().as_bytes().to_vec();
    x.push(b'/');
    x.extend(path);
    x
}

fn os(path: &[u8]) -> &Path {
    Path::new(OsStr::from_bytes(path))
}

/// The expected outcome of an operation on a path, which has to be valid text.
fn on<T>(paths: &[&[u8]], f: impl FnOnce() -> std::io::Result<T>) -> Outcome<T> {
    if paths.iter().any(|x| std::str::from_utf8(x).is_err()) {
        return Err("invalid text".into());
    }
    f().map_err(|error| error.to_string())
}

fn contents(g: &mut Gen, huge: bool) -> Vec<u8> {
    match g.weighted(&[40, 10, 3, if huge { 1 } else { 0 }]) {
        0 => g.bytes(12),
        1 => g.bytes(200),
        2 => vec![g.below(256) as u8; 4000 + g.usize(70_000)],
        _ => vec![g.below(256) as u8; 1_900_000 + g.usize(3_000_000)],
    }
}

fn limit(g: &mut Gen) -> f64 {
    match g.weighted(&[10, 3, 2, 1]) {
        0 => g.below(16) as f64,
        1 => g.below(100_000) as f64,
        2 => g.below(40) as f64 / 4.0,
        _ => *g.pick(&[-1.0, f64::NAN, f64::INFINITY, 1e12, 1e300, 4294967296.0, f64::NEG_INFINITY, 0.0]),
    }
}

fn open_files() -> usize {
    fs::read_dir("/proc/self/fd").map(|x| x.count()).unwrap_or(0)
}

struct Open {
    tested: Handle,
    twin: File,
    options: Options,
}

fn std_options(options: &Options) -> fs::OpenOptions {
    let mut o = fs::OpenOptions::new();
    o.append(options.append)
        .create(options.create)
        .create_new(options.create_new)
        .read(options.read)
        .truncate(options.truncate)
        .write(options.write);
    o
}

macro_rules! same {
    ($tested:expr, $twin:expr, $signature:expr, $what:expr) => {{
        let (x, y) = (&$tested, &$twin);
        match (x, y) {
            (Ok(_), Err(y)) => fail!($signature, "{} succeeds, but is impossible: {y}", $what),
            (Err(x), Ok(_)) => fail!($signature, "{} fails, but is possible: {x}", $what),
            _ => {}
        }
        x.is_ok()
    }};
}

fn options(g: &mut Gen) -> Options {
    match g.weighted(&[3, 2, 2, 2, 3]) {
        0 => Options { read: true, ..Options::default() },
        1 => Options { write: true, create: true, truncate: true, ..Options::default() },
        2 => Options { read: true, write: true, create: true, ..Options::default() },
        3 => Options { append: true, create: g.bool(), read: g.bool(), ..Options::default() },
        _ => Options { append: g.bool(), create: g.bool(), create_new: g.bool(), read: g.bool(), truncate: g.bool(), write: g.bool() },
    }
}

/// What is at the end of a path, so that an operation on one thing twice can be told.
fn identity(path: &[u8]) -> Option<(u64, u64)> {
    fs::metadata(os(path)).ok().map(|x| (x.dev(), x.ino()))
}

pub fn histories(g: &mut Gen) -> CaseResult {
    history(g, false)
}

pub fn large_histories(g: &mut Gen) -> CaseResult {
    history(g, true)
}

fn history(g: &mut Gen, huge: bool) -> CaseResult {
    let (a, b) = roots();
    sys::start();
    let descriptors = open_files();
    let mut script: Vec<String> = vec![];
    // What is there before.
    for _ in 0..g.weighted(&[2, 2, 2, 1]) {
        let path = path(g);
        if path.is_empty() || path.contains(&0) {
            continue;
        }
        let kind = g.weighted(&[4, 4, 2]);
        let data = g.bytes(10);
        let target = name(g);
        for root in [&a, &b] {
            let full = below(root, &path);
            let done = match kind {
                0 => fs::write(os(&full), &data).is_ok(),
                1 => fs::create_dir(os(&full)).is_ok(),
                _ => std::os::unix::fs::symlink(target, os(&full)).is_ok(),
            };
            if done && root == &a {
                script.push(format!("there is {} {}", String::from_utf8_lossy(&path), ["file", "directory", "link"][kind]));
            }
        }
    }
    let mut open: Vec<Open> = vec![];
    let mut expected = tree(&b);
    ensure!(tree(&a) == expected, "HARNESS", "twins differ at the start");
    let mut successes = BTreeSet::new();
    let mut done = 0;
    let n = 1 + g.len(if huge { 12 } else { 30 });
    let result = (|| -> CaseResult {
        for _ in 0..n {
            let before = expected.clone();
            let weights = if open.is_empty() { [10, 0, 0, 0, 2, 3, 2, 1, 2, 4, 2, 0] } else { [6, 4, 6, 10, 2, 3, 2, 1, 2, 3, 2, 3] };
            let operation = g.weighted(&weights);
            let (ok, mutates);
            match operation {
                0 => {
                    let (path, options) = (path(g), options(g));
                    script.push(format!("open {:?} {options:?}", String::from_utf8_lossy(&path)));
                    let tested = sys::open(&below(&a, &path), options);
                    let twin = on(&[&path], || std_options(&options).open(os(&below(&b, &path))));
                    ok = same!(tested, twin, "open", script.last().unwrap());
                    mutates = true;
                    if let (Ok(tested), Ok(twin)) = (tested, twin) {
                        if open.len() >= 4 {
                            let i = g.usize(4);
                            open.swap_remove(i);
                        }
                        open.push(Open { tested, twin, options });
                    }
                }
                1 => {
                    let i = g.usize(open.len());
                    script.push(format!("read #{i}"));
                    let tested = sys::read(&open[i].tested);
                    let mut buffer = vec![];
                    let twin = open[i].twin.read_to_end(&mut buffer).map_err(|x| x.to_string());
                    ok = same!(tested, twin, "read", script.last().unwrap());
                    mutates = false;
                    if let Ok(x) = tested {
                        ensure!(x == buffer, "read", "read {} bytes {:?} instead of {} bytes {:?}", x.len(), clip(&x), buffer.len(), clip(&buffer));
                        if !x.is_empty() {
                            successes.insert("read something");
                        }
                    }
                }
                2 => {
                    let i = g.usize(open.len());
                    let limit = limit(g);
                    script.push(format!("read #{i} up to {limit}"));
                    let tested = sys::read_part(&open[i].tested, limit);
                    let most = if limit > 0.0 { limit.floor() } else { 0.0 };
                    // How much there is at most, and then exactly as much as has been read.
                    let mut buffer = vec![0; tested.as_ref().map(|x| x.len()).unwrap_or(1)];
                    let twin = if most == 0.0 {
                        // Nothing can be read, not even an error is certain.
                        Ok(())
                    } else if buffer.is_empty() {
                        let mut byte = [0];
                        match open[i].twin.read(&mut byte) {
                            Ok(0) => Ok(()),
                            Ok(_) => fail!("read limit", "{} reads nothing before the end", script.last().unwrap()),
                            Err(x) => Err(x.to_string()),
                        }
                    } else if tested.is_err() {
                        open[i].twin.read(&mut [0]).map(drop).map_err(|x| x.to_string())
                    } else {
                        open[i].twin.read_exact(&mut buffer).map_err(|x| x.to_string())
                    };
                    if most > 0.0 || tested.is_ok() {
                        ok = same!(tested, twin, "read limit", script.last().unwrap());
                    } else {
                        ok = false;
                    }
                    mutates = false;
                    if let Ok(x) = tested {
                        ensure!(x.len() as f64 <= most, "read limit", "{} reads {} bytes", script.last().unwrap(), x.len());
                        ensure!(x == buffer, "read limit", "read {:?} instead of {:?}", clip(&x), clip(&buffer));
                    }
                }
                3 => {
                    let i = g.usize(open.len());
                    let data = contents(g, huge);
                    script.push(format!("write {} bytes {:?} to #{i}", data.len(), clip(&data)));
                    let tested = sys::write_file(&open[i].tested, &data);
                    let count = tested.clone().unwrap_or(data.len() as f64);
                    ensure!(count >= 0.0 && count <= data.len() as f64 && count.fract() == 0.0, "write count", "{count} of {} bytes are written", data.len());
                    ensure!(count > 0.0 || data.is_empty(), "write count", "no byte of {} is written", data.len());
                    let twin = if data.is_empty() && tested.is_err() { Err(String::new()) } else { open[i].twin.write_all(&data[..count as usize]).map_err(|x| x.to_string()) };
                    let twin = if data.is_empty() && tested.is_ok() { Ok(()) } else { twin };
                    ok = same!(tested, twin, "write", script.last().unwrap());
                    if ok && open[i].options.append {
                        successes.insert("append");
                    }
                    mutates = true;
                }
                4 | 5 => {
                    let (x, y) = (path(g), path(g));
                    let (what, signature) = if operation == 4 { ("copy", "copy") } else { ("move", "move") };
                    script.push(format!("{what} {:?} to {:?}", String::from_utf8_lossy(&x), String::from_utf8_lossy(&y)));
                    let (ax, ay, bx, by) = (below(&a, &x), below(&a, &y), below(&b, &x), below(&b, &y));
                    if operation == 4 && identity(&bx).is_some() && identity(&bx) == identity(&by) {
                        script.pop();
                        continue;
                    }
                    let (tested, twin) = if operation == 4 {
                        (sys::copy(&ax, &ay), on(&[&x, &y], || fs::copy(os(&bx), os(&by)).map(drop)))
                    } else {
                        (sys::rename(&ax, &ay), on(&[&x, &y], || fs::rename(os(&bx), os(&by))))
                    };
                    ok = same!(tested, twin, signature, script.last().unwrap());
                    mutates = true;
                }
                6 => {
                    let x = path(g);
                    script.push(format!("remove {:?}", String::from_utf8_lossy(&x)));
                    ok = same!(sys::remove(&below(&a, &x)), on(&[&x], || fs::remove_file(os(&below(&b, &x)))), "remove", script.last().unwrap());
                    mutates = true;
                }
                7 => {
                    let x = path(g);
                    script.push(format!("remove directory {:?}", String::from_utf8_lossy(&x)));
                    ok = same!(sys::remove_directory(&below(&a, &x)), on(&[&x], || fs::remove_dir(os(&below(&b, &x)))), "remove directory", script.last().unwrap());
                    mutates = true;
                }
                8 => {
                    let x = path(g);
                    script.push(format!("size of {:?}", String::from_utf8_lossy(&x)));
                    let tested = sys::size(&below(&a, &x));
                    let twin = on(&[&x], || fs::metadata(os(&below(&b, &x))));
                    ok = same!(tested, twin, "size", script.last().unwrap());
                    mutates = false;
                    if let (Ok(tested), Ok(twin)) = (tested, twin) {
                        if twin.is_file() {
                            ensure_eq!(tested, twin.len() as f64, "size", "{}", script.last().unwrap());
                        }
                    }
                }
                9 => {
                    let x = path(g);
                    script.push(format!("create directory {:?}", String::from_utf8_lossy(&x)));
                    ok = same!(sys::create_directory(&below(&a, &x)), on(&[&x], || fs::create_dir(os(&below(&b, &x)))), "create directory", script.last().unwrap());
                    mutates = true;
                }
                10 => {
                    let x = if g.bool() { path(g) } else { b".".to_vec() };
                    script.push(format!("list {:?}", String::from_utf8_lossy(&x)));
                    let tested = sys::entries(&below(&a, &x));
                    let twin = on(&[&x], || fs::read_dir(os(&below(&b, &x)))?.map(|x| Ok(x?.file_name().into_vec())).collect::<std::io::Result<Vec<_>>>());
                    let twin = match twin {
                        Ok(names) if names.iter().any(|x| std::str::from_utf8(x).is_err()) => Err("a name is no text".into()),
                        twin => twin,
                    };
                    ok = same!(tested, twin, "list", script.last().unwrap());
                    mutates = false;
                    if let (Ok(mut tested), Ok(mut twin)) = (tested, twin) {
                        tested.sort();
                        twin.sort();
                        ensure_eq!(tested, twin, "list", "{}", script.last().unwrap());
                        if tested.len() > 1 {
                            successes.insert("list several");
                        }
                    }
                }
                _ => {
                    let i = g.usize(open.len());
                    if g.bool() {
                        script.push(format!("copy and close the handle #{i}"));
                        let copy = open[i].tested.clone();
                        open[i].tested = copy;
                        ok = true;
                    } else {
                        script.push(format!("close #{i}"));
                        open.swap_remove(i);
                        ok = true;
                    }
                    mutates = true;
                }
            }
            done += 1;
            if ok {
                successes.insert(["open", "read", "read limit", "write", "copy", "move", "remove", "remove directory", "size", "create directory", "list", "close"][operation]);
            }
            if mutates {
                expected = tree(&b);
            }
            let found = tree(&a);
            if found != expected {
                fail!("effect", "after {}: {} instead of {}", script.last().unwrap(), show(&found), show(&expected));
            }
            if !ok && found != before {
                fail!("partial effect", "{} fails but changes {} to {}", script.last().unwrap(), show(&before), show(&found));
            }
        }
        Ok(())
    })();
    g.describe(|| script.join("; "));
    for x in &successes {
        g.label(*x);
    }
    if done > 2 && successes.len() > 3 {
        g.nontrivial(&script);
    }
    open.clear();
    result?;
    let mut patience = 0;
    while open_files() > descriptors && patience < 400 {
        std::thread::sleep(std::time::Duration::from_millis(5));
        patience += 1;
    }
    ensure!(open_files() <= descriptors, "open handle", "a file stays open after its last handle is gone");
    clear(&a);
    clear(&b);
    Ok(())
}

fn clip(x: &[u8]) -> String {
    format!("{}{}", String::from_utf8_lossy(&x[..x.len().min(40)]), if x.len() > 40 { ".." } else { "" })
}

/// Operations through one handle at the same time happen one after the other.
pub fn together(g: &mut Gen) -> CaseResult {
    let (a, _) = roots();
    let path = below(&a, b"x");
    let n = 2 + g.usize(4);
    let writing = g.bool();
    g.label(if writing { "writes" } else { "reads" });
    if writing {
        let append = g.bool();
        let data: Vec<Vec<u8>> = (0..n)
            .map(|i| {
                let most = if g.chance(1, 4) { 20_000 } else { 20 };
                vec![b'a' + i as u8; 1 + g.usize(most)]
            })
            .collect();
        g.describe(|| format!("{n} writes of {:?} bytes", data.iter().map(|x| x.len()).collect::<Vec<_>>()));
        g.nontrivial(&data);
        let file = sys::open(&path, Options { append, write: !append, create: true, ..Options::default() }).expect("open");
        let counts = sys::writes(&file, &data);
        let mut expected: BTreeSet<Vec<u8>> = BTreeSet::new();
        for (x, count) in data.iter().zip(&counts) {
            let count = match count {
                Ok(count) => *count,
                Err(x) => fail!("writes together", "a write fails: {x}"),
            };
            ensure!(count > 0.0 && count <= x.len() as f64, "write count", "{count} of {} bytes", x.len());
            expected.insert(x[..count as usize].to_vec());
        }
        drop(file);
        let found = fs::read(os(&path)).unwrap();
        let parts: Vec<Vec<u8>> = found.chunk_by(|x, y| x == y).map(|x| x.to_vec()).collect();
        ensure!(parts.len() == n && parts.iter().cloned().collect::<BTreeSet<_>>() == expected, "writes together", "the file holds {:?}", parts.iter().map(|x| (x[0] as char, x.len())).collect::<Vec<_>>());
    } else {
        let data: Vec<u8> = (0..g.usize(250)).map(|i| i as u8).collect();
        let limits: Vec<usize> = (0..n).map(|_| 1 + g.usize(100)).collect();
        g.describe(|| format!("{} bytes read up to {limits:?}", data.len()));
        g.nontrivial(&(data.len(), &limits));
        fs::write(os(&path), &data).unwrap();
        let file = sys::open(&path, Options { read: true, ..Options::default() }).expect("open");
        let mut parts = vec![];
        for (x, limit) in sys::reads(&file, &limits).into_iter().zip(&limits) {
            let x = match x {
                Ok(x) => x,
                Err(x) => fail!("reads together", "a read fails: {x}"),
            };
            ensure!(x.len() <= *limit, "read limit", "{} bytes instead of {limit}", x.len());
            parts.push(x);
        }
        // The bytes are numbered up to 255; parts that are read in turn join to the start of the file.
        let rest = sys::read(&file).expect("read");
        let total: usize = parts.iter().map(|x| x.len()).sum();
        ensure!(total <= data.len() && rest == data[total..], "reads together", "{total} bytes are read but the rest is {:?}", clip(&rest));
        let mut at = 0;
        let mut left: Vec<Vec<u8>> = parts.into_iter().filter(|x| !x.is_empty()).collect();
        while at < total {
            let Some(i) = left.iter().position(|x| data[at..].starts_with(x)) else { fail!("reads together", "no read gives the bytes from {at} on") };
            at += left.swap_remove(i).len();
        }
        ensure!(at == total, "reads together", "bytes are read twice");
    }
    clear(&a);
    Ok(())
}

//! Commands about sources: `pen format`, `pen document` and `pen create`.
use crate::{
    checks::{self, tail, Runner},
    environment::environment,
    world::{Role, World},
    worlds::{self, Marks, Shape},
};
use pbt::{ensure, ensure_eq, CaseResult, Gen};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    fs,
    path::{Path, PathBuf},
};

type Files = BTreeMap<PathBuf, Vec<u8>>;

fn read_all(directory: &Path) -> Files {
    fn visit(root: &Path, directory: &Path, files: &mut Files) {
        for entry in fs::read_dir(directory).unwrap() {
            let path = entry.unwrap().path();
            if path.is_dir() {
                visit(root, &path, files);
            } else {
                files.insert(path.strip_prefix(root).unwrap().into(), fs::read(&path).unwrap());
            }
        }
    }
    let mut files = Files::new();
    visit(directory, directory, &mut files);
    files
}

/// The same module in other clothes: more space and comments.
fn disguise(g: &mut Gen, text: &str, rate: u64) -> String {
    let mut lines = vec![];
    for line in text.lines() {
        if !g.chance(rate, 8) {
            lines.push(line.to_owned());
            continue;
        }
        match g.below(7) {
            0 => lines.push(format!("{line}  ")),
            1 => lines.push(format!("   {line}")),
            2 => lines.extend([String::new(), String::new(), line.to_owned()]),
            3 => lines.extend(["# comment".to_owned(), line.to_owned()]),
            4 => lines.push(format!("{line} # a remark")),
            5 => lines.push(line.replace("\\() ", "\\(  )\n\t")),
            _ => lines.push(line.replace(" = ", "=").replace(" | ", "|")),
        }
    }
    let mut text = lines.join("\n");
    if !g.chance(rate, 16) {
        text += "\n";
    }
    text
}

/// Module files with what the formatter makes of them; nothing for texts that are no modules.
fn formatted(source: &str) -> Option<String> {
    let module = parse::parse(source, "").ok()?;
    Some(format::format(&module, &parse::parse_comments(source, "").ok()?))
}

/// Modules of the package and files that are none.
fn package(g: &mut Gen, world: &mut World, marks: &mut Marks) -> (Files, BTreeSet<PathBuf>) {
    for _ in 0..g.usize(3) {
        let mut module = world.random_module(g, 0, marks, 2);
        module.role = Role::Test(vec![true, false]);
        let path = worlds::path(g);
        world.packages[0].tests.insert(path, module);
    }
    let mut files = Files::new();
    let mut modules = BTreeSet::new();
    let rate = g.below(4);
    for (path, (text, _)) in world.files(0) {
        let text = if path.ends_with(".pen") {
            modules.insert(PathBuf::from(&path));
            let text = disguise(g, &text, rate);
            if g.chance(1, 2) {
                formatted(&text).unwrap_or(text)
            } else {
                text
            }
        } else {
            text
        };
        files.insert(path.into(), text.into_bytes());
    }
    if g.chance(1, 8) {
        let broken = ["Foo = \\() number {\n", "import\n", "?", "Foo = 1 # }\n"][g.usize(4)];
        let path = PathBuf::from(["Broken.pen", "A/Broken.pen", "Z.test.pen"][g.usize(3)]);
        modules.insert(path.clone());
        files.insert(path, broken.into());
    }
    for path in [".pen/A.pen", ".git/x/B.pen", "A/.hidden.pen", "A.txt", "A/pen", "notes.pen.md", "B.pen~"] {
        if g.chance(1, 4) {
            files.insert(path.into(), b"foo  =  \\ ( ) none{none}".to_vec());
        }
    }
    (files, modules)
}

fn write(directory: &Path, files: &Files) {
    environment().make_directory(directory);
    for (path, bytes) in files {
        environment().write(&directory.join(path), bytes);
    }
}

fn describe(g: &mut Gen, files: &Files) {
    g.describe(|| {
        files.iter().map(|(path, bytes)| format!("--- {}\n{}", path.display(), String::from_utf8_lossy(bytes))).collect()
    });
}

fn random_package(g: &mut Gen) -> (World, Files, BTreeSet<PathBuf>) {
    let mut marks = Marks(0);
    let shape = Shape { packages: 1, modules: 5, application: g.chance(1, 3), ffi: g.chance(1, 4) };
    let mut world = worlds::world(g, &shape, &mut marks);
    let (files, modules) = package(g, &mut world, &mut marks);
    (world, files, modules)
}

pub fn format(g: &mut Gen) -> CaseResult {
    let (world, files, modules) = random_package(g);
    let environment = environment();
    environment.clear();
    let directory = world.directory(0);
    write(&directory, &files);
    describe(g, &files);
    let runner = Runner::random(g);
    let mut good = Files::new();
    let mut unformatted = BTreeSet::new();
    let mut broken = BTreeSet::new();
    for path in &modules {
        let text = String::from_utf8(files[path].clone()).unwrap();
        match formatted(&text) {
            Some(other) => {
                if other != text {
                    unformatted.insert(path.clone());
                }
                good.insert(path.clone(), other.into_bytes());
            }
            None => {
                broken.insert(path.clone());
            }
        }
    }
    // Commands work in directories below the one of the package.
    let directories = files
        .keys()
        .filter_map(|path| path.parent())
        .filter(|path| path.components().all(|part| !part.as_os_str().to_string_lossy().starts_with('.')))
        .collect::<Vec<_>>();
    let here = if directories.is_empty() { directory.clone() } else { directory.join(g.pick(&directories)) };
    let check = |what: &str| -> CaseResult {
        let output = checks::pen(&here, &["format", "--check"], runner)?;
        let now = read_all(&directory);
        let wrong = modules
            .iter()
            .filter(|path| good.get(*path).is_some_and(|text| *text != now[*path]))
            .map(|path| path.display().to_string())
            .collect::<BTreeSet<_>>();
        let expected = if wrong.is_empty() && broken.is_empty() { 0 } else { 1 };
        ensure!(output.code == Some(expected), "check-code", "{what}: check ends with {:?}, with {wrong:?} not formatted: {}", output.code, tail(&output));
        if broken.is_empty() && !wrong.is_empty() {
            let line = output.err.lines().find(|line| line.contains("not formatted")).unwrap_or_default();
            let told = line
                .split([' ', ','])
                .filter(|word| word.contains(".pen"))
                .map(|word| word.trim().to_owned())
                .collect::<BTreeSet<_>>();
            ensure_eq!(told, wrong, "check-files", "{what}: modules told not to be formatted");
        }
        Ok(())
    };
    if g.bool() {
        check("before")?;
        ensure_eq!(read_all(&directory), files, "check-writes", "files after a check");
    }
    let output = checks::pen(&here, &["format"], runner)?;
    let after = read_all(&directory);
    ensure_eq!(output.code, Some(!broken.is_empty() as i32), "code", "exit code of formatting: {}", tail(&output));
    ensure_eq!(after.keys().collect::<Vec<_>>(), files.keys().collect::<Vec<_>>(), "files", "files after formatting");
    for (path, bytes) in &files {
        let new = &after[path];
        match good.get(path) {
            Some(text) => {
                // After an error, modules may be left as they were.
                let kept = !broken.is_empty() && new == bytes;
                ensure!(
                    new == text || kept,
                    "formatted",
                    "{path:?} is\n{}\nin place of\n{}",
                    String::from_utf8_lossy(new),
                    String::from_utf8_lossy(text)
                );
            }
            None => ensure!(new == bytes, "other-file", "{path:?} changed"),
        }
    }
    check("after")?;
    if broken.is_empty() {
        ensure!(checks::pen(&directory, &["format"], runner)?.code == Some(0), "again", "formatting again fails");
        ensure_eq!(read_all(&directory), after, "idempotence", "files after formatting again");
    }
    // Standard input
    if let Some(path) = modules.iter().next() {
        let text = String::from_utf8(files[path].clone()).unwrap();
        let mut command = environment.command(&environment.directory, "pen");
        command.args(["format", "--stdin"]);
        let output = environment.run(command, &text);
        match good.get(path) {
            Some(text) => {
                ensure_eq!(output.code, Some(0), "stdin-code", "exit code: {}", tail(&output));
                ensure_eq!(output.out.as_bytes(), &text[..], "stdin", "formatted standard input");
            }
            None => ensure_eq!(output.code, Some(1), "stdin-code", "exit code: {}", tail(&output)),
        }
    }
    if unformatted.len() > 1 {
        g.nontrivial(&format!("{files:?}"));
    }
    Ok(())
}

fn word(g: &mut Gen) -> String {
    (*g.pick(&["Foo", "Bar", "A", "a b", "*bold*", "<i>", "\u{e9}", "https://foo.com/bar", "`x`", "{}"])).to_owned()
}

pub fn document(g: &mut Gen) -> CaseResult {
    let (world, files, modules) = random_package(g);
    let environment = environment();
    environment.clear();
    let directory = world.directory(0);
    write(&directory, &files);
    describe(g, &files);
    let (name, url, description) = (word(g), word(g), word(g));
    g.describe(|| format!("{name:?} {url:?} {description:?}"));
    let words = ["document", "--name", &name, "--url", &url, "--description", &description];
    let output = checks::pen(&directory, &words, Runner::random(g))?;
    ensure_eq!(read_all(&directory), files, "writes", "files after documenting");
    let mut documented = BTreeMap::new();
    for path in &modules {
        if path.to_string_lossy().ends_with(".test.pen") {
            continue;
        }
        let text = String::from_utf8(files[path].clone()).unwrap();
        let (Ok(module), Ok(comments)) = (parse::parse(&text, ""), parse::parse_comments(&text, "")) else {
            ensure_eq!(output.code, Some(1), "broken", "exit code with a broken module");
            return Ok(());
        };
        let components = path.with_extension("").iter().map(|part| part.to_string_lossy().into_owned()).collect::<Vec<_>>();
        documented.insert(ast::ExternalModulePath::new(&name, components).into(), (module, comments));
    }
    ensure_eq!(output.code, Some(0), "code", "exit code: {}", tail(&output));
    let type_ = match world.main().type_ {
        crate::world::Type::Application => "application",
        crate::world::Type::Library => "library",
        crate::world::Type::System => "system",
    };
    let expected = doc::generate(
        &doc::Package { name: name.clone(), url, description, type_: type_.into() },
        &documented,
        &doc::Configuration { language: "pen".into(), private_names: HashSet::from(["UnsafeNew".to_owned()]) },
    );
    if documented.len() > 2 {
        g.nontrivial(&format!("{files:?} {name}"));
    }
    ensure!(
        output.out == expected,
        "document",
        "the document differs: {:?}",
        output.out.lines().zip(expected.lines()).find(|(first, second)| first != second)
    );
    // Functions that make contexts are for the compiler.
    ensure!(!output.out.contains("UnsafeNew"), "private", "the document tells about UnsafeNew");
    Ok(())
}

pub fn create(g: &mut Gen) -> CaseResult {
    let environment = environment();
    environment.clear();
    // A stand-in for the system package that new applications use
    let system = environment.root().join("packages/os");
    environment.write(&system.join("pen.json"), b"{ \"type\": \"system\", \"dependencies\": {} }");
    environment.write(
        &system.join("Context.pen"),
        b"type Context {}\n\nUnsafeNew = \\() Context {\n  Context{}\n}\n",
    );
    environment.write(
        &system.join("File.pen"),
        b"import 'Context { Context }\n\ntype File {\n  Id number\n}\n\nStdOut = \\() File {\n  File{Id: 1}\n}\n\nWrite = \\(ctx Context, f File, s string) number | error {\n  f.Id\n}\n",
    );
    environment.write_executable(&system.join("pen-link.sh"), b"#!/bin/sh\nexec tool-link \"$@\"\n");
    let base = environment.case().join(["a", "a/a", "a/b c"][g.usize(2)]);
    environment.make_directory(&base);
    let (library, absolute) = (g.bool(), g.bool());
    let name = *g.pick(&["foo", "new/foo", "Foo_1", "x.y", "./z", "../up", ".", "d/../e"]);
    let directory = base.join(name);
    let place = if absolute { directory.display().to_string() } else { name.to_owned() };
    g.describe(|| format!("{place} in {}, library {library}", base.display()));
    let mut words = vec!["create"];
    if library {
        words.push(["-l", "--library"][g.usize(2)]);
    }
    words.push(&place);
    if name.contains('/') || library {
        g.nontrivial(&format!("{words:?} {}", base.display()));
    }
    let runner = Runner::random(g);
    let output = checks::pen(&base, &words, runner)?;
    ensure_eq!(output.code, Some(0), "code", "exit code: {}", tail(&output));
    let files = read_all(&directory);
    ensure!(files.contains_key(Path::new("pen.json")), "configuration", "no configuration in {:?}", files.keys());
    let output = checks::pen(&directory, &["format", "--check"], runner)?;
    ensure_eq!(output.code, Some(0), "unformatted", "a new package is not formatted: {}", tail(&output));
    let output = checks::pen(&directory, &["build"], runner)?;
    ensure_eq!(output.code, Some(0), "build", "a new package does not build: {}", tail(&output));
    let type_ = if library { crate::world::Type::Library } else { crate::world::Type::Application };
    checks::archives(&directory, type_, None)?;
    Ok(())
}

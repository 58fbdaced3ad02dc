//! The command `pen test`: which programs it makes, and what they say.
use crate::{
    checks::{self, tail, Archives, Runner},
    environment::environment,
    histories::update,
    mistakes,
    programs::read_archive,
    world::{Module, Path, Role, World},
    worlds::{self, Marks, Shape},
};
use pbt::{ensure, ensure_eq, fail, CaseResult, Failure, Gen};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::Path as OsPath,
    process::Command,
    sync::OnceLock,
};

fn test_module(g: &mut Gen, world: &World, marks: &mut Marks) -> Module {
    let mut module = world.random_module(g, 0, marks, 3);
    let count = g.usize(5);
    module.role = Role::Test((0..count).map(|_| !g.chance(1, 4)).collect());
    module
}

fn edit(g: &mut Gen, world: &mut World, marks: &mut Marks) -> &'static str {
    let paths = world.main().tests.keys().cloned().collect::<Vec<_>>();
    let kind = g.below(8);
    if paths.is_empty() || kind < 2 {
        let module = test_module(g, world, marks);
        world.packages[0].tests.insert(worlds::path(g), module);
        return "new test module";
    }
    let path = g.pick(&paths).clone();
    match kind {
        2 => {
            world.packages[0].tests.remove(&path);
            "removed test module"
        }
        3 => {
            let module = world.packages[0].tests.remove(&path).unwrap();
            world.packages[0].tests.insert(worlds::path(g), module);
            "moved test module"
        }
        4 | 5 => {
            let module = test_module(g, world, marks);
            world.packages[0].tests.insert(path, module);
            "rewritten test module"
        }
        6 => mistakes::modules_of(g, world, marks, 0),
        _ => {
            let module = world.packages[0].tests.get_mut(&path).unwrap();
            if g.chance(1, 4) {
                module.broken ^= true;
                return "syntax";
            }
            if let Role::Test(functions) = &mut module.role {
                if functions.is_empty() || g.bool() {
                    functions.push(g.bool());
                } else {
                    let index = g.usize(functions.len());
                    functions[index] ^= true;
                }
            }
            "test functions"
        }
    }
}

/// A file that a copy of the crate of tests lacks
fn missing(directory: &OsPath) -> Option<String> {
    let files = ["Cargo.toml", "src/main.rs", "src/heap.rs", "src/debug.rs", "src/spawn.rs", "src/unreachable.rs"];
    let original = environment().root().join("cmd/test");
    files.into_iter().find(|file| original.join(file).exists() && !directory.join(file).exists()).map(Into::into)
}

fn recorded() -> Result<(Archives, String), Failure> {
    let record = environment().record();
    let (Ok(paths), Ok(program)) = (fs::read_to_string(record.join("archives")), fs::read_to_string(record.join("main.rs")))
    else {
        fail!("no-test-program", "no test program is made")
    };
    let mut archives = vec![];
    for path in paths.split(':') {
        let Ok(bytes) = fs::read(path) else { fail!("test-archive", "no archive {path}") };
        let Some(archive) = read_archive(&bytes) else { fail!("archive", "broken archive {path}") };
        archives.push((OsPath::new(path).file_name().unwrap().to_string_lossy().into_owned(), archive));
    }
    Ok((archives, program))
}

/// Foreign names of the test functions by module and name
fn foreign_names(world: &World, archives: &Archives) -> Result<BTreeMap<(Path, String), String>, Failure> {
    let objects = checks::objects(archives);
    let mut names = BTreeMap::new();
    let mut all = BTreeSet::new();
    for object in &objects {
        for (_, foreign) in &object.exported {
            ensure!(all.insert(foreign.clone()), "duplicate-foreign", "{foreign} is exported twice");
        }
    }
    for (path, module) in &world.main().tests {
        let mark = format!("{}.0", module.mark);
        let Some(object) = objects.iter().find(|object| object.text.contains(&mark)) else {
            fail!("objects-of-module", "no object of the test module {path:?}")
        };
        let Role::Test(functions) = &module.role else { continue };
        let publics = functions.iter().enumerate().filter(|(_, public)| **public).map(|(index, _)| format!("Test{index}"));
        for name in publics {
            let callers = object
                .exported
                .iter()
                .filter(|(symbol, _)| {
                    let body = object
                        .defined
                        .get(symbol)
                        .cloned()
                        .or_else(|| object.local.iter().find(|body| body.contains(&format!("{symbol:?}"))).cloned())
                        .unwrap_or_default();
                    body.contains(&format!(":{name}\""))
                })
                .map(|(_, foreign)| foreign.clone())
                .collect::<Vec<_>>();
            ensure_eq!(callers.len(), 1, "foreign-functions", "foreign functions that call {name} of {path:?}");
            names.insert((path.clone(), name), callers[0].clone());
        }
    }
    Ok(names)
}

/// Compiles a test program with functions that say what they are told to.
struct Compiler {
    ready: bool,
}

fn run_compiler(command: &mut Command) -> bool {
    command.output().is_ok_and(|output| output.status.success())
}

fn compiler() -> &'static Compiler {
    static COMPILER: OnceLock<Compiler> = OnceLock::new();
    COMPILER.get_or_init(|| {
        let directory = environment().directory.join("rust");
        fs::create_dir_all(&directory).unwrap();
        fs::write(
            directory.join("ffi.rs"),
            "#[repr(C)] pub struct ByteString(*const u8);
             impl ByteString {
                 pub fn as_slice(&self) -> &[u8] {
                     let mut length = 0;
                     unsafe {
                         while *self.0.add(length) != 0 { length += 1 }
                         std::slice::from_raw_parts(self.0, length)
                     }
                 }
             }",
        )
        .unwrap();
        for name in ["debug", "heap", "spawn", "unreachable"] {
            fs::write(directory.join(format!("{name}.rs")), "").unwrap();
        }
        let ready = run_compiler(
            Command::new("rustc").current_dir(&directory).args(["--edition", "2021", "--crate-type", "rlib", "ffi.rs"]),
        );
        assert!(ready, "HARNESS: rustc does not work");
        Compiler { ready }
    })
}

/// Runs the test program and reads what it says: modules, functions, and whether they pass with what message.
fn run_program(
    g: &mut Gen,
    world: &World,
    program: &str,
    names: &BTreeMap<(Path, String), String>,
) -> CaseResult {
    assert!(compiler().ready);
    let environment = environment();
    let directory = environment.directory.join("rust");
    let mut source = String::new();
    let mut expected = BTreeMap::<String, BTreeMap<String, Option<String>>>::new();
    let mut failures = 0;
    let rate = g.below(4);
    for path in world.main().tests.keys() {
        expected.insert(format!("{}.test.pen", path.join("/")), BTreeMap::new());
    }
    for ((path, name), foreign) in names {
        let module = format!("{}.test.pen", path.join("/"));
        let message = g.chance(rate, 4).then(|| format!("{module} {name} {}", g.pick(&["fails", "{}", "%s", "\u{e9}"])));
        failures += message.is_some() as usize;
        source += &format!("const char *{foreign}(void) {{ return \"{}\"; }}\n", message.as_deref().unwrap_or_default());
        expected.get_mut(&module).unwrap().insert(name.clone(), message);
    }
    source += "const int main_test_is_there = 1;\n";
    fs::write(directory.join("main.c"), source).unwrap();
    fs::write(directory.join("main.rs"), program).unwrap();
    for name in ["libmain_test.a", "main"] {
        let _ = fs::remove_file(directory.join(name));
    }
    let compiled = run_compiler(Command::new("gcc").current_dir(&directory).args(["-c", "main.c", "-o", "main.o"]))
        && run_compiler(Command::new("ar").current_dir(&directory).args(["crs", "libmain_test.a", "main.o"]));
    assert!(compiled, "HARNESS: gcc does not work");
    let output = Command::new("rustc")
        .current_dir(&directory)
        .args(["--edition", "2021", "-C", "panic=abort", "-C", "link-arg=-fuse-ld=bfd", "-L", ".", "-l", "static=main_test"])
        .args(["--extern", "ffi=libffi.rlib", "main.rs", "-o", "main"])
        .output()
        .unwrap();
    ensure!(
        output.status.success(),
        "test-program",
        "the test program does not compile: {}",
        String::from_utf8_lossy(&output.stderr).chars().take(1500).collect::<String>()
    );
    fs::copy(directory.join("main"), environment.bin().join("main")).unwrap();
    let output = environment.run(environment.command(&environment.directory, "main"), "");
    ensure_eq!(output.code, Some((failures > 0) as i32), "test-exit", "exit code with {failures} failing tests");

    let mut actual = BTreeMap::<String, BTreeMap<String, Option<String>>>::new();
    let mut summary = None;
    let mut module = None;
    let mut last = None;
    for line in output.out.lines() {
        if let Some(message) = line.strip_prefix("\t\t") {
            let (Some(module), Some(name)) = (&module, &last) else { fail!("test-output", "{line:?} in {:?}", output.out) };
            let functions: &mut BTreeMap<String, Option<String>> = actual.get_mut(module).unwrap();
            let message = message.split_once(": ").map_or(message, |(_, message)| message);
            functions.insert(String::clone(name), Some(message.into()));
        } else if let Some(line) = line.strip_prefix('\t') {
            if summary.is_some() {
                summary = Some(line.to_owned());
                continue;
            }
            let (Some(module), Some((outcome, name))) = (&module, line.split_once('\t')) else {
                fail!("test-output", "{line:?} in {:?}", output.out)
            };
            let functions = actual.get_mut(module).unwrap();
            let message = (outcome != "OK").then(|| "no message".to_owned());
            ensure!(functions.insert(name.into(), message).is_none(), "test-twice", "{name} of {module} is run twice");
            last = Some(name.to_owned());
        } else if line == "summary" {
            summary = Some(String::new());
        } else {
            ensure!(
                actual.insert(line.into(), BTreeMap::new()).is_none(),
                "test-module-twice",
                "module {line} is there twice"
            );
            module = Some(line.to_owned());
        }
    }
    ensure_eq!(actual, expected, "test-outcomes", "outcomes of tests");
    let summary = summary.unwrap_or_default();
    let numbers = summary
        .split(|character: char| !character.is_ascii_digit())
        .filter_map(|word| word.parse::<usize>().ok())
        .collect::<Vec<_>>();
    ensure_eq!(numbers, vec![names.len() - failures, failures], "test-summary", "counts of {summary:?}");
    ensure_eq!(summary.starts_with("OK"), failures == 0, "test-summary", "{summary:?}");
    Ok(())
}

pub fn run(g: &mut Gen) -> CaseResult {
    let mut marks = Marks(0);
    let shape = Shape { packages: 2, modules: 3, application: g.chance(1, 3), ffi: g.chance(1, 4) };
    let mut world = worlds::world(g, &shape, &mut marks);
    for _ in 0..g.usize(4) {
        let module = test_module(g, &world, &mut marks);
        world.packages[0].tests.insert(worlds::path(g), module);
    }
    let environment = environment();
    environment.clear();
    for index in 1..world.packages.len() {
        world.write(index, &world.directory(index));
    }
    let directory = world.directory(0);
    let contents = g.bool();
    let mut files = BTreeMap::new();
    let steps = 1 + g.usize(3);
    for step in 0..steps {
        let mut labels = vec![];
        if step > 0 {
            for _ in 0..1 + g.usize(2) {
                labels.push(edit(g, &mut world, &mut marks));
            }
        }
        let new = world.files(0);
        environment.make_directory(&directory);
        update(&directory, &files, &new);
        files = new;
        checks::describe(g, &world);
        for label in &labels {
            g.label(*label);
        }
        let runner = Runner { contents, ..Runner::random(g) };
        if g.chance(1, 4) {
            checks::pen(&directory, &["build"], runner)?;
        }
        if g.chance(1, 4) {
            checks::interrupted(g, &directory, &["test"], runner)?;
            g.label("interrupted");
            std::thread::sleep(std::time::Duration::from_millis(12));
        }
        let code = g.weighted(&[3, 1]) as i32 * (1 + g.below(100) as i32);
        let crate_ = directory.join(".pen/default/test/main");
        let incomplete = crate_.exists() && missing(&crate_).is_some();
        let output = checks::pen_with(&directory, &["test"], runner, &[("TOOL_TEST_CODE", code.to_string())])?;
        let builds = world.tests_build() && !world.main().files.keys().any(|path| path.ends_with(".test.pen"));
        let what = format!("step {step} after {labels:?}");
        if !builds {
            ensure!(output.code == Some(1), "accepted", "{what}: tests that should not build do: {}", tail(&output));
            continue;
        }
        let wanted = (code != 0) as i32;
        ensure!(
            !incomplete || missing(&crate_).is_none(), "crate of tests copied in part",
            "{what}: the crate of tests, whose copying was interrupted, stays incomplete: {}", tail(&output)
        );
        ensure_eq!(missing(&crate_), None, "crate", "{what}: a file of the crate of tests that is missing");
        ensure!(output.code == Some(wanted), "exit", "{what}: pen test ends with {:?}, the tests with {code}: {}", output.code, tail(&output));
        ensure!(output.out.contains("test program"), "not-run", "{what}: the test program is not run: {}", tail(&output));
        let (archives, program) = recorded()?;
        checks::check_objects(&world, &archives, true)?;
        let names = foreign_names(&world, &archives)?;
        if names.len() > 1 {
            g.nontrivial(&format!("{world:?}"));
        }
        if g.chance(1, 3) {
            g.label("run");
            run_program(g, &world, &program, &names)?;
        }
    }
    Ok(())
}

//! Histories of edits and builds: each build makes what a build from scratch makes.
use crate::{
    checks::{self, tail, Runner},
    environment::environment,
    mistakes,
    world::{Kind, Module, Package, Path, Place, Role, Use, World},
    worlds::{self, Marks, Shape},
};
use pbt::{ensure, ensure_eq, CaseResult, Gen};
use std::{collections::BTreeMap, fs, path::Path as OsPath, time::Duration};

type Files = BTreeMap<String, (String, bool)>;

/// Makes the files of a directory those of the world, and writes only what changed.
pub fn update(directory: &OsPath, old: &Files, new: &Files) {
    // Later builds see later times.
    std::thread::sleep(Duration::from_millis(12));
    for path in old.keys() {
        if !new.contains_key(path) {
            let path = directory.join(path);
            fs::remove_file(&path).unwrap_or_else(|error| panic!("HARNESS: {path:?}: {error}"));
            // Directories go with their last files.
            let mut parent = path.parent().unwrap();
            while parent != directory && fs::remove_dir(parent).is_ok() {
                parent = parent.parent().unwrap();
            }
        }
    }
    for (path, (text, executable)) in new {
        if old.get(path).is_none_or(|(other, _)| other != text) {
            if *executable {
                environment().write_executable(&directory.join(path), text.as_bytes());
            } else {
                environment().write(&directory.join(path), text.as_bytes());
            }
        }
    }
}

fn some_module(g: &mut Gen, world: &World) -> Path {
    let paths = world.main().modules.keys().cloned().collect::<Vec<_>>();
    if paths.is_empty() {
        return vec!["A".into()];
    }
    g.pick(&paths).clone()
}

/// Changes the main package.
fn edit(g: &mut Gen, world: &mut World, marks: &mut Marks, past: &[Package]) -> &'static str {
    let path = some_module(g, world);
    let kind = g.below(23);
    let plain = world.main().modules.get(&path).is_some_and(|module| module.role == Role::Plain);
    match kind {
        0..=2 => {
            if let Some(module) = world.packages[0].modules.get_mut(&path) {
                module.mark = marks.next();
            }
            "body"
        }
        3..=6 => {
            let (bits, field) = (1 + g.below(15) as u8, g.bool());
            if let Some(module) = world.packages[0].modules.get_mut(&path) {
                if field {
                    module.field.bits = bits;
                } else {
                    module.type_.bits = bits;
                }
            }
            "type"
        }
        7 | 8 => {
            let new = worlds::path(g);
            if world.main().modules.get(&new).is_none_or(|module| module.role == Role::Plain) {
                let module = world.random_module(g, 0, marks, 2);
                world.packages[0].modules.insert(new, module);
            }
            "new module"
        }
        9 => {
            if plain {
                world.packages[0].modules.remove(&path);
            }
            "removed module"
        }
        10 => {
            // What was at one place is at another one.
            let other = some_module(g, world);
            if plain && world.main().modules[&other].role == Role::Plain && path != other {
                let first = world.packages[0].modules.remove(&path).unwrap();
                let second = world.packages[0].modules.remove(&other).unwrap();
                world.packages[0].modules.insert(other, first);
                if g.bool() {
                    world.packages[0].modules.insert(path, second);
                }
            }
            "moved module"
        }
        11 => {
            if let Some(module) = world.packages[0].modules.get_mut(&path) {
                module.broken ^= true;
            }
            "syntax"
        }
        12 => {
            if world.main().modules.contains_key(&path) {
                let old = world.packages[0].modules.remove(&path).unwrap();
                let mut new = world.random_module(g, 0, marks, 3);
                if let Role::Main(_) = old.role {
                    new.role = Role::Main(vec![]);
                } else {
                    new.role = old.role;
                }
                world.packages[0].modules.insert(path, new);
            }
            "rewritten module"
        }
        13 | 14 => {
            // Another package in place of a dependency
            let keys = world.main().dependencies.keys().cloned().collect::<Vec<_>>();
            if !keys.is_empty() {
                let key = g.pick(&keys).clone();
                let other = 1 + g.usize(world.packages.len() - 1);
                let old = world.main().dependencies[&key].0.unwrap();
                if world.packages[old].links == 0 && world.packages[other].links == 0 {
                    let relative = g.bool() && matches!(world.packages[other].place, Place::File(_));
                    world.packages[0].dependencies.insert(key, (Some(other), relative));
                }
            }
            "other dependency"
        }
        15 => {
            let keys = world.main().dependencies.keys().cloned().collect::<Vec<_>>();
            if !keys.is_empty() {
                let key = g.pick(&keys).clone();
                if world.packages[world.main().dependencies[&key].0.unwrap()].links == 0 {
                    world.packages[0].dependencies.remove(&key);
                }
            }
            "removed dependency"
        }
        kind if kind == 16 || (kind >= 20 && world.main().ffi.is_some()) => {
            world.packages[0].ffi = if g.chance(1, 5) { None } else { Some(marks.next()) };
            "foreign code"
        }
        17 => mistakes::modules_of(g, world, marks, 0),
        18 => {
            // Back to a former state
            if !past.is_empty() {
                world.packages[0] = g.pick(past).clone();
            }
            "former state"
        }
        _ => {
            let (kind, expect) = ([Kind::Mark, Kind::Get][g.usize(2)], 15);
            if let Some(module) = world.packages[0].modules.get_mut(&path) {
                if !module.imports.is_empty() {
                    let import = g.usize(module.imports.len());
                    module.uses.push(Use { import, kind, expect });
                }
            }
            "new use"
        }
    }
}

/// Packages with the same modules as others and other contents, for dependencies to change between.
fn twins(g: &mut Gen, world: &mut World, marks: &mut Marks) {
    let count = world.packages.len();
    for index in 1..count {
        if world.packages[index].links == 0 && g.chance(1, 2) {
            let mut twin = world.packages[index].clone();
            twin.place = Place::File(format!("twin{index}"));
            for (_, relative) in twin.dependencies.values_mut() {
                *relative = false;
            }
            for module in twin.modules.values_mut() {
                *module = Module { mark: marks.next(), ..module.clone() };
                if g.bool() && module.uses.is_empty() {
                    module.type_.bits = 1 + g.below(15) as u8;
                }
            }
            world.packages.push(twin);
        }
    }
}

pub fn run(g: &mut Gen) -> CaseResult {
    let mut marks = Marks(0);
    let application = g.chance(1, 2);
    let shape = Shape { packages: 2, modules: 4, application, ffi: g.chance(1, 4) };
    let mut world = worlds::world(g, &shape, &mut marks);
    if g.chance(1, 4) {
        world.packages[0].ffi = Some(marks.next());
    }
    twins(g, &mut world, &mut marks);
    let environment = environment();
    environment.clear();
    let directory = world.directory(0);
    let clean = environment.case().join("clean");
    for index in 1..world.packages.len() {
        world.write(index, &world.directory(index));
    }
    let contents = g.bool();
    let target = if g.chance(1, 4) { Some("x86_64-unknown-linux-musl") } else { None };
    let mut words = vec!["build"];
    if let Some(target) = target {
        words.extend(["--target", target]);
    }
    let mut files = Files::new();
    let mut text = String::new();
    let mut past = vec![];
    let steps = 2 + g.usize(4);
    let (mut good, mut changes) = (0, 0);
    g.describe(|| {
        let mut all = String::new();
        for index in 1..world.packages.len() {
            all += &format!("=== {}\n", world.url(Some(index), true));
            for (path, (contents, _)) in world.files(index) {
                all += &format!("--- {path}\n{contents}");
            }
        }
        all.replace(&environment.directory.display().to_string(), "…")
    });
    for step in 0..steps {
        let mut labels = vec![];
        if step > 0 {
            for _ in 0..1 + g.weighted(&[4, 2, 1]) {
                labels.push(edit(g, &mut world, &mut marks, &past));
            }
        }
        past.push(world.packages[0].clone());
        let new = world.files(0);
        if g.describing() {
            text += &format!("== step {step}: {labels:?}\n");
            for (path, (contents, _)) in &new {
                if files.get(path).is_none_or(|(old, _)| old != contents) {
                    text += &format!("--- {path}\n{contents}");
                }
            }
            for path in files.keys().filter(|path| !new.contains_key(*path)) {
                text += &format!("--- {path} removed\n");
            }
        }
        update(&directory, &files, &new);
        changes += (step > 0 && files != new) as usize;
        files = new;
        if step > 0 && g.chance(1, 12) {
            let _ = fs::remove_file(directory.join("app"));
            labels.push("removed application");
        }
        let described = std::mem::take(&mut text);
        g.describe(|| described.replace(&environment.directory.display().to_string(), "…"));
        for label in &labels {
            g.label(*label);
        }

        if g.chance(1, 3) {
            let runner = Runner { contents, ..Runner::random(g) };
            checks::interrupted(g, &directory, &words, runner)?;
            g.label("interrupted");
            // Later builds see later times.
            std::thread::sleep(Duration::from_millis(12));
        }
        let runner = Runner { contents, ..Runner::random(g) };
        let output = checks::pen(&directory, &words, runner)?;
        let builds = world.builds();
        let what = format!("build {step} after {labels:?}");
        if !builds {
            ensure!(output.code == Some(1), "accepted", "{what} succeeds: {}", tail(&output));
            continue;
        }
        good += 1;
        ensure!(output.code == Some(0), "refused", "{what} fails: {}", tail(&output));
        let archives = checks::archives(&directory, world.main().type_, target)?;

        if step == 0 && !g.chance(1, 4) {
            continue;
        }
        if clean.exists() {
            fs::remove_dir_all(&clean).unwrap();
        }
        world.write(0, &clean);
        let output = checks::pen(&clean, &words, Runner::random(g))?;
        ensure!(output.code == Some(0), "clean-refused", "build from scratch at step {step} fails: {}", tail(&output));
        let expected = checks::archives(&clean, world.main().type_, target)?;
        checks::same(&archives, &expected)
            .map_err(|failure| pbt::Failure::new(failure.signature, format!("{what}: {}", failure.message)))?;

        // Nothing is to do after a build.
        if g.chance(1, 6) {
            let runner = Runner { contents, ..Runner::random(g) };
            let output = checks::pen(&directory, &words, runner)?;
            ensure!(output.code == Some(0), "again", "{what}, done again, fails: {}", tail(&output));
            let again = checks::archives(&directory, world.main().type_, target)?;
            checks::same(&again, &expected)?;
            let commands = fs::read_to_string(environment.directory.join("commands")).unwrap_or_default();
            if world.packages.iter().all(|package| package.ffi.is_none()) {
                ensure_eq!(commands.trim(), "", "not-incremental", "commands run again with nothing changed");
            }
        }
    }
    if good > 1 && changes > 0 {
        g.nontrivial(&text_key(&past));
    }
    Ok(())
}

fn text_key(past: &[Package]) -> String {
    format!("{past:?}")
}

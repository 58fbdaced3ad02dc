//! What a build leaves behind, and what it should be.
use crate::{
    environment::{environment, Output},
    programs::{read_archive, Archive},
    world::{Import, Kind, Module, Role, Target, Type, World},
};
use pbt::{ensure, ensure_eq, fail, CaseResult, Failure, Gen};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::Path,
};

pub type Archives = Vec<(String, Archive)>;

/// How the build runner works in a case.
#[derive(Clone, Copy, Debug)]
pub struct Runner {
    pub contents: bool,
    pub seed: u64,
}

impl Runner {
    pub fn random(g: &mut Gen) -> Self {
        Self { contents: g.bool(), seed: 1 + g.below(1 << 30) }
    }
}

pub fn pen(directory: &Path, words: &[&str], runner: Runner) -> Result<Output, Failure> {
    pen_with(directory, words, runner, &[])
}

pub fn pen_with(directory: &Path, words: &[&str], runner: Runner, variables: &[(&str, String)]) -> Result<Output, Failure> {
    let environment = environment();
    let mut command = environment.command(directory, "pen");
    command
        .args(words)
        .env("TOOL_CONTENTS", if runner.contents { "1" } else { "0" })
        .env("TOOL_SEED", runner.seed.to_string())
        .env("TOOL_COMMANDS", environment.directory.join("commands"))
        .envs(variables.iter().map(|(name, value)| (name, value)));
    let output = environment.run(command, "");
    if output.timeout {
        return Err(Failure::new("hang", format!("pen {} does not end", words.join(" "))));
    }
    if !matches!(output.code, Some(0 | 1)) {
        return Err(Failure::new(
            "crash",
            format!("pen {} ended with {:?}: {}", words.join(" "), output.code, tail(&output)),
        ));
    }
    Ok(output)
}

/// Runs a command which is stopped somewhere: killed, or failing there.
pub fn interrupted(g: &mut Gen, directory: &Path, words: &[&str], runner: Runner) -> Result<(), Failure> {
    let mut variables = vec![];
    if g.bool() {
        variables.push(("TOOL_COPY", g.below(5).to_string()));
    }
    if variables.is_empty() || g.bool() {
        variables.push(("TOOL_STOP", (1 + g.below(30)).to_string()));
    }
    if g.chance(1, 3) {
        variables.push(("TOOL_FAIL", "1".into()));
    }
    g.describe(|| format!("interrupted {words:?}: {variables:?}"));
    let environment = environment();
    let mut command = environment.command(directory, "pen");
    command
        .args(words)
        .env("TOOL_CONTENTS", if runner.contents { "1" } else { "0" })
        .env("TOOL_SEED", runner.seed.to_string())
        .envs(variables);
    let output = environment.run(command, "");
    if output.timeout {
        return Err(Failure::new("hang", format!("pen {} does not end", words.join(" "))));
    }
    Ok(())
}

pub fn tail(output: &Output) -> String {
    let text = format!("{}{}", output.out, output.err).replace(&environment().directory.display().to_string(), "…");
    let start = text.char_indices().rev().nth(1200).map_or(0, |(index, _)| index);
    text[start..].into()
}

pub fn describe(g: &mut Gen, world: &World) {
    g.describe(|| {
        let mut text = String::new();
        for index in 0..world.packages.len() {
            text += &format!("=== {}\n", world.url(Some(index), true));
            for (path, (contents, _)) in world.files(index) {
                text += &format!("--- {path}\n{contents}");
            }
        }
        text.replace(&environment().directory.display().to_string(), "…")
    });
}

/// The archives of a build in the order of linking.
pub fn archives(directory: &Path, type_: Type, target: Option<&str>) -> Result<Archives, Failure> {
    if type_ != Type::Application {
        let path = directory.join(format!(".pen/{}/archives/libmain.a", target.unwrap_or("default")));
        let Ok(bytes) = fs::read(&path) else { fail!("no-archive", "no archive after a build") };
        let Some(archive) = read_archive(&bytes) else { fail!("archive", "broken archive") };
        return Ok(vec![("main.a".into(), archive)]);
    }
    let Ok(bytes) = fs::read(directory.join("app")) else { fail!("no-application", "no application after a build") };
    let text = String::from_utf8_lossy(&bytes);
    let Some((first, _)) = text.split_once('\n') else { fail!("application", "no first line") };
    ensure_eq!(first, format!("target {}", target.unwrap_or("x86_64-unknown-linux-gnu")), "target", "target of the application");
    let mut rest = &bytes[first.len() + 1..];
    let mut archives = vec![];
    while !rest.is_empty() {
        let end = rest.iter().position(|byte| *byte == b'\n').unwrap();
        let line = String::from_utf8_lossy(&rest[..end]).into_owned();
        let (length, name) = line.split_once(' ').unwrap();
        let length = length.parse::<usize>().unwrap();
        let Some(archive) = read_archive(&rest[end + 1..end + 1 + length]) else { fail!("archive", "broken archive {name}") };
        archives.push((Path::new(name).file_name().unwrap().to_string_lossy().into_owned(), archive));
        rest = &rest[end + 1 + length..];
    }
    Ok(archives)
}

/// An object: what it defines, by symbol, and what it only declares.
pub struct Object {
    pub archive: usize,
    pub defined: BTreeMap<String, String>,
    pub declared: BTreeMap<String, String>,
    pub local: Vec<String>,
    pub imported: Vec<String>,
    pub exported: Vec<(String, String)>,
    pub text: String,
}

pub fn objects(archives: &Archives) -> Vec<Object> {
    let mut objects = vec![];
    for (index, (_, archive)) in archives.iter().enumerate() {
        for bytes in archive.values() {
            let text = String::from_utf8_lossy(bytes).into_owned();
            let mut object = Object {
                archive: index,
                defined: BTreeMap::new(),
                declared: BTreeMap::new(),
                local: vec![],
                imported: vec![],
                exported: vec![],
                text: text.clone(),
            };
            for line in text.lines() {
                let mut words = line.splitn(3, ' ');
                let (Some(kind), Some(name), rest) = (words.next(), words.next(), words.next().unwrap_or_default()) else {
                    continue;
                };
                match kind {
                    "define" => {
                        object.defined.insert(name.into(), rest.into());
                    }
                    "declare" => {
                        object.declared.insert(name.into(), rest.into());
                    }
                    "local" => object.local.push(rest.into()),
                    "import" => object.imported.push(rest.split(' ').next().unwrap().into()),
                    "export" => object.exported.push((name.into(), rest.split(' ').next().unwrap().into())),
                    _ => {}
                }
            }
            objects.push(object);
        }
    }
    objects
}

fn number(mark: u64) -> String {
    format!("{mark}.0")
}

/// What a definition says it makes, as far as the module's text tells.
fn is_mark(module: &Module, body: &str, name: &str, wanted: &str) -> bool {
    body.contains(&number(module.mark)) && name.ends_with(wanted)
}

/// Objects of the modules of a program: each module is in one object, of the archive of its package, and symbols refer
/// to the modules that the imports name.
pub fn check_objects(world: &World, archives: &Archives, tests: bool) -> CaseResult {
    let objects = objects(archives);
    let mut definitions = BTreeMap::<&str, usize>::new();
    for (index, object) in objects.iter().enumerate() {
        for name in object.defined.keys() {
            if let Some(other) = definitions.insert(name, index) {
                fail!("duplicate-symbol", "symbol {name} is defined in objects {other} and {index}");
            }
        }
    }
    let linked = archives.len() > 1;
    let mut packages = BTreeMap::<usize, usize>::new();
    let mut owners = BTreeMap::<usize, (usize, bool, Vec<String>)>::new();
    let mut included = vec![(0, false)];
    if tests {
        included.push((0, true));
    }
    if linked {
        included.extend(world.reachable().unwrap().into_iter().map(|package| (package, false)));
    }
    let mut marks = BTreeMap::<(usize, bool, Vec<String>), String>::new();
    for &(package, test) in &included {
        let modules = if test { &world.packages[package].tests } else { &world.packages[package].modules };
        for (path, module) in modules {
            let found = objects
                .iter()
                .enumerate()
                .filter(|(_, object)| object.text.contains(&number(module.mark)))
                .map(|(index, _)| index)
                .collect::<Vec<_>>();
            ensure_eq!(found.len(), 1, "objects-of-module", "objects of module {path:?} of package {package}");
            let index = found[0];
            if let Some(other) = owners.insert(index, (package, test, path.clone())) {
                fail!("shared-object", "modules {path:?} and {other:?} are in one object");
            }
            if !test {
                if let Some(archive) = packages.insert(package, objects[index].archive) {
                    ensure_eq!(archive, objects[index].archive, "archives-of-package", "archives of package {package}");
                }
                let wanted = objects[index]
                    .defined
                    .iter()
                    .filter(|(name, body)| is_mark(module, body, name, ":Mark"))
                    .map(|(name, _)| name.clone())
                    .collect::<Vec<_>>();
                ensure_eq!(wanted.len(), 1, "mark", "definitions of Mark of {path:?} of package {package}");
                marks.insert((package, test, path.clone()), wanted[0].clone());
            }
        }
    }
    for (index, object) in objects.iter().enumerate() {
        // Objects of the main package and its dependencies; what is left is from the packages of the language.
        if !owners.contains_key(&index) {
            let ours = object.text.contains("Only1000");
            ensure!(!ours, "stray-object", "an object is of no module: {}", pbt_cut(&object.text));
            continue;
        }
        let (package, test, path) = &owners[&index];
        let modules = if *test { &world.packages[*package].tests } else { &world.packages[*package].modules };
        let module = &modules[path];
        if linked {
            // What is declared and not used needs no definition.
            for name in object.declared.keys() {
                let used = object.defined.values().chain(&object.local).any(|body| body.contains(&format!("\"{name}\"")));
                ensure!(!used || definitions.contains_key(name.as_str()), "undefined-symbol", "{name} is declared in {path:?} and defined nowhere");
            }
        }
        let bodies = || object.defined.values().chain(&object.local);
        let own = marks.get(&(*package, *test, path.clone()));
        let mut expected = BTreeSet::new();
        let expect = |import: &Import| -> Option<Target> { world.resolve(*package, import) };
        for use_ in &module.uses {
            if use_.kind == Kind::Mark {
                let target = expect(&module.imports[use_.import]).unwrap();
                if let Some(name) = marks.get(&(target.package, false, target.path)) {
                    expected.insert(name);
                }
            }
        }
        for name in marks.values() {
            let used = bodies().filter(|body| body.contains(&format!("\"{name}\""))).count() > 0;
            if Some(name) == own {
                continue;
            }
            ensure_eq!(used, expected.contains(name), "reference", "{path:?} of package {package} uses {name}");
        }
        // Names imported without prefixes
        for use_ in module.uses.iter().filter(|use_| use_.kind == Kind::Only) {
            let target = expect(&module.imports[use_.import]).unwrap();
            let other = world.module(&target).unwrap();
            if let Some(mark) = marks.get(&(target.package, false, target.path.clone())) {
                let name = format!("{}Only{}", mark.strip_suffix("Mark").unwrap(), other.name);
                ensure!(bodies().any(|body| body.contains(&format!("\"{name}\""))), "unqualified-reference",
                    "{path:?} of package {package} does not use {name}"
                );
            }
        }
        // Contexts
        if let Role::Main(contexts) = &module.role {
            for import in contexts {
                let target = expect(&module.imports[*import]).unwrap();
                if let Some(mark) = marks.get(&(target.package, false, target.path)) {
                    let name = mark.strip_suffix("Mark").unwrap().to_owned() + "Take";
                    ensure!(bodies().any(|body| body.contains(&format!("\"{name}\""))), "context", "{name} is not called");
                }
            }
            for (key, (dependency, _)) in &world.packages[*package].dependencies {
                let dependency = dependency.unwrap();
                if world.packages[dependency].type_ == Type::System {
                    if let Some(mark) = marks.get(&(dependency, false, vec!["Context".into()])) {
                        let name = mark.strip_suffix("Mark").unwrap().to_owned() + "UnsafeNew";
                        ensure!(bodies().any(|body| body.contains(&format!("\"{name}\""))), "context",
                            "the context of {key} is not made by {name}"
                        );
                    }
                }
            }
        }
    }
    // Foreign code of packages
    for &(package, test) in &included {
        let Some(mark) = world.packages[package].ffi else { continue };
        let text = format!("foreign {mark} for ");
        let found = archives
            .iter()
            .enumerate()
            .filter(|(_, (_, archive))| archive.values().any(|bytes| String::from_utf8_lossy(bytes).contains(&text)))
            .map(|(index, _)| index)
            .collect::<Vec<_>>();
        if !test {
            ensure_eq!(found, packages.get(&package).map_or(found.clone(), |place| vec![*place]), "foreign", "archives with the foreign code of package {package}");
        }
    }
    if linked {
        check_order(world, archives, &packages, tests)?;
    }
    Ok(())
}

/// Two builds made the same.
pub fn same(first: &Archives, second: &Archives) -> CaseResult {
    let names = |archives: &Archives| archives.iter().map(|(name, _)| name.clone()).collect::<Vec<_>>();
    ensure_eq!(names(first), names(second), "archives-differ", "archives");
    for ((name, first), (_, second)) in first.iter().zip(second) {
        let members = |archive: &Archive| archive.keys().cloned().collect::<Vec<_>>();
        ensure_eq!(members(first), members(second), "members-differ", "members of {name}");
        for (member, bytes) in first {
            if *bytes != second[member] {
                let (first, second) = (String::from_utf8_lossy(bytes), String::from_utf8_lossy(&second[member]));
                let line = first.lines().zip(second.lines()).find(|(first, second)| first != second);
                fail!("objects-differ", "{member} of {name}: {:?}", line.map(|(first, second)| (pbt_cut(first), pbt_cut(second))));
            }
        }
    }
    Ok(())
}

fn pbt_cut(text: &str) -> String {
    text.chars().take(300).collect()
}

fn check_order(world: &World, archives: &Archives, packages: &BTreeMap<usize, usize>, tests: bool) -> CaseResult {
    let reachable = world.reachable().unwrap();
    ensure_eq!(archives.len(),
        reachable.len() + 3 + tests as usize, "archive-count",
        "archives {:?}",
        archives.iter().map(|(name, _)| name).collect::<Vec<_>>()
    );
    ensure!(packages.get(&0).is_none_or(|place| *place == tests as usize), "main-archive", "place of the main archive");
    for package in &reachable {
        for (dependency, _) in world.packages[*package].dependencies.values() {
            let places = (packages.get(package), packages.get(&dependency.unwrap()));
            ensure!(!matches!(places, (Some(first), Some(second)) if first >= second), "archive-order",
                "package {package} comes after its dependency {dependency:?}"
            );
        }
    }
    let language = |index: usize, symbol: &str| {
        archives[index].1.values().any(|bytes| String::from_utf8_lossy(bytes).contains(symbol))
    };
    let count = archives.len();
    ensure!(language(count - 2, "pen_ffi_any_is_number"), "ffi-archive", "the archive before the last is not of the ffi package");
    ensure!(language(count - 1, "prelude:EqualStrings"), "prelude-archive", "the last archive is not of the prelude");
    Ok(())
}

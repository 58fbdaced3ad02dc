//! Packages as the checks know them: what their files say, and whether they should build.
use crate::environment::environment;
use std::{
    collections::{BTreeMap, BTreeSet},
    path::PathBuf,
};

pub const BITS: [(u8, &str, &str); 4] = [(1, "none", "none"), (2, "boolean", "true"), (4, "number", "1"), (8, "string", "\"a\"")];

/// A type: some of the basic types, and the type T of an imported module.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Union {
    pub bits: u8,
    pub through: Option<usize>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Import {
    pub package: Option<String>,
    pub path: Vec<String>,
    pub alias: Option<String>,
    /// Names imported without a prefix: the function named after the mark.
    pub only: Option<u64>,
}

impl Import {
    pub fn prefix(&self) -> &str {
        self.alias.as_deref().unwrap_or(self.path.last().unwrap())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Mark,
    Only,
    Get,
    Field,
    Make,
    Missing,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Use {
    pub import: usize,
    pub kind: Kind,
    pub expect: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Module {
    pub mark: u64,
    pub name: u64,
    pub type_: Union,
    pub field: Union,
    pub imports: Vec<Import>,
    pub uses: Vec<Use>,
    pub broken: bool,
    pub role: Role,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Role {
    Plain,
    /// The main module uses the contexts of dependencies through imports of their context modules.
    Main(Vec<usize>),
    Context { hidden: bool, no_new: bool, field: u8 },
    /// Test functions: whether they are public
    Test(Vec<bool>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Type {
    Application,
    Library,
    System,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Place {
    /// Directory below the case's directory
    File(String),
    /// Package of the language
    Root(String),
    Git(String),
}

pub type Path = Vec<String>;

#[derive(Clone, Debug)]
pub struct Package {
    pub type_: Type,
    pub place: Place,
    /// Package or, when it is not there, a name of nothing; and if the URL is relative
    pub dependencies: BTreeMap<String, (Option<usize>, bool)>,
    pub modules: BTreeMap<Path, Module>,
    pub tests: BTreeMap<Path, Module>,
    /// Files at other paths
    pub files: BTreeMap<String, String>,
    pub ffi: Option<u64>,
    pub links: u8,
}

impl Package {
    pub fn new(type_: Type, place: Place) -> Self {
        Self {
            type_,
            place,
            dependencies: BTreeMap::new(),
            modules: BTreeMap::new(),
            tests: BTreeMap::new(),
            files: BTreeMap::new(),
            ffi: None,
            links: 0,
        }
    }
}

/// Packages; the first one is built.
#[derive(Clone, Debug)]
pub struct World {
    pub packages: Vec<Package>,
}

fn union_text(bits: u8) -> String {
    BITS.iter().filter(|(bit, ..)| bits & bit > 0).map(|(_, name, _)| *name).collect::<Vec<_>>().join(" | ")
}

fn literal(bits: u8) -> &'static str {
    BITS.iter().find(|(bit, ..)| bits & bit > 0).map(|(.., text)| *text).unwrap()
}

impl Module {
    pub fn plain(mark: u64) -> Self {
        Self {
            mark,
            name: mark,
            type_: Union { bits: 4, through: None },
            field: Union { bits: 4, through: None },
            imports: vec![],
            uses: vec![],
            broken: false,
            role: Role::Plain,
        }
    }

    fn union(&self, union: &Union) -> String {
        [union_text(union.bits)]
            .into_iter()
            .filter(|text| !text.is_empty())
            .chain(union.through.map(|index| format!("{}'T", self.imports[index].prefix())))
            .collect::<Vec<_>>()
            .join(" | ")
    }

    pub fn text(&self) -> String {
        let mut text = String::new();
        for import in &self.imports {
            text += &format!("import {}", import.package.as_deref().unwrap_or_default());
            for component in &import.path {
                text += &format!("'{component}");
            }
            if let Some(alias) = &import.alias {
                text += &format!(" as {alias}");
            }
            if let Some(name) = import.only {
                text += &format!(" {{ Only{name} }}");
            }
            text += "\n";
        }
        if self.broken {
            text += "\nBroken = \\() number {\n";
            return text;
        }
        text += &format!("\ntype T = {}\n\ntype R {{\n  Value {}\n}}\n", self.union(&self.type_), self.union(&self.field));
        if let Role::Context { hidden, field, .. } = &self.role {
            let name = if *hidden { "context" } else { "Context" };
            text += &format!("\ntype {name} {{\n  value {}\n}}\n", union_text(*field));
        }
        text += &format!("\nMark = \\() number {{\n  {}\n}}\n", self.mark);
        text += &format!("\nOnly{} = \\() number {{\n  {}\n}}\n", self.name, self.mark);
        let get = match self.type_.through {
            Some(index) if self.type_.bits == 0 => format!("{}'Get()", self.imports[index].prefix()),
            _ => literal(self.type_.bits).into(),
        };
        text += &format!("\nGet = \\() T {{\n  {get}\n}}\n");
        for (index, use_) in self.uses.iter().enumerate() {
            let prefix = self.imports[use_.import].prefix();
            let expect = union_text(use_.expect);
            text += &match use_.kind {
                Kind::Mark => format!("\nUse{index} = \\() number {{\n  {prefix}'Mark()\n}}\n"),
                Kind::Only => format!(
                    "\nUse{index} = \\() number {{\n  Only{}()\n}}\n",
                    self.imports[use_.import].only.unwrap_or_default()
                ),
                Kind::Get => format!("\nUse{index} = \\() {expect} {{\n  {prefix}'Get()\n}}\n"),
                Kind::Field => format!("\nUse{index} = \\(r {prefix}'R) {expect} {{\n  r.Value\n}}\n"),
                Kind::Make => {
                    format!("\nUse{index} = \\() {prefix}'R {{\n  {prefix}'R{{Value: {}}}\n}}\n", literal(use_.expect))
                }
                Kind::Missing => format!("\nUse{index} = \\() number {{\n  {prefix}'Missing()\n}}\n"),
            };
        }
        match &self.role {
            Role::Plain => {}
            Role::Context { hidden, no_new, field } => {
                let name = if *hidden { "context" } else { "Context" };
                if !no_new {
                    text += &format!("\nUnsafeNew = \\() {name} {{\n  {name}{{value: {}}}\n}}\n", literal(*field));
                }
                text += &format!("\nTake = \\(c {name}) number {{\n  {}\n}}\n", self.mark);
            }
            Role::Main(contexts) => {
                text += "\nmain = \\(ctx context) none {\n";
                for index in contexts {
                    let import = &self.imports[*index];
                    text += &format!("  _ = {}'Take(ctx.{})\n", import.prefix(), import.package.as_deref().unwrap());
                }
                text += "\n  none\n}\n";
            }
            Role::Test(functions) => {
                for (index, public) in functions.iter().enumerate() {
                    let name = if *public { "Test" } else { "test" };
                    text += &format!("\n{name}{index} = \\() none | error {{\n  if Mark() == {index} {{\n    none\n  }} else {{\n    error(\"{name}{index}\")\n  }}\n}}\n");
                }
            }
        }
        if matches!(self.role, Role::Test(_)) {
            // Everything public in a test module is a test.
            for name in ["Mark", "Get", "Use", "Only"] {
                text = text.replace(&format!("\n{name}"), &format!("\n{}", name.to_lowercase()));
            }
            text = text.replace(" Mark()", " mark()");
        }
        text
    }
}

pub struct Target {
    pub package: usize,
    pub path: Path,
}

impl World {
    pub fn directory(&self, package: usize) -> PathBuf {
        let environment = environment();
        match &self.packages[package].place {
            Place::File(name) => environment.case().join(name),
            Place::Root(name) => environment.root().join("packages").join(name),
            Place::Git(name) => environment.git().join("host").join(name),
        }
    }

    pub fn url(&self, package: Option<usize>, relative: bool) -> String {
        let Some(package) = package else {
            return format!("file://{}/nothing", environment().case().display());
        };
        match &self.packages[package].place {
            Place::File(name) if relative => format!("../{name}"),
            Place::File(_) => format!("file://{}", self.directory(package).display()),
            Place::Root(name) | Place::Git(name) if relative && !name.contains('/') => format!("../{name}"),
            Place::Root(name) => format!("pen:///{name}"),
            Place::Git(name) => format!("git://host/{name}"),
        }
    }

    /// Files of a package by path in its directory; executables have a mark.
    pub fn files(&self, index: usize) -> BTreeMap<String, (String, bool)> {
        let package = &self.packages[index];
        let mut files = BTreeMap::new();
        let type_ = match package.type_ {
            Type::Application => "application",
            Type::Library => "library",
            Type::System => "system",
        };
        let dependencies = package
            .dependencies
            .iter()
            .map(|(name, (package, relative))| format!("    \"{name}\": \"{}\"", self.url(*package, *relative)))
            .collect::<Vec<_>>();
        files.insert(
            "pen.json".into(),
            (format!("{{\n  \"type\": \"{type_}\",\n  \"dependencies\": {{\n{}\n  }}\n}}\n", dependencies.join(",\n")), false),
        );
        for (path, module) in &package.modules {
            files.insert(path.join("/") + ".pen", (module.text(), false));
        }
        for (path, module) in &package.tests {
            files.insert(path.join("/") + ".test.pen", (module.text(), false));
        }
        for (path, text) in &package.files {
            files.insert(path.clone(), (text.clone(), false));
        }
        if let Some(mark) = package.ffi {
            // Foreign code changes while the script that compiles it stays as it is.
            let script = "#!/bin/sh\nread mark <\"${0%/*}/ffi/mark\"\nexec tool-ffi $mark \"$@\"\n";
            files.insert("pen-ffi.sh".into(), (script.into(), true));
            files.insert("ffi/mark".into(), (format!("{mark}\n"), false));
        }
        for index in 0..package.links {
            let extension = ["sh", "py"][index as usize];
            files.insert(format!("pen-link.{extension}"), ("#!/bin/sh\nexec tool-link \"$@\"\n".into(), true));
        }
        files
    }

    pub fn write(&self, index: usize, directory: &std::path::Path) {
        let environment = environment();
        environment.make_directory(directory);
        for (path, (text, executable)) in self.files(index) {
            if executable {
                environment.write_executable(&directory.join(path), text.as_bytes());
            } else {
                environment.write(&directory.join(path), text.as_bytes());
            }
        }
    }

    pub fn write_all(&self) {
        for index in 0..self.packages.len() {
            self.write(index, &self.directory(index));
        }
    }

    /// Packages that the main one depends on, if there is no cycle and no missing one.
    pub fn reachable(&self) -> Option<BTreeSet<usize>> {
        let mut done = BTreeSet::new();
        for (package, _) in self.packages[0].dependencies.values() {
            self.visit((*package)?, &mut vec![], &mut done)?;
        }
        Some(done)
    }

    /// Whether packages that the main one depends on depend on each other. Nothing is missing then.
    pub fn has_cycle(&self) -> bool {
        let mut seen = BTreeSet::from([0]);
        let mut rest = vec![0];
        while let Some(package) = rest.pop() {
            for (dependency, _) in self.packages[package].dependencies.values() {
                let Some(dependency) = *dependency else { return false };
                if seen.insert(dependency) {
                    rest.push(dependency);
                }
            }
        }
        self.reachable().is_none()
    }

    fn visit(&self, package: usize, path: &mut Vec<usize>, done: &mut BTreeSet<usize>) -> Option<()> {
        if path.contains(&package) {
            return None;
        }
        if done.contains(&package) {
            return Some(());
        }
        path.push(package);
        for (dependency, _) in self.packages[package].dependencies.values() {
            self.visit((*dependency)?, path, done)?;
        }
        path.pop();
        done.insert(package);
        Some(())
    }

    pub fn module(&self, target: &Target) -> Option<&Module> {
        self.packages[target.package].modules.get(&target.path)
    }

    pub fn resolve(&self, package: usize, import: &Import) -> Option<Target> {
        let target = Target {
            package: match &import.package {
                Some(name) => self.packages[package].dependencies.get(name)?.0?,
                None => package,
            },
            path: import.path.clone(),
        };
        if import.package.is_some()
            && import.path.iter().any(|component| !component.starts_with(|character: char| character.is_uppercase()))
        {
            return None;
        }
        let module = self.module(&target)?;
        if matches!(module.role, Role::Main(_)) {
            return None;
        }
        Some(target)
    }

    fn bits(&self, package: usize, module: &Module, union: &Union, depth: usize) -> Option<u8> {
        if depth > 60 {
            return None;
        }
        Some(match union.through {
            Some(index) => {
                let target = self.resolve(package, &module.imports[index])?;
                let other = self.module(&target)?;
                union.bits | self.bits(target.package, other, &other.type_, depth + 1)?
            }
            None => union.bits,
        })
    }

    pub fn type_bits(&self, package: usize, module: &Module, union: &Union) -> Option<u8> {
        self.bits(package, module, union, 0)
    }

    /// Whether a module compiles.
    pub fn compiles(&self, package: usize, module: &Module) -> bool {
        self.compiles_with(package, module, &mut BTreeMap::new())
    }

    fn known(&self, target: &Target, known: &mut BTreeMap<(usize, Path), Option<bool>>) -> bool {
        let key = (target.package, target.path.clone());
        match known.get(&key) {
            Some(Some(result)) => *result,
            // Modules that import each other do not compile.
            Some(None) => false,
            None => {
                known.insert(key.clone(), None);
                let result = self.compiles_with(target.package, self.module(target).unwrap(), known);
                known.insert(key, Some(result));
                result
            }
        }
    }

    fn compiles_with(&self, package: usize, module: &Module, known: &mut BTreeMap<(usize, Path), Option<bool>>) -> bool {
        if module.broken {
            return false;
        }
        for import in &module.imports {
            let Some(target) = self.resolve(package, import) else { return false };
            if !self.known(&target, known) {
                return false;
            }
        }
        if self.bits(package, module, &module.type_, 0).is_none() || self.bits(package, module, &module.field, 0).is_none() {
            return false;
        }
        for use_ in &module.uses {
            let import = &module.imports[use_.import];
            let target = self.resolve(package, import).unwrap();
            let other = self.module(&target).unwrap();
            let type_ = self.bits(target.package, other, &other.type_, 0).unwrap_or(255);
            let field = self.bits(target.package, other, &other.field, 0).unwrap_or(255);
            let good = match use_.kind {
                Kind::Mark => true,
                Kind::Only => import.only == Some(other.name) && import.only != Some(module.name),
                Kind::Get => type_ & !use_.expect == 0,
                Kind::Field => field & !use_.expect == 0,
                Kind::Make => BITS.iter().find(|(bit, ..)| use_.expect & bit > 0).unwrap().0 & field > 0,
                Kind::Missing => false,
            };
            if !good {
                return false;
            }
        }
        if let Role::Main(contexts) = &module.role {
            for index in contexts {
                let import = &module.imports[*index];
                let target = self.resolve(package, import).unwrap();
                if self.packages[target.package].type_ != Type::System
                    || !matches!(self.module(&target).unwrap().role, Role::Context { hidden: false, .. })
                    || import.path != ["Context"]
                {
                    return false;
                }
            }
            // Contexts of all system packages are made.
            for (dependency, _) in self.packages[package].dependencies.values() {
                let Some(dependency) = *dependency else { return false };
                if self.packages[dependency].type_ == Type::System {
                    match self.packages[dependency].modules.get(&vec!["Context".to_owned()]) {
                        Some(context) => {
                            let target = Target { package: dependency, path: vec!["Context".into()] };
                            if !self.known(&target, known)
                                || !matches!(context.role, Role::Context { hidden: false, no_new: false, .. })
                            {
                                return false;
                            }
                        }
                        None => return false,
                    }
                }
            }
        }
        true
    }

    pub fn main(&self) -> &Package {
        &self.packages[0]
    }

    fn package_compiles(&self, package: usize) -> bool {
        self.packages[package].modules.values().all(|module| self.compiles(package, module))
    }

    pub fn builds(&self) -> bool {
        let Some(reachable) = self.reachable() else { return false };
        if !self.package_compiles(0) {
            return false;
        }
        if self.main().type_ != Type::Application {
            return true;
        }
        let systems = self.main().dependencies.values().filter_map(|(package, _)| *package).collect::<BTreeSet<_>>();
        let links = systems
            .iter()
            .map(|package| &self.packages[*package])
            .filter(|package| package.type_ == Type::System)
            .map(|package| package.links)
            .collect::<Vec<_>>();
        links.iter().sum::<u8>() == 1 && reachable.iter().all(|package| self.package_compiles(*package))
    }

    pub fn tests_build(&self) -> bool {
        let Some(reachable) = self.reachable() else { return false };
        // Applications have to be ready to be linked.
        let systems = self.main().dependencies.values().filter_map(|(package, _)| *package).collect::<BTreeSet<_>>();
        let links = systems
            .iter()
            .filter(|package| self.packages[**package].type_ == Type::System)
            .map(|package| self.packages[*package].links)
            .sum::<u8>();
        (self.main().type_ != Type::Application || links == 1)
            && self.package_compiles(0)
            && reachable.iter().all(|package| self.package_compiles(*package))
            && self.main().tests.values().all(|module| self.compiles(0, module))
    }
}

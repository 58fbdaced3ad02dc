//! Random packages.
use crate::world::{Import, Kind, Module, Package, Place, Role, Target, Type, Union, Use, World};
use pbt::Gen;
use std::collections::BTreeMap;

pub struct Shape {
    /// Packages besides the main one
    pub packages: usize,
    /// Modules in a package
    pub modules: usize,
    pub application: bool,
    pub ffi: bool,
}

const COMPONENTS: [&str; 5] = ["A", "B", "C", "Foo", "bar"];
const DIRECTORIES: [&str; 5] = ["D", "A", "B", "e", "Foo"];
const KEYS: [&str; 6] = ["A", "Foo", "P", "Q", "Os", "bar"];

pub struct Marks(pub u64);

impl Marks {
    pub fn next(&mut self) -> u64 {
        self.0 += 1;
        100_000 + self.0
    }
}

pub fn path(g: &mut Gen) -> Vec<String> {
    let mut path = vec![];
    for _ in 0..g.weighted(&[5, 3, 1]) {
        path.push((*g.pick(&DIRECTORIES)).to_owned());
    }
    path.push((*g.pick(&COMPONENTS)).to_owned());
    path
}

fn bits(g: &mut Gen) -> u8 {
    1 + g.below(15) as u8
}

impl World {
    /// Targets that a module of a package may import: those that are there, and public for the importer.
    fn targets(&self, package: usize) -> Vec<(Option<String>, Target)> {
        let mut targets = vec![];
        let all = [(None, package)].into_iter().chain(
            self.packages[package].dependencies.iter().filter_map(|(name, (other, _))| Some((Some(name.clone()), (*other)?))),
        );
        for (name, other) in all {
            for (path, module) in &self.packages[other].modules {
                let import = Import { package: name.clone(), path: path.clone(), alias: None, only: None };
                if !matches!(module.role, Role::Main(_)) && self.resolve(package, &import).is_some() {
                    targets.push((name.clone(), Target { package: other, path: path.clone() }));
                }
            }
        }
        targets
    }

    /// Adds an import of a module and returns its index.
    fn import(&self, g: &mut Gen, module: &mut Module, name: Option<String>, target: &Target) -> usize {
        let mut import = Import { package: name, path: target.path.clone(), alias: None, only: None };
        if g.chance(1, 4) || module.imports.iter().any(|other| other.prefix() == import.prefix()) {
            import.alias = Some(format!("{}{}", ["m", "As"][g.usize(2)], module.imports.len()));
        }
        module.imports.push(import);
        module.imports.len() - 1
    }

    pub fn use_(&self, g: &mut Gen, package: usize, module: &mut Module, import: usize) {
        let Some(target) = self.resolve(package, &module.imports[import]) else { return };
        let other = self.module(&target).unwrap().clone();
        let kind = *g.pick(&[Kind::Mark, Kind::Get, Kind::Field, Kind::Make, Kind::Only]);
        let extra = if g.bool() { bits(g) } else { 0 };
        let expect = match kind {
            Kind::Get => self.type_bits(target.package, &other, &other.type_).unwrap_or(15) | extra,
            Kind::Field => self.type_bits(target.package, &other, &other.field).unwrap_or(15) | extra,
            Kind::Make => {
                let field = self.type_bits(target.package, &other, &other.field).unwrap_or(15);
                let possible = [1, 2, 4, 8].into_iter().filter(|bit| field & bit > 0).collect::<Vec<_>>();
                if possible.is_empty() {
                    return;
                }
                *g.pick(&possible)
            }
            Kind::Only => {
                if other.name == module.name || module.imports.iter().any(|other_| other_.only == Some(other.name)) {
                    return;
                }
                module.imports[import].only = Some(other.name);
                4
            }
            Kind::Mark | Kind::Missing => 4,
        };
        module.uses.push(Use { import, kind, expect });
    }

    pub fn random_module(&self, g: &mut Gen, package: usize, marks: &mut Marks, imports: usize) -> Module {
        let mut module = Module::plain(marks.next());
        let targets = self.targets(package);
        if !targets.is_empty() {
            for _ in 0..g.len(imports) {
                let (name, target) = &targets[g.usize(targets.len())];
                let import = self.import(g, &mut module, name.clone(), target);
                for _ in 0..1 + g.usize(2) {
                    self.use_(g, package, &mut module, import);
                }
            }
        }
        for _ in 0..2 {
            let union = if !module.imports.is_empty() && g.bool() {
                Union { bits: if g.bool() { bits(g) } else { 0 }, through: Some(g.usize(module.imports.len())) }
            } else {
                Union { bits: bits(g), through: None }
            };
            if g.bool() {
                module.type_ = union;
            } else {
                module.field = union;
            }
        }
        module
    }
}

pub fn world(g: &mut Gen, shape: &Shape, marks: &mut Marks) -> World {
    let externals = g.len(shape.packages).max(shape.application as usize);
    let main_type = if shape.application { Type::Application } else { [Type::Library, Type::System][g.weighted(&[4, 1])] };
    let mut world = World { packages: vec![Package::new(main_type, Place::File("main".into()))] };
    for index in 0..externals {
        let place = match g.below(6) {
            0 => Place::Root(format!("r{index}")),
            1 => Place::Git(format!("g{index}")),
            2 => Place::Root(format!("d/r{index}")),
            _ => Place::File(format!("p{index}")),
        };
        let system = (shape.application && index == externals - 1) || g.chance(1, 6);
        world.packages.push(Package::new(if system { Type::System } else { Type::Library }, place));
    }
    // Packages depend on later ones.
    for index in 0..=externals {
        let mut dependencies = BTreeMap::new();
        let rest = externals - index;
        if rest > 0 {
            let count = if index == 0 { 1 + g.usize(rest) } else { g.usize(rest.min(3) + 1) };
            for _ in 0..count {
                let other = index + 1 + g.usize(rest);
                let key = *g.pick(&KEYS);
                if dependencies.values().all(|(package, _)| *package != Some(other)) {
                    let near = match (&world.packages[index].place, &world.packages[other].place) {
                        (Place::File(_), Place::File(_)) | (Place::Git(_), Place::Git(_)) => true,
                        (Place::Root(name), Place::Root(_)) => !name.contains('/'),
                        _ => false,
                    };
                    dependencies.entry(key.to_owned()).or_insert((Some(other), near && g.bool()));
                }
            }
        }
        world.packages[index].dependencies = dependencies;
        if shape.ffi && g.chance(1, 3) {
            world.packages[index].ffi = Some(marks.next());
        }
    }
    if shape.application {
        // One of the packages that the main one depends on links.
        world.packages[externals].links = 1;
        if !world.main().dependencies.values().any(|(package, _)| *package == Some(externals)) {
            let key = KEYS.iter().find(|key| !world.main().dependencies.contains_key(**key));
            world.packages[0].dependencies.insert((*key.unwrap_or(&"Os")).to_owned(), (Some(externals), false));
        }
    }
    for index in (0..=externals).rev() {
        if world.packages[index].type_ == Type::System {
            let mut module = world.random_module(g, index, marks, 1);
            module.role = Role::Context { hidden: false, no_new: false, field: bits(g) };
            world.packages[index].modules.insert(vec!["Context".into()], module);
        }
        for _ in 0..1 + g.usize(shape.modules) {
            let path = path(g);
            if !world.packages[index].modules.contains_key(&path) {
                let module = world.random_module(g, index, marks, 3);
                world.packages[index].modules.insert(path, module);
            }
        }
    }
    if shape.application {
        let mut module = world.random_module(g, 0, marks, 3);
        let mut contexts = vec![];
        for (name, target) in world.targets(0) {
            if name.is_some()
                && target.path == ["Context"]
                && world.packages[target.package].type_ == Type::System
                && g.chance(2, 3)
            {
                contexts.push(world.import(g, &mut module, name, &target));
            }
        }
        module.role = Role::Main(contexts);
        world.packages[0].modules.insert(vec!["main".into()], module);
    }
    world
}

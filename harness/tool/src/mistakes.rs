//! Changes that most often make a package not build. What they do is for the model to tell.
use crate::{
    world::{Import, Kind, Module, Package, Path, Place, Role, Type, Use, World},
    worlds::Marks,
};
use pbt::Gen;

pub fn packages(g: &mut Gen, world: &mut World) -> &'static str {
    let count = world.packages.len();
    let package = (1 + g.usize(count)).min(count - 1);
    if count == 1 {
        return "none";
    }
    match g.below(8) {
        0 | 1 => {
            // A dependency backwards
            let other = g.usize(package + 1).max(1).min(count - 1);
            world.packages[package].dependencies.insert("Back".into(), (Some(other), false));
            "backward dependency"
        }
        2 => {
            world.packages[package].dependencies.insert("None".into(), (None, false));
            "missing package"
        }
        3 => {
            let links = &mut world.packages[package].links;
            *links = (*links + 1).min(2);
            "more link scripts"
        }
        4 => {
            for package in &mut world.packages {
                package.links = 0;
            }
            "no link script"
        }
        5 => {
            world.packages[count - 1].type_ = Type::Library;
            "library in place of a system"
        }
        6 => {
            // Dependencies on all packages, from the main one, in another order
            for index in 1..count {
                // The package that links is there once.
                if world.packages[index].links > 0 {
                    continue;
                }
                world.packages[0].dependencies.insert(format!("{}{index}", ["X", "a"][g.usize(2)]), (Some(index), false));
            }
            "many dependencies"
        }
        _ => {
            // Two packages at places with similar names
            let (first, second) = *g.pick(&[("s/t", "s.t"), ("s/t", "s_t"), ("u/v_w", "u_v/w"), ("s.t", "s_t")]);
            for (key, name) in [("Sim0", first), ("Sim1", second)] {
                let mut package = Package::new(Type::Library, Place::File(name.into()));
                let mark = 900_000 + g.below(1000) * 10 + world.packages.len() as u64;
                package.modules.insert(vec!["A".into()], Module::plain(mark));
                world.packages.push(package);
                let last = world.packages.len() - 1;
                world.packages[0].dependencies.insert(key.into(), (Some(last), false));
            }
            "similar names"
        }
    }
}

fn pick(g: &mut Gen, world: &World, package: usize) -> Option<Path> {
    let paths = world.packages[package].modules.keys().cloned().collect::<Vec<_>>();
    if paths.is_empty() {
        return None;
    }
    Some(g.pick(&paths).clone())
}

pub fn modules(g: &mut Gen, world: &mut World, marks: &mut Marks) -> &'static str {
    let package = g.usize(world.packages.len());
    modules_of(g, world, marks, package)
}

pub fn modules_of(g: &mut Gen, world: &mut World, marks: &mut Marks, package: usize) -> &'static str {
    let Some(path) = pick(g, world, package) else { return "none" };
    let role = world.packages[package].modules[&path].role.clone();
    let kind = g.below(12);
    let imports = world.packages[package].modules[&path].imports.len();
    if kind == 0 {
        if role == Role::Plain {
            world.packages[package].modules.remove(&path);
        }
        return "removed module";
    }
    if kind == 1 {
        let keys = world.packages[package].dependencies.keys().cloned().collect::<Vec<_>>();
        if !keys.is_empty() {
            let key = g.pick(&keys).clone();
            world.packages[package].dependencies.remove(&key);
        }
        return "removed dependency";
    }
    if kind == 2 {
        // An import from anywhere to anywhere in the package
        if let Some(other) = pick(g, world, package) {
            let module = world.packages[package].modules.get_mut(&path).unwrap();
            module.imports.push(Import { package: None, path: other, alias: Some("back".into()), only: None });
            let import = module.imports.len() - 1;
            module.uses.push(Use { import, kind: Kind::Mark, expect: 4 });
        }
        return "import of any module";
    }
    if kind == 3 {
        let file = g.pick(&[".x/A.pen", "A.txt", "D/.B.pen", "A.test.pen", "e/A.test.pen", "pen", ".pen/A.pen"]);
        world.packages[package].files.insert((*file).into(), "not a module".into());
        return "other file";
    }
    let expect = 1u8 << g.below(4);
    let choice = g.usize(imports.max(1));
    let missing = g.below(3);
    let module = world.packages[package].modules.get_mut(&path).unwrap();
    match kind {
        4 => {
            module.broken = true;
            "syntax"
        }
        5 => {
            if let Role::Context { hidden, .. } = &mut module.role {
                *hidden = true;
            }
            "hidden context"
        }
        6 => {
            if let Role::Context { no_new, .. } = &mut module.role {
                *no_new = true;
            }
            "no context function"
        }
        _ if imports == 0 => "none",
        7 | 8 => {
            let import = &mut module.imports[choice];
            match missing {
                0 => import.path.push("A".into()),
                1 => *import.path.last_mut().unwrap() = "Nothing".into(),
                _ => import.package = Some("Nothing".into()),
            }
            "changed import"
        }
        9 => {
            module.uses.push(Use { import: choice, kind: Kind::Missing, expect: 4 });
            "missing function"
        }
        10 => {
            module.name = marks.next();
            "renamed function"
        }
        _ => {
            let kind = [Kind::Get, Kind::Field, Kind::Make][missing as usize];
            module.uses.push(Use { import: choice, kind, expect });
            "narrow type"
        }
    }
}

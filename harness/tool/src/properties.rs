use crate::{
    checks::{self, tail, Runner},
    environment::environment,
    histories,
    mistakes, sources, tests,
    world::World,
    worlds::{self, Marks, Shape},
};
use pbt::{ensure, Campaign, CaseResult, Gen, Property};

/// Builds a world and compares the outcome with what its files say.
fn build(g: &mut Gen, world: &World) -> CaseResult {
    let environment = environment();
    environment.clear();
    world.write_all();
    let directory = world.directory(0);
    checks::describe(g, world);
    let runner = Runner::random(g);
    let output = checks::pen(&directory, &["build"], runner)?;
    let builds = world.builds();
    g.label(if builds { "builds" } else { "does not build" });
    if builds {
        ensure!(output.code == Some(0), "refused", "a good package does not build: {}", tail(&output));
        let archives = checks::archives(&directory, world.main().type_, None)?;
        checks::check_objects(world, &archives, false)?;
    } else {
        ensure!(output.code == Some(1), "accepted", "a package that should not build does: {}", tail(&output));
        ensure!(output.err.contains("error"), "silent", "no message: {}", tail(&output));
    }
    if world.reachable().is_none() && world.has_cycle() {
        let error = "package dependency cycle detected";
        ensure!(output.err.contains(error), "cycle-message", "not told about the cycle: {}", tail(&output));
    }
    Ok(())
}

fn graphs(g: &mut Gen) -> CaseResult {
    let mut marks = Marks(0);
    let shape = Shape { packages: 7, modules: 1, application: g.chance(3, 4), ffi: g.chance(1, 3) };
    let mut world = worlds::world(g, &shape, &mut marks);
    if g.chance(2, 5) {
        let mistake = mistakes::packages(g, &mut world);
        g.label(mistake);
    }
    if world.reachable().is_none_or(|packages| packages.len() > 2) {
        g.nontrivial(&format!("{world:?}"));
    }
    build(g, &world)?;
    // Building elsewhere, and in another order, makes the same program.
    if world.builds() && g.chance(1, 3) {
        let directory = environment().case().join("copy");
        world.write(0, &directory);
        let runner = Runner::random(g);
        let output = checks::pen(&directory, &["build"], runner)?;
        ensure!(output.code == Some(0), "refused", "a copy does not build: {}", tail(&output));
        let first = checks::archives(&world.directory(0), world.main().type_, None)?;
        let second = checks::archives(&directory, world.main().type_, None)?;
        checks::same(&first, &second)?;
    }
    Ok(())
}

fn modules(g: &mut Gen) -> CaseResult {
    let mut marks = Marks(0);
    let shape = Shape { packages: 3, modules: 5, application: g.chance(2, 3), ffi: false };
    let mut world = worlds::world(g, &shape, &mut marks);
    if g.bool() {
        let mistake = mistakes::modules(g, &mut world, &mut marks);
        g.label(mistake);
    }
    let uses = world.packages.iter().flat_map(|package| package.modules.values()).map(|module| module.uses.len()).sum::<usize>();
    if uses > 2 {
        g.nontrivial(&format!("{world:?}"));
    }
    build(g, &world)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "A01",
            level: "exploration",
            rule: "graphs of three packages or more besides the main one, or with a mistake",
            assumptions: &[],
            campaigns: vec![Campaign::new("graphs", 240, 6000, graphs)],
        },
        Property {
            id: "A02",
            level: "exploration",
            rule: "packages with more than two uses of imported modules",
            assumptions: &[],
            campaigns: vec![Campaign::new("modules", 240, 6000, modules)],
        },
        Property {
            id: "A03",
            level: "exploration",
            rule: "histories with two good builds or more and a change",
            assumptions: &[],
            campaigns: vec![Campaign::new("histories", 200, 2200, histories::run)],
        },
        Property {
            id: "A04",
            level: "exploration",
            rule: "packages with two test functions or more",
            assumptions: &[],
            campaigns: vec![Campaign::new("tests", 160, 2500, tests::run)],
        },
        Property {
            id: "A05",
            level: "exploration",
            rule: "packages with two modules or more that are not formatted, three documented modules or more, or libraries \
                and nested directories to create",
            assumptions: &[],
            campaigns: vec![
                Campaign::new("format", 2400, 60000, sources::format),
                Campaign::new("document", 1600, 40000, sources::document),
                Campaign::new("create", 96, 2000, sources::create),
            ],
        },
    ]
}

//! Compiles sources with the compiler's own crates, as lib/app/src/module_compiler.rs does, up to the intermediate
//! program that mir-fmm generates code for.

use crate::machine::{Machine, Mode, Stop};
use fnv::FnvHashMap;
use hir_mir::{
    CompileConfiguration, HashConfiguration, ListTypeConfiguration, MapTypeConfiguration,
    MapTypeIterationConfiguration, NumberTypeConfiguration, StringTypeConfiguration,
};
use std::{collections::HashMap, rc::Rc};

const PRELUDE_PREFIX: &str = "prelude:";

/// As in cmd/pen/src/compile_configuration.rs, qualified as in
/// lib/app/src/module_compiler/prelude_type_configuration_qualifier.rs.
pub fn configuration() -> CompileConfiguration {
    let name = |name: &str| format!("{PRELUDE_PREFIX}{name}");

    CompileConfiguration {
        list_type: ListTypeConfiguration {
            empty_function_name: name("EmptyList"),
            concatenate_function_name: name("ConcatenateLists"),
            equal_function_name: name("EqualLists"),
            maybe_equal_function_name: name("MaybeEqualLists"),
            prepend_function_name: name("PrependToList"),
            deconstruct_function_name: name("FirstRest"),
            lazy_function_name: name("LazyList"),
            first_function_name: name("First"),
            rest_function_name: name("Rest"),
            list_type_name: name("List"),
            first_rest_type_name: name("FirstRest"),
            size_function_name: name("ListSize"),
            debug_function_name: name("DebugList"),
        },
        map_type: MapTypeConfiguration {
            context_function_name: name("NewMapContext"),
            context_type_name: name("MapContext"),
            empty_function_name: name("NewMap"),
            empty_type_name: name("Empty"),
            equal_function_name: name("EqualMaps"),
            maybe_equal_function_name: name("MaybeEqualMaps"),
            get_function_name: name("GetMap"),
            map_type_name: name("Map"),
            merge_function_name: name("MergeMaps"),
            delete_function_name: name("DeleteMap"),
            set_function_name: name("SetMap"),
            size_function_name: name("MapSize"),
            debug_function_name: name("DebugMap"),
            hash: HashConfiguration {
                combine_function_name: name("CombineHashes"),
                number_hash_function_name: name("HashNumber"),
                string_hash_function_name: name("HashString"),
                list_hash_function_name: name("HashList"),
                map_hash_function_name: name("HashMap"),
            },
            iteration: MapTypeIterationConfiguration {
                iterator_type_name: name("MapIterator"),
                iterate_function_name: name("IterateMap"),
                key_function_name: name("MapIteratorKey"),
                value_function_name: name("MapIteratorValue"),
                rest_function_name: name("MapIteratorRest"),
            },
        },
        number_type: NumberTypeConfiguration { debug_function_name: name("DebugNumber") },
        string_type: StringTypeConfiguration { equal_function_name: name("EqualStrings") },
        spawn_function_name: "_pen_spawn".into(),
        race_function_name: "_pen_race".into(),
        debug_function_name: "_pen_debug".into(),
    }
}

#[derive(Clone, Debug)]
pub enum Error {
    Parse(String),
    /// By ast-hir or the analyses of hir: the program is refused.
    Refused { stage: &'static str, kind: String, message: String },
    /// By a stage that only sees accepted programs.
    Internal { stage: &'static str, message: String },
}

#[derive(Clone)]
pub struct Compiled {
    pub mir: mir::ir::Module,
    pub interface: interface::Module,
}

fn kind(error: &dyn std::fmt::Debug) -> String {
    let debug = format!("{error:?}");
    // The variants' names: HirAnalysis(TypesNotMatched { .. }).
    let mut words = debug.split(|c: char| !c.is_ascii_alphanumeric()).filter(|word| !word.is_empty());
    let first = words.next().unwrap_or("").to_owned();

    match first.as_str() {
        "Analysis" | "HirAnalysis" => words.next().unwrap_or("").to_owned(),
        _ => first,
    }
}

pub struct Prelude {
    pub modules: Vec<Compiled>,
    pub interfaces: Vec<interface::Module>,
}

fn compile_prelude_file(source: &str, path: &str) -> Result<Compiled, Error> {
    let ast = parse::parse(source, path).map_err(|error| Error::Parse(format!("{error}")))?;
    let hir = ast_hir::compile_prelude(&ast, PRELUDE_PREFIX)
        .map_err(|error| Error::Internal { stage: "prelude ast-hir", message: format!("{error:?}") })?;
    let (mir, interface) = hir_mir::compile_prelude(&hir)
        .map_err(|error| Error::Internal { stage: "prelude hir-mir", message: format!("{error:?}") })?;

    Ok(Compiled { mir, interface })
}

thread_local! {
    static PRELUDE: Rc<Prelude> = Rc::new(load_prelude());
}

fn load_prelude() -> Prelude {
    let directory = pbt::repo_root().join("packages/prelude");
    let mut paths = std::fs::read_dir(&directory)
        .unwrap()
        .map(|entry| entry.unwrap().path())
        .filter(|path| path.extension().is_some_and(|extension| extension == "pen"))
        .collect::<Vec<_>>();
    paths.sort();

    let modules = paths
        .iter()
        .map(|path| {
            compile_prelude_file(&std::fs::read_to_string(path).unwrap(), &path.display().to_string())
                .unwrap_or_else(|error| panic!("{} does not compile: {error:?}", path.display()))
        })
        .collect::<Vec<_>>();

    Prelude { interfaces: modules.iter().map(|module| module.interface.clone()).collect(), modules }
}

pub fn prelude() -> Rc<Prelude> {
    PRELUDE.with(|prelude| prelude.clone())
}

pub fn parse(source: &str, path: &str) -> Result<ast::Module, Error> {
    parse::parse(source, path).map_err(|error| Error::Parse(format!("{error}")))
}

/// Compiles a module. `interfaces` has the ones of the modules that it imports.
pub fn compile(
    ast: &ast::Module,
    prefix: &str,
    interfaces: &FnvHashMap<ast::ModulePath, interface::Module>,
) -> Result<Compiled, Error> {
    let hir = ast_hir::compile(ast, prefix, interfaces, &prelude().interfaces).map_err(|error| Error::Refused {
        stage: "ast-hir",
        kind: kind(&error),
        message: format!("{error}"),
    })?;
    let (mir, interface) = hir_mir::compile(&hir, &configuration()).map_err(|error| match &error {
        hir_mir::CompileError::MirTypeCheck(_) => Error::Internal { stage: "hir-mir", message: format!("{error:?}") },
        _ => Error::Refused { stage: "hir-mir", kind: kind(&error), message: format!("{error}") },
    })?;

    Ok(Compiled { mir, interface })
}

/// Compiles a test module, as the command-line tool does.
pub fn compile_test(ast: &ast::Module, prefix: &str) -> Result<(mir::ir::Module, test_info::Module), Error> {
    let hir = ast_hir::compile(ast, prefix, &Default::default(), &prelude().interfaces).map_err(|error| Error::Refused {
        stage: "ast-hir",
        kind: kind(&error),
        message: format!("{error}"),
    })?;
    let test = hir_mir::TestModuleConfiguration { test_function_prefix: "_pen_test_".into() };
    hir_mir::compile_test(&hir, &configuration(), &test).map_err(|error| match &error {
        hir_mir::CompileError::MirTypeCheck(_) => Error::Internal { stage: "hir-mir", message: format!("{error:?}") },
        _ => Error::Refused { stage: "hir-mir", kind: kind(&error), message: format!("{error}") },
    })
}

pub fn compile_source(source: &str) -> Result<Compiled, Error> {
    compile(&parse(source, "Main.pen")?, "Main.pen:", &Default::default())
}

/// The program after each pass of mir-fmm's compile function.
pub const STAGES: &[(&str, Mode)] = &[
    ("source", Mode::SOURCE),
    ("string concatenation", Mode::SOURCE),
    ("alpha conversion", Mode::SOURCE),
    ("normalization", Mode::SOURCE),
    ("environment inference", Mode::CLOSED),
    ("lambda lifting", Mode::CLOSED),
    ("reference count", Mode::COUNTED),
];

pub const LAST: usize = STAGES.len() - 1;
/// The stage of lambda lifting.
pub const LIFTING: usize = 5;

pub fn stage(module: &mir::ir::Module, stage: usize) -> Result<mir::ir::Module, Error> {
    use mir::analysis::*;

    Ok(match stage {
        1 => optimization::string_concatenation::transform(module),
        2 => alpha_conversion::transform(module),
        3 => normalization::transform(module),
        4 => environment_inference::transform(module),
        5 => lambda_lifting::transform(module),
        6 => reference_count::transform(module)
            .map_err(|error| Error::Internal { stage: "reference count", message: format!("{error:?}") })?,
        _ => unreachable!(),
    })
}

/// The module after every pass up to and including `last`.
pub fn stages(module: &mir::ir::Module, last: usize) -> Result<Vec<mir::ir::Module>, Error> {
    let mut modules = vec![module.clone()];

    for index in 1..=last {
        modules.push(stage(modules.last().unwrap(), index)?);
    }

    Ok(modules)
}

thread_local! {
    static PRELUDE_STAGES: Rc<Vec<Vec<mir::ir::Module>>> = Rc::new(
        prelude()
            .modules
            .iter()
            .map(|module| stages(&module.mir, LAST).expect("stages of prelude"))
            .collect(),
    );
}

/// A machine with the modules and the prelude after a pass, and the foreign functions of the prelude.
pub fn machine(modules: &[&mir::ir::Module], stage: usize, fuel: u64) -> Result<Machine, Stop> {
    let machine = Machine::new(STAGES[stage].1, fuel);

    crate::natives::define(&machine);

    for module in modules {
        machine.load(module)?;
    }

    PRELUDE_STAGES.with(|stages| {
        for module in stages.iter() {
            machine.load(&module[stage])?;
        }

        Ok::<_, Stop>(())
    })?;

    Ok(machine)
}

pub type Interfaces = FnvHashMap<ast::ModulePath, interface::Module>;

pub type Modules = HashMap<String, Compiled>;

/// Runs the function Main of a module at a stage.
pub fn run_main(source: &str, stage: usize, fuel: u64) -> Result<crate::machine::Value, String> {
    let compiled = compile_source(source).map_err(|error| format!("{error:?}"))?;
    let stages = stages(&compiled.mir, stage).map_err(|error| format!("{error:?}"))?;
    let machine = machine(&[&stages[stage]], stage, fuel).map_err(|error| format!("{error:?}"))?;

    machine.call_name("Main.pen:Main", vec![]).map_err(|error| format!("{error:?}"))
}

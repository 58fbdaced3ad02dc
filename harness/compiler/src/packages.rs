//! Packages that are written in the language, compiled, linked with their own Rust functions and run.

use crate::{
    machine::{number, Machine, Res, Stop, Value},
    pipeline::{self, Compiled, LAST},
};
use ast::ModulePath;
use pbt::CaseResult;
use pen_ffi as ffi;
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    path::Path,
    rc::Rc,
};

/// Packages and the names by which they are imported, and their foreign functions.
pub struct Set {
    pub packages: &'static [(&'static str, &'static str)],
    pub natives: fn(&Machine),
}

/// The packages that are written in the language for the most part.
const LIBRARIES: Set = Set {
    packages: &[
        ("Core", "core"),
        ("Ffi", "ffi"),
        ("Flag", "flag"),
        ("Html", "html"),
        ("Json", "json"),
        ("Reflect", "reflect"),
        ("Test", "test"),
    ],
    natives,
};

/// Package, names of the module in it.
type Key = (String, Vec<String>);

struct Library {
    /// In the order of imports.
    modules: Vec<Compiled>,
    interfaces: HashMap<Key, interface::Module>,
}

fn key(package: &str, path: &ModulePath) -> Key {
    match path {
        ModulePath::Internal(path) => (package.to_owned(), path.components().to_vec()),
        ModulePath::External(path) => (path.package().to_owned(), path.components().to_vec()),
    }
}

fn sources(directory: &Path, names: &[String], found: &mut Vec<(Vec<String>, std::path::PathBuf)>) {
    let mut entries = std::fs::read_dir(directory).unwrap().map(|entry| entry.unwrap().path()).collect::<Vec<_>>();
    entries.sort();

    for path in entries {
        let name = path.file_name().unwrap().to_string_lossy().into_owned();

        if path.is_dir() {
            if name != "ffi" {
                sources(&path, &[names, &[name]].concat(), found);
            }
        } else if let Some(stem) = name.strip_suffix(".pen") {
            if !stem.contains('.') {
                found.push(([names, &[stem.to_owned()]].concat(), path));
            }
        }
    }
}

fn load(set: &Set) -> Library {
    let mut waiting = vec![];

    for (name, directory) in set.packages {
        let mut found = vec![];
        sources(&pbt::repo_root().join("packages").join(directory), &[], &mut found);

        for (names, path) in found {
            let text = std::fs::read_to_string(&path).unwrap();
            let module = pipeline::parse(&text, &path.display().to_string())
                .unwrap_or_else(|error| panic!("{} is refused: {error:?}", path.display()));
            waiting.push(((name.to_string(), names), path.display().to_string(), module));
        }
    }

    let mut library = Library { modules: vec![], interfaces: Default::default() };

    while !waiting.is_empty() {
        let ready = waiting
            .iter()
            .position(|((package, _), _, module)| {
                module.imports().iter().all(|import| library.interfaces.contains_key(&key(package, import.module_path())))
            })
            .unwrap_or_else(|| panic!("imports of packages that are not there: {:?}", waiting.iter().map(|w| &w.1).collect::<Vec<_>>()));
        let (own, path, module) = waiting.remove(ready);
        let compiled = compile(&library, &own.0, &module, &format!("{path}:"))
            .unwrap_or_else(|error| panic!("{path} is refused: {error:?}"));

        library.interfaces.insert(own, compiled.interface.clone());
        library.modules.push(compiled);
    }

    library
}

fn compile(library: &Library, package: &str, module: &ast::Module, prefix: &str) -> Result<Compiled, pipeline::Error> {
    let interfaces = module
        .imports()
        .iter()
        .map(|import| {
            (import.module_path().clone(), library.interfaces[&key(package, import.module_path())].clone())
        })
        .collect();

    pipeline::compile(module, prefix, &interfaces)
}

thread_local! {
    static SETS: RefCell<HashMap<&'static str, Rc<Library>>> = Default::default();
    static CURRENT: RefCell<Option<Rc<Library>>> = Default::default();
    /// Linked machines with nothing alive, by driver and stage.
    static MACHINES: RefCell<BTreeMap<(&'static str, usize), Machine>> = Default::default();
}

fn library(set: &Set) -> Rc<Library> {
    SETS.with(|sets| sets.borrow_mut().entry(set.packages[0].0).or_insert_with(|| load(set).into()).clone())
}

/// The name of the records that a function for foreign code takes
pub fn argument_record(foreign: &str) -> Option<String> {
    let library = CURRENT.with(|current| current.borrow().clone())?;
    let type_ = library.modules.iter().find_map(|module| {
        let definition = module.mir.foreign_definitions().iter().find(|definition| definition.foreign_name() == foreign)?;
        module
            .mir
            .function_definitions()
            .iter()
            .map(|function| function.definition())
            .find(|function| function.name() == definition.name())
            .and_then(|function| function.type_().arguments().first().cloned())
    });

    match type_? {
        mir::types::Type::Record(record) => Some(record.name().to_owned()),
        _ => None,
    }
}

fn link(set: &Set, driver: &'static str, stage: usize) -> Result<Machine, Stop> {
    let library = library(set);
    let module = pipeline::parse(driver, "Driver.pen").unwrap_or_else(|error| panic!("HARNESS: driver: {error:?}"));
    let driver = compile(&library, "", &module, "Driver.pen:")
        .unwrap_or_else(|error| panic!("the use of a package is refused: {error:?}"));
    let modules = library
        .modules
        .iter()
        .chain([&driver])
        .map(|module| {
            Ok(pipeline::stages(&module.mir, stage)
                .map_err(|error| Stop::Stuck(format!("{error:?}")))?
                .pop()
                .unwrap())
        })
        .collect::<Result<Vec<_>, Stop>>()?;
    let machine = pipeline::machine(&modules.iter().collect::<Vec<_>>(), stage, 0)?;

    (set.natives)(&machine);

    Ok(machine)
}

/// Runs a case with a program that uses packages, and demands that it leaves nothing behind.
pub fn with_driver(
    driver: &'static str,
    stage: usize,
    fuel: u64,
    run: impl FnOnce(&Machine) -> CaseResult,
) -> CaseResult {
    with(&LIBRARIES, driver, stage, fuel, run)
}

pub fn with(
    set: &Set,
    driver: &'static str,
    stage: usize,
    fuel: u64,
    run: impl FnOnce(&Machine) -> CaseResult,
) -> CaseResult {
    CURRENT.with(|current| *current.borrow_mut() = Some(library(set)));

    let machine = MACHINES.with(|machines| machines.borrow_mut().remove(&(driver, stage)));
    let machine = match machine {
        Some(machine) => machine,
        None => link(set, driver, stage).map_err(|stop| crate::failure(&stop, "link of packages"))?,
    };

    machine.set_fuel(fuel);
    machine.trace.borrow_mut().clear();
    run(&machine)?;

    if stage == LAST {
        machine.drop_globals().map_err(|stop| crate::failure(&stop, "release of globals"))?;
        machine.reset_globals();
        pbt::ensure_eq!(machine.live(), 0, "leak", "values left behind");
    }

    MACHINES.with(|machines| machines.borrow_mut().insert((driver, stage), machine));

    Ok(())
}

pub fn call(machine: &Machine, name: &str, arguments: Vec<Value>) -> Res<Value> {
    machine.call_name(&format!("Driver.pen:{name}"), arguments)
}

// Foreign functions

trait Given: Sized {
    fn given(machine: &Machine, value: &Value) -> Res<Self>;
}

impl Given for ffi::Number {
    fn given(_: &Machine, value: &Value) -> Res<Self> {
        Ok(number(value.clone())?.into())
    }
}

impl Given for ffi::ByteString {
    fn given(machine: &Machine, value: &Value) -> Res<Self> {
        let bytes = machine.bytes(value)?.to_vec();
        machine.drop_value(value)?;
        Ok(bytes.into())
    }
}

trait Returned {
    fn returned(self, machine: &Machine) -> Value;
}

impl Returned for ffi::Number {
    fn returned(self, _: &Machine) -> Value {
        Value::Number(self.into())
    }
}

impl Returned for ffi::Boolean {
    fn returned(self, _: &Machine) -> Value {
        Value::Boolean(self.into())
    }
}

impl Returned for ffi::ByteString {
    fn returned(self, machine: &Machine) -> Value {
        machine.string(self.as_slice())
    }
}

macro_rules! foreign {
    ($machine:expr; $($name:ident($($argument:ident: $type:ty),*) -> $result:ty;)*) => {
        $({
            extern "C" {
                fn $name($($argument: $type),*) -> $result;
            }
            let count = <[&str]>::len(&[$(stringify!($argument)),*]);
            #[allow(unused)]
            $machine.define_foreign(stringify!($name), count, |machine, arguments| {
                let mut arguments = arguments.iter();
                $(let $argument = <$type>::given(machine, arguments.next().unwrap())?;)*
                Ok(unsafe { $name($($argument),*) }.returned(machine))
            });
        })*
    };
}

fn natives(machine: &Machine) {
    use ffi::{Boolean, ByteString, Number};

    foreign! { machine;
        _pen_core_absolute(x: Number) -> Number;
        _pen_core_ceil(x: Number) -> Number;
        _pen_core_convert_number_to_string(x: Number) -> ByteString;
        _pen_core_epsilon() -> Number;
        _pen_core_exponential(x: Number) -> Number;
        _pen_core_floor(x: Number) -> Number;
        _pen_core_fraction(x: Number) -> Number;
        _pen_core_infinity() -> Number;
        _pen_core_is_nan(x: Number) -> Boolean;
        _pen_core_nan() -> Number;
        _pen_core_power(x: Number, y: Number) -> Number;
        _pen_core_remainder(x: Number, y: Number) -> Number;
        _pen_core_round(x: Number) -> Number;
        _pen_core_square_root(x: Number) -> Number;
        _pen_core_truncate(x: Number) -> Number;
        _pen_core_character_from_code_point(x: Number) -> ByteString;
        _pen_core_character_to_code_point(x: ByteString) -> Number;
        _pen_core_bit_and(x: Number, y: Number) -> Number;
        _pen_core_bit_or(x: Number, y: Number) -> Number;
        _pen_core_bit_xor(x: Number, y: Number) -> Number;
        _pen_core_bit_not(x: Number) -> Number;
        _pen_core_bit_left_shift(x: Number, y: Number) -> Number;
        _pen_core_bit_right_shift(x: Number, y: Number) -> Number;
        _pen_core_bit_to_integer_64(x: Number) -> Number;
        _pen_core_bit_from_integer_64(x: Number) -> Number;
        _pen_core_byte_length(x: ByteString) -> Number;
        _pen_core_byte_slice(x: ByteString, start: Number, end: Number) -> ByteString;
        _pen_core_string_starts_with(x: ByteString, y: ByteString) -> Boolean;
        _pen_core_view_starts_with(x: ByteString, start: Number, end: Number, y: ByteString) -> Boolean;
        _pen_core_view_to_string(x: ByteString, start: Number, end: Number) -> ByteString;
        _pen_core_utf8_contains(x: ByteString, y: ByteString) -> Boolean;
        _pen_core_utf8_find(x: ByteString, y: ByteString) -> Number;
        _pen_core_utf8_starts_with(x: ByteString, y: ByteString) -> Boolean;
        _pen_core_utf8_ends_with(x: ByteString, y: ByteString) -> Boolean;
        _pen_core_utf8_length(x: ByteString) -> Number;
        _pen_core_utf8_slice(x: ByteString, start: Number, end: Number) -> ByteString;
        _pen_core_utf8_replace(x: ByteString, y: ByteString, z: ByteString) -> ByteString;
        _pen_core_utf8_to_lowercase(x: ByteString) -> ByteString;
        _pen_core_utf8_to_uppercase(x: ByteString) -> ByteString;
        _pen_core_utf8_trim(x: ByteString) -> ByteString;
        _pen_core_utf8_trim_start(x: ByteString) -> ByteString;
        _pen_core_utf8_trim_end(x: ByteString) -> ByteString;
        _pen_core_utf8_trim_start_matches(x: ByteString, y: ByteString) -> ByteString;
        _pen_core_utf8_trim_end_matches(x: ByteString, y: ByteString) -> ByteString;
        _pen_json_decode_number(x: ByteString) -> Number;
        _pen_json_encode_number(x: Number) -> ByteString;
        _pen_html_encode_text(x: ByteString) -> ByteString;
        _pen_html_encode_attribute(x: ByteString) -> ByteString;
    }

    // As packages/core/ffi/src/string/builder.rs does: a builder that someone else holds too does not change. A builder
    // is a string here, of the lengths and bytes of its pieces.
    machine.define_foreign("_pen_core_string_builder_create", 0, |machine, _| Ok(machine.string("")));
    machine.define_foreign("_pen_core_string_builder_append", 2, |machine, arguments| {
        let piece = machine.bytes(&arguments[1])?.to_vec();
        machine.drop_value(&arguments[1])?;

        if machine.mode.counted && !machine.is_unique(&arguments[0]) {
            return Ok(arguments[0].clone());
        }

        let mut bytes = machine.bytes(&arguments[0])?.to_vec();
        machine.drop_value(&arguments[0])?;
        bytes.extend((piece.len() as u64).to_le_bytes());
        bytes.extend(piece);
        Ok(machine.string(bytes))
    });
    machine.define_foreign("_pen_core_string_builder_build", 2, |machine, arguments| {
        let mut pieces = vec![];
        let mut bytes = machine.bytes(&arguments[0])?;

        while !bytes.is_empty() {
            let length = u64::from_le_bytes(bytes[..8].try_into().unwrap()) as usize;
            pieces.push(&bytes[8..8 + length]);
            bytes = &bytes[8 + length..];
        }

        let result = pieces.join(machine.bytes(&arguments[1])?);
        machine.drop_value(&arguments[0])?;
        machine.drop_value(&arguments[1])?;
        Ok(machine.string(result))
    });
}

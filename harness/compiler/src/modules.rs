//! C05: programs of several modules, against a model of what each name means where.

use crate::{
    machine::{boolean, number, Value as Run},
    pipeline::{self, Compiled, Error, LAST},
};
use pbt::{ensure_eq, fail, CaseResult, Failure, Gen};
use std::collections::BTreeSet;

const FUEL: u64 = 200_000;
const PACKAGES: [&str; 3] = ["P", "Q", "A"];
const COMPONENTS: [&str; 7] = ["A", "B", "Foo", "A", "B", "Foo", "m"];
const TYPES: [&str; 6] = ["Foo", "Bar", "T", "foo", "bar", "A"];
const FUNCTIONS: [&str; 8] = ["Foo", "Get", "Make", "Bar", "foo", "get", "make", "A"];
const FIELDS: [&str; 4] = ["X", "Foo", "x", "foo"];

type Id = (usize, usize);

/// A type as the program spells it
#[derive(Clone, Debug, PartialEq)]
enum Type {
    Number,
    Text,
    Ref(Id),
    Maybe(Box<Type>),
}

/// A type with no names of aliases
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Flat {
    Number,
    Text,
    None,
    Record(Id),
}

#[derive(Clone, Debug)]
enum Body {
    Record(Vec<(String, Type)>),
    Alias(Type),
}

#[derive(Clone, Debug)]
struct Definition {
    name: String,
    body: Body,
}

#[derive(Clone, Debug)]
enum Expression {
    Number(u64),
    Argument(usize),
    Text(u64),
    None,
    Record(Id, Vec<Expression>),
    /// A call of a function that takes no argument or a number
    Call(Id, Vec<Expression>),
    Sum(Vec<Expression>),
}

#[derive(Clone, Debug, PartialEq)]
enum Value {
    Number(u64),
    Text(u64),
    None,
    Record(Id, Vec<Value>),
}

#[derive(Clone, Debug)]
enum Role {
    /// A number
    Number(Expression),
    /// A value of a type, from a number
    Make(Type, Expression),
    /// The same as any value
    Wrap(Expression),
    /// Which type any value is of, and a number in it
    Which(Vec<(Flat, Option<usize>, u64)>, u64),
    /// Number in a field
    Field(Type, usize),
    /// If values of two numbers are equal
    Same(Expression),
    /// If the value of a number is a key of a map with the one of another
    Look(Expression),
    /// Its argument is added to a number
    Local(u64),
}

#[derive(Clone, Debug)]
struct Function {
    name: String,
    text: String,
    role: Role,
}

#[derive(Clone, Debug)]
struct Import {
    module: usize,
    prefix: String,
    alias: bool,
    names: Vec<String>,
}

#[derive(Clone, Debug)]
struct Module {
    package: usize,
    path: Vec<String>,
    imports: Vec<Import>,
    type_names: Vec<String>,
    types: Vec<Definition>,
    function_names: Vec<String>,
    functions: Vec<Function>,
    /// Texts of a mistake
    extra_types: String,
    extra_functions: String,
}

#[derive(Default)]
struct World {
    modules: Vec<Module>,
}

fn public(name: &str) -> bool {
    name.starts_with(|letter: char| letter.is_ascii_uppercase())
}

/// How a name of an imported module is spelled.
fn spell(import: &Import, name: &str, own: &[String]) -> Option<String> {
    if !public(name) {
        None
    } else if import.names.iter().any(|other| other == name) {
        (!own.iter().any(|other| other == name)).then(|| name.to_owned())
    } else {
        Some(format!("{}'{name}", import.prefix))
    }
}

impl World {
    fn definition(&self, id: Id) -> &Definition {
        &self.modules[id.0].types[id.1]
    }

    fn function(&self, id: Id) -> &Function {
        &self.modules[id.0].functions[id.1]
    }

    fn flat(&self, type_: &Type) -> BTreeSet<Flat> {
        match type_ {
            Type::Number => [Flat::Number].into(),
            Type::Text => [Flat::Text].into(),
            Type::Maybe(type_) => {
                let mut set = self.flat(type_);
                set.insert(Flat::None);
                set
            }
            Type::Ref(id) => match &self.definition(*id).body {
                Body::Record(_) => [Flat::Record(*id)].into(),
                Body::Alias(type_) => self.flat(type_),
            },
        }
    }

    fn record(&self, type_: &Type) -> Option<Id> {
        match self.flat(type_).into_iter().collect::<Vec<_>>()[..] {
            [Flat::Record(id)] => Some(id),
            _ => None,
        }
    }

    fn fields(&self, id: Id) -> &[(String, Type)] {
        match &self.definition(id).body {
            Body::Record(fields) => fields,
            Body::Alias(_) => &[],
        }
    }

    fn open(&self, id: Id) -> bool {
        self.fields(id).iter().all(|(name, _)| public(name))
    }

    /// Types that a module can name, and how.
    fn types(&self, module: usize) -> Vec<(String, Id)> {
        let own = &self.modules[module];
        let mut found =
            own.types.iter().enumerate().map(|(index, definition)| (definition.name.clone(), (module, index))).collect::<Vec<_>>();
        for import in &own.imports {
            for (index, definition) in self.modules[import.module].types.iter().enumerate() {
                if let Some(name) = spell(import, &definition.name, &own.type_names) {
                    found.push((name, (import.module, index)));
                }
            }
        }
        found
    }

    fn functions(&self, module: usize) -> Vec<(String, Id)> {
        let own = &self.modules[module];
        let mut found =
            own.functions.iter().enumerate().map(|(index, function)| (function.name.clone(), (module, index))).collect::<Vec<_>>();
        for import in &own.imports {
            for (index, function) in self.modules[import.module].functions.iter().enumerate() {
                if let Some(name) = spell(import, &function.name, &own.function_names) {
                    found.push((name, (import.module, index)));
                }
            }
        }
        found
    }

    fn type_text(&self, module: usize, type_: &Type) -> Option<String> {
        Some(match type_ {
            Type::Number => "number".into(),
            Type::Text => "string".into(),
            Type::Maybe(type_) => format!("{} | none", self.type_text(module, type_)?),
            Type::Ref(id) => self.types(module).into_iter().find(|(_, other)| other == id)?.0,
        })
    }

    fn type_(&self, g: &mut Gen, module: usize, depth: usize) -> Type {
        let types = self.types(module);
        match g.weighted(&[2, 1, if types.is_empty() { 0 } else { 5 }, depth as u64]) {
            0 => Type::Number,
            1 => Type::Text,
            2 => Type::Ref(types[g.usize(types.len())].1),
            _ => Type::Maybe(self.type_(g, module, depth - 1).into()),
        }
    }

    /// An expression of a type where some variables are numbers.
    fn expression(&self, g: &mut Gen, module: usize, type_: &Type, arguments: &[&str], depth: usize) -> Option<(String, Expression)> {
        match type_ {
            Type::Number => Some(match g.below(3) {
                0 => {
                    let value = g.below(4);
                    (value.to_string(), Expression::Number(value))
                }
                1 if depth > 0 => {
                    let calls = self.calls(module, |role| matches!(role, Role::Number(_)));
                    if calls.is_empty() {
                        return Some(("1".into(), Expression::Number(1)));
                    }
                    let (name, id) = &calls[g.usize(calls.len())];
                    (format!("{name}()"), Expression::Call(*id, vec![]))
                }
                _ if arguments.is_empty() => ("2".into(), Expression::Number(2)),
                _ => {
                    let index = g.usize(arguments.len());
                    (arguments[index].into(), Expression::Argument(index))
                }
            }),
            Type::Text => {
                let value = g.below(3);
                Some((format!("\"{value}\""), Expression::Text(value)))
            }
            Type::Maybe(type_) => {
                if g.chance(1, 3) {
                    Some(("none".into(), Expression::None))
                } else {
                    self.expression(g, module, type_, arguments, depth)
                }
            }
            Type::Ref(id) => {
                if let Body::Alias(type_) = &self.definition(*id).body {
                    if self.record(type_).is_none() {
                        return self.expression(g, module, &type_.clone(), arguments, depth);
                    }
                }
                let record = self.record(type_)?;
                let calls = self.calls(module, |role| matches!(role, Role::Make(type_, _) if self.record(type_) == Some(record)));
                // Either of the names of the type
                let names = self
                    .types(module)
                    .into_iter()
                    .filter(|(_, other)| self.record(&Type::Ref(*other)) == Some(record))
                    .collect::<Vec<_>>();
                let constructible = depth > 0 && !names.is_empty() && (record.0 == module || self.open(record));
                if !calls.is_empty() && (!constructible || g.chance(1, 3)) {
                    let (name, id) = &calls[g.usize(calls.len())];
                    let (text, argument) = self.expression(g, module, &Type::Number, arguments, 0)?;
                    return Some((format!("{name}({text})"), Expression::Call(*id, vec![argument])));
                }
                if !constructible {
                    return None;
                }
                let (name, _) = &names[g.usize(names.len())];
                let (mut texts, mut values) = (vec![], vec![]);
                for (field, type_) in self.fields(record).to_vec() {
                    let (text, value) = self.expression(g, module, &type_, arguments, depth - 1)?;
                    texts.push(format!("{field}: {text}"));
                    values.push(value);
                }
                // Their order in the text does not matter.
                if g.bool() {
                    texts.reverse();
                }
                Some((format!("{name}{{{}}}", texts.join(", ")), Expression::Record(record, values)))
            }
        }
    }

    fn calls(&self, module: usize, test: impl Fn(&Role) -> bool) -> Vec<(String, Id)> {
        self.functions(module).into_iter().filter(|(_, id)| test(&self.function(*id).role)).collect()
    }

    fn evaluate(&self, expression: &Expression, arguments: &[u64]) -> Value {
        match expression {
            Expression::Number(number) => Value::Number(*number),
            Expression::Argument(index) => Value::Number(arguments[*index]),
            Expression::Text(text) => Value::Text(*text),
            Expression::None => Value::None,
            Expression::Record(id, fields) => Value::Record(*id, fields.iter().map(|field| self.evaluate(field, arguments)).collect()),
            Expression::Call(id, given) => {
                let given = given.iter().map(|argument| self.number(argument, arguments)).collect::<Vec<_>>();
                match &self.function(*id).role {
                    Role::Number(expression) | Role::Make(_, expression) | Role::Wrap(expression) => self.evaluate(expression, &given),
                    role => unreachable!("{role:?}"),
                }
            }
            Expression::Sum(terms) => Value::Number(terms.iter().map(|term| self.number(term, arguments)).sum()),
        }
    }

    fn number(&self, expression: &Expression, arguments: &[u64]) -> u64 {
        match self.evaluate(expression, arguments) {
            Value::Number(number) => number,
            value => unreachable!("{value:?}"),
        }
    }

    fn generate_function(&self, g: &mut Gen, module: usize, name: &str, mark: u64) -> Option<Function> {
        let types = self.types(module);
        let (text, role) = match g.below(9) {
            0 | 1 => {
                let mut texts = vec![mark.to_string()];
                let mut terms = vec![Expression::Number(mark)];
                for _ in 0..g.below(3) {
                    let (text, term) = self.expression(g, module, &Type::Number, &[], 1)?;
                    texts.push(text);
                    terms.push(term);
                }
                (format!("\\() number {{\n  {}\n}}", texts.join(" + ")), Role::Number(Expression::Sum(terms)))
            }
            2 => {
                let type_ = self.type_(g, module, 1);
                let (text, expression) = self.expression(g, module, &type_, &["n"], 2)?;
                (format!("\\(n number) {} {{\n  {text}\n}}", self.type_text(module, &type_)?), Role::Make(type_, expression))
            }
            3 => {
                let type_ = self.type_(g, module, 0);
                let (text, expression) = self.expression(g, module, &type_, &["n"], 2)?;
                (format!("\\(n number) any {{\n  {text}\n}}"), Role::Wrap(expression))
            }
            4 => {
                let mut branches: Vec<(Flat, Option<usize>, u64)> = vec![];
                let mut text = String::new();
                for _ in 0..1 + g.below(4) {
                    let type_ = if types.is_empty() || g.chance(1, 4) {
                        self.type_(g, module, 0)
                    } else {
                        Type::Ref(types[g.usize(types.len())].1)
                    };
                    let flat = self.flat(&type_).into_iter().collect::<Vec<_>>();
                    let [flat] = &flat[..] else { continue };
                    if branches.iter().any(|(other, ..)| other == flat) {
                        continue;
                    }
                    let code = mark + branches.len() as u64 + 1;
                    let field = match flat {
                        Flat::Record(id) if id.0 == module || self.open(*id) => {
                            self.fields(*id).iter().position(|(_, type_)| self.flat(type_) == [Flat::Number].into())
                        }
                        _ => None,
                    };
                    let field = field.filter(|_| g.bool());
                    let result = match (field, flat) {
                        (Some(index), Flat::Record(id)) => format!("{code} + v.{}", self.fields(*id)[index].0),
                        _ => code.to_string(),
                    };
                    let type_ = self.type_text(module, &type_)?;
                    text += &if branches.is_empty() {
                        format!("if v = v as {type_} {{\n    {result}\n  }}")
                    } else {
                        format!(" else if {type_} {{\n    {result}\n  }}")
                    };
                    branches.push((flat.clone(), field, code));
                }
                if branches.is_empty() {
                    return None;
                }
                (format!("\\(v any) number {{\n  {text} else {{\n    {mark}\n  }}\n}}"), Role::Which(branches, mark))
            }
            5 => {
                let records = types
                    .iter()
                    .filter_map(|(_, id)| {
                        let record = self.record(&Type::Ref(*id))?;
                        let index = self.fields(record).iter().position(|(_, type_)| self.flat(type_) == [Flat::Number].into())?;
                        (record.0 == module || self.open(record)).then_some((*id, record, index))
                    })
                    .collect::<Vec<_>>();
                if records.is_empty() {
                    return None;
                }
                let (id, record, index) = records[g.usize(records.len())];
                let type_ = self.type_text(module, &Type::Ref(id))?;
                (format!("\\(v {type_}) number {{\n  v.{}\n}}", self.fields(record)[index].0), Role::Field(Type::Ref(record), index))
            }
            6 | 7 => {
                let type_ = self.type_(g, module, 1);
                let (text, expression) = self.expression(g, module, &type_, &["a"], 2)?;
                let other = {
                    // The same text with another variable, by a function
                    let type_ = self.type_text(module, &type_)?;
                    format!("\\(a number) {type_} {{\n    {text}\n  }}")
                };
                let spelled = self.type_text(module, &type_)?;
                if g.bool() {
                    (
                        format!("\\(a number, b number) boolean {{\n  f = {other}\n  f(a) == f(b)\n}}"),
                        Role::Same(expression),
                    )
                } else {
                    (
                        format!(
                            "\\(a number, b number) boolean {{\n  f = {other}\n  m = {{{spelled}: number f(a): 1}}\n\n  if v = m[f(b)] {{\n    v == 1\n  }} else {{\n    false\n  }}\n}}"
                        ),
                        Role::Look(expression),
                    )
                }
            }
            _ => {
                // A local name that may be the one of a function of any module
                let local = *g.pick(&FUNCTIONS);
                (format!("\\({local} number) number {{\n  {local} + {mark}\n}}"), Role::Local(mark))
            }
        };
        Some(Function { name: name.into(), text, role })
    }

    fn generate_type(&self, g: &mut Gen, module: usize, name: &str) -> Definition {
        let body = if g.chance(2, 3) {
            let mut fields: Vec<(String, Type)> = vec![];
            let closed = g.chance(1, 3);
            for _ in 0..g.below(4) {
                let field = FIELDS[g.usize(if closed { 4 } else { 2 })];
                if fields.iter().all(|(other, _)| other != field) {
                    fields.push((field.into(), self.type_(g, module, 1)));
                }
            }
            Body::Record(fields)
        } else {
            Body::Alias(self.type_(g, module, 1))
        };
        Definition { name: name.into(), body }
    }

    fn import_text(&self, module: usize, import: &Import) -> String {
        let target = &self.modules[import.module];
        let mut text = String::from("import ");
        if target.package != self.modules[module].package {
            text += PACKAGES[target.package];
        }
        for component in &target.path {
            text += &format!("'{component}");
        }
        if import.alias {
            text += &format!(" as {}", import.prefix);
        }
        if !import.names.is_empty() {
            text += &format!(" {{ {} }}", import.names.join(", "));
        }
        text
    }

    fn text(&self, module: usize) -> String {
        let own = &self.modules[module];
        let mut text = String::new();
        for import in &own.imports {
            text += &format!("{}\n", self.import_text(module, import));
        }
        for definition in &own.types {
            text += &match &definition.body {
                Body::Alias(type_) => format!("\ntype {} = {}\n", definition.name, self.type_text(module, type_).unwrap()),
                Body::Record(fields) => {
                    let fields = fields
                        .iter()
                        .map(|(name, type_)| format!("  {name} {}\n", self.type_text(module, type_).unwrap()))
                        .collect::<String>();
                    format!("\ntype {} {{\n{fields}}}\n", definition.name)
                }
            };
        }
        text += &own.extra_types;
        for function in &own.functions {
            text += &format!("\n{} = {}\n", function.name, function.text);
        }
        text + &own.extra_functions
    }

    fn title(&self, module: usize) -> String {
        let own = &self.modules[module];
        format!("{}/{}.pen", PACKAGES[own.package], own.path.join("/"))
    }

    fn describe(&self) -> String {
        (0..self.modules.len()).map(|module| format!("--- {}\n{}\n", self.title(module), self.text(module))).collect()
    }

    fn compile(&self, module: usize, done: &[Compiled]) -> Result<Compiled, Error> {
        let ast = pipeline::parse(&self.text(module), &self.title(module))?;
        let interfaces = ast
            .imports()
            .iter()
            .zip(&self.modules[module].imports)
            .map(|(path, import)| (path.module_path().clone(), done[import.module].interface.clone()))
            .collect();
        pipeline::compile(&ast, &format!("{}:", self.title(module)), &interfaces)
    }
}

fn world(g: &mut Gen) -> World {
    let mut world = World::default();
    for _ in 0..2 + g.len(4) {
        let package = if g.bool() { 0 } else { g.usize(PACKAGES.len()) };
        let path = (0..1 + g.usize(2)).map(|_| (*g.pick(&COMPONENTS)).to_owned()).collect::<Vec<_>>();
        if world.modules.iter().any(|other| other.package == package && other.path == path) {
            continue;
        }
        let module = world.modules.len();
        world.modules.push(Module {
            package,
            path,
            imports: vec![],
            type_names: vec![],
            types: vec![],
            function_names: vec![],
            functions: vec![],
            extra_types: String::new(),
            extra_functions: String::new(),
        });
        for _ in 0..1 + g.len(3) {
            let other = g.usize(module.max(1));
            let target = &world.modules[other];
            let private = target.path.iter().any(|component| !public(component));
            if other == module
                || private && target.package != package
                || world.modules[module].imports.iter().any(|import| import.module == other)
            {
                continue;
            }
            let mut prefix = target.path.last().unwrap().clone();
            let mut alias = g.chance(1, 4);
            if alias {
                prefix = (*g.pick(&["Foo", "A", "p", "Bar", "get"])).to_owned();
            }
            if world.modules[module].imports.iter().any(|import| import.prefix == prefix) {
                alias = true;
                prefix = format!("p{}", world.modules[module].imports.len());
            }
            let mut names = vec![];
            if g.bool() {
                let all = target
                    .types
                    .iter()
                    .map(|definition| definition.name.clone())
                    .chain(target.functions.iter().map(|function| function.name.clone()))
                    .filter(|name| public(name))
                    .filter(|name| world.modules[module].imports.iter().all(|import| !import.names.contains(name)))
                    .collect::<BTreeSet<_>>()
                    .into_iter()
                    .collect::<Vec<_>>();
                names = all.into_iter().filter(|_| g.bool()).collect();
            }
            world.modules[module].imports.push(Import { module: other, prefix, alias, names });
        }
        for _ in 0..1 + g.len(4) {
            let name = *g.pick(&TYPES);
            if world.modules[module].type_names.iter().all(|other| other != name) {
                world.modules[module].type_names.push(name.into());
            }
        }
        for name in world.modules[module].type_names.clone() {
            let definition = world.generate_type(g, module, &name);
            world.modules[module].types.push(definition);
        }
        for _ in 0..2 + g.len(5) {
            let name = *g.pick(&FUNCTIONS);
            if world.modules[module].function_names.iter().all(|other| other != name) {
                world.modules[module].function_names.push(name.into());
            }
        }
        for (index, name) in world.modules[module].function_names.clone().into_iter().enumerate() {
            let mark = 10 + (module * 8 + index) as u64 * 10;
            let function = world.generate_function(g, module, &name, mark).unwrap_or_else(|| Function {
                name,
                text: format!("\\() number {{\n  {mark}\n}}"),
                role: Role::Number(Expression::Number(mark)),
            });
            world.modules[module].functions.push(function);
        }
    }
    world
}

fn run(done: &[Compiled], stage: usize) -> Result<crate::machine::Machine, Failure> {
    let modules = done
        .iter()
        .map(|module| Ok(pipeline::stages(&module.mir, stage)?.pop().unwrap()))
        .collect::<Result<Vec<_>, Error>>()
        .map_err(|error| Failure::new("passes", format!("{error:?}")))?;
    pipeline::machine(&modules.iter().collect::<Vec<_>>(), stage, FUEL).map_err(|stop| crate::failure(&stop, "linking"))
}

/// The interface of a module has the public names of the module, and their meaning.
fn check_interface(world: &World, module: usize, interface: &interface::Module) -> CaseResult {
    let own = &world.modules[module];
    let mut expected = BTreeSet::new();
    for (index, definition) in own.types.iter().enumerate() {
        let open = matches!(definition.body, Body::Record(_)) && world.open((module, index));
        let fields = world.fields((module, index)).iter().map(|(name, _)| name.clone()).collect::<Vec<_>>();
        if public(&definition.name) {
            expected.insert((definition.name.clone(), fields, open));
        }
    }
    let found = interface
        .type_definitions()
        .iter()
        .filter(|definition| definition.is_public())
        .map(|definition| {
            let fields = definition.fields().iter().map(|field| field.name().to_owned()).collect::<Vec<_>>();
            (definition.original_name().to_owned(), fields, definition.is_open())
        })
        .chain(
            interface
                .type_aliases()
                .iter()
                .filter(|alias| alias.is_public())
                .map(|alias| (alias.original_name().to_owned(), vec![], false)),
        )
        .collect::<Vec<_>>();
    ensure_eq!(found.iter().cloned().collect::<BTreeSet<_>>(), expected, "types", "public types of {}", world.title(module));
    ensure_eq!(found.len(), expected.len(), "types-once", "public types of {}", world.title(module));
    let expected = own.functions.iter().map(|function| function.name.clone()).filter(|name| public(name)).collect::<Vec<_>>();
    let found = interface.function_declarations().iter().map(|function| function.original_name().to_owned()).collect::<Vec<_>>();
    ensure_eq!(found, expected, "functions", "functions of {}", world.title(module));
    Ok(())
}

pub fn modules(g: &mut Gen) -> CaseResult {
    let world = world(g);
    g.describe(|| world.describe());
    let mut done = vec![];
    for module in 0..world.modules.len() {
        let compiled = world.compile(module, &done).map_err(|error| {
            Failure::new("refused", format!("{} is refused: {error:?}", world.title(module)))
        })?;
        check_interface(&world, module, &compiled.interface)?;
        done.push(compiled);
    }
    let imports = world.modules.iter().map(|module| module.imports.len()).sum::<usize>();
    let stage = if g.chance(1, 4) { 0 } else { LAST };
    let stop = |stop: crate::machine::Stop| crate::failure(&stop, "running the modules");
    let machine = run(&done, stage)?;
    let functions = done
        .iter()
        .enumerate()
        .flat_map(|(module, compiled)| {
            compiled.interface.function_declarations().iter().map(move |function| (module, function))
        })
        .map(|(module, function)| {
            let index = world.modules[module].functions.iter().position(|other| other.name == function.original_name()).unwrap();
            ((module, index), function.name().to_owned())
        })
        .collect::<Vec<_>>();
    let (mut anys, mut typed) = (vec![], vec![]);
    let mut crossing = 0;
    for (id, name) in &functions {
        let (title, own) = (world.title(id.0), &world.function(*id).name);
        let (a, b) = (g.below(3), g.below(3));
        let at = |number: u64| Run::Number(number as f64);
        match &world.function(*id).role {
            Role::Number(expression) => {
                let result = number(machine.call_name(name, vec![]).map_err(stop)?).map_err(stop)?;
                ensure_eq!(result, world.number(expression, &[]) as f64, "number", "{own} of {title}");
            }
            Role::Local(mark) => {
                let result = number(machine.call_name(name, vec![at(a)]).map_err(stop)?).map_err(stop)?;
                ensure_eq!(result, (a + mark) as f64, "local", "{own} of {title}");
            }
            Role::Make(type_, expression) => {
                let value = machine.call_name(name, vec![at(a)]).map_err(stop)?;
                if let Some(record) = world.record(type_) {
                    typed.push((record, value, world.evaluate(expression, &[a]), id));
                } else if stage == LAST {
                    machine.drop_value(&value).map_err(stop)?;
                }
            }
            Role::Wrap(expression) => {
                let value = machine.call_name(name, vec![at(a)]).map_err(stop)?;
                anys.push((value, world.evaluate(expression, &[a]), id));
            }
            Role::Same(expression) | Role::Look(expression) => {
                let result = boolean(machine.call_name(name, vec![at(a), at(b)]).map_err(stop)?).map_err(stop)?;
                let same = world.evaluate(expression, &[a]) == world.evaluate(expression, &[b]);
                ensure_eq!(result, same, "equality", "{own}({a}, {b}) of {title}");
            }
            Role::Which(..) | Role::Field(..) => {}
        }
    }
    let give = |value: &Run| if stage == LAST { machine.clone_value(value) } else { Ok(value.clone()) };
    for (id, name) in &functions {
        let (title, own) = (world.title(id.0), &world.function(*id).name);
        match &world.function(*id).role {
            Role::Which(branches, other) => {
                for (value, model, from) in &anys {
                    let flat = match model {
                        Value::Number(_) => Flat::Number,
                        Value::Text(_) => Flat::Text,
                        Value::None => Flat::None,
                        Value::Record(id, _) => Flat::Record(*id),
                    };
                    let expected = match branches.iter().find(|(other, ..)| *other == flat) {
                        None => *other,
                        Some((_, None, code)) => *code,
                        Some((_, Some(index), code)) => match model {
                            Value::Record(_, fields) => match fields[*index] {
                                Value::Number(number) => number + code,
                                _ => unreachable!(),
                            },
                            _ => unreachable!(),
                        },
                    };
                    crossing += (from.0 != id.0) as usize;
                    let value = give(value).map_err(stop)?;
                    let result = number(machine.call_name(name, vec![value]).map_err(stop)?).map_err(stop)?;
                    ensure_eq!(result, expected as f64, "type", "{own} of {title} given {model:?}");
                }
            }
            Role::Field(type_, index) => {
                for (record, value, model, from) in &typed {
                    if *type_ != Type::Ref(*record) {
                        continue;
                    }
                    let Value::Record(_, fields) = model else { unreachable!() };
                    let Value::Number(expected) = fields[*index] else { unreachable!() };
                    crossing += (from.0 != id.0) as usize;
                    let value = give(value).map_err(stop)?;
                    let result = number(machine.call_name(name, vec![value]).map_err(stop)?).map_err(stop)?;
                    ensure_eq!(result, expected as f64, "field", "{own} of {title} given {model:?}");
                }
            }
            _ => {}
        }
    }
    g.label_if(crossing > 0, "values of other modules");
    g.label_if(world.modules.iter().any(|module| module.imports.iter().any(|import| !import.names.is_empty())), "names without prefixes");
    if imports > 0 && functions.len() > 1 {
        g.nontrivial(&world.describe());
    }
    if stage == LAST {
        for value in anys.iter().map(|(value, ..)| value).chain(typed.iter().map(|(_, value, ..)| value)) {
            machine.drop_value(value).map_err(stop)?;
        }
        machine.drop_globals().map_err(stop)?;
        ensure_eq!(machine.live(), 0, "leak", "values left");
    }
    Ok(())
}

/// Uses of names that are not there, or not for others, are refused.
pub fn mistakes(g: &mut Gen) -> CaseResult {
    let mut world = world(g);
    let importing = (0..world.modules.len()).filter(|index| !world.modules[*index].imports.is_empty()).collect::<Vec<_>>();
    let module = if importing.is_empty() || g.chance(1, 8) { g.usize(world.modules.len()) } else { *g.pick(&importing) };
    let own = world.modules[module].clone();
    let mut choices: Vec<(&str, String, String)> = vec![];
    let function = |expression: &str| format!("\nodd = \\() any {{\n  {expression}\n}}\n");
    let taking = |type_: &str| format!("\nodd = \\(x {type_}) number {{\n  1\n}}\n");
    let visible = world.functions(module).into_iter().map(|(name, _)| name).collect::<BTreeSet<_>>();
    let types = world.types(module).into_iter().map(|(name, _)| name).collect::<BTreeSet<_>>();
    for name in TYPES.iter().filter(|name| !types.contains(**name)) {
        choices.push(("unknown type", taking(name), String::new()));
    }
    for name in FUNCTIONS.iter().filter(|name| !visible.contains(**name)) {
        choices.push(("unknown function", function(name), String::new()));
    }
    for import in &own.imports {
        let target = &world.modules[import.module];
        for name in FUNCTIONS.iter().map(|name| format!("{}'{name}", import.prefix)).filter(|name| !visible.contains(name)) {
            let listed = import.names.iter().any(|other| name.ends_with(&format!("'{other}")));
            // Names in the list are there without the prefix only.
            if !listed {
                choices.push(("private or missing function", function(&name), String::new()));
            }
        }
        for name in TYPES.iter().map(|name| format!("{}'{name}", import.prefix)).filter(|name| !types.contains(name)) {
            let listed = import.names.iter().any(|other| name.ends_with(&format!("'{other}")));
            if !listed {
                choices.push(("private or missing type", taking(&name), String::new()));
            }
        }
        // Modules that are only imported by an imported one
        for through in &target.imports {
            if own.imports.iter().all(|import| import.prefix != through.prefix) {
                for definition in world.modules[through.module].types.iter() {
                    let name = format!("{}'{}", through.prefix, definition.name);
                    choices.push(("type of a module that is not imported", taking(&name), String::new()));
                }
                for other in world.modules[through.module].functions.iter() {
                    let name = format!("{}'{}", through.prefix, other.name);
                    choices.push(("function of a module that is not imported", function(&name), String::new()));
                }
            }
        }
        if import.alias && own.imports.iter().all(|other| other.prefix != *target.path.last().unwrap()) {
            for definition in &target.types {
                let name = format!("{}'{}", target.path.last().unwrap(), definition.name);
                choices.push(("prefix that was changed", taking(&name), String::new()));
            }
        }
    }
    for (name, id) in world.types(module) {
        let Some(record) = world.record(&Type::Ref(id)) else { continue };
        if record.0 == module || world.open(record) {
            continue;
        }
        let fields = world.fields(record);
        let (field, _) = &fields[g.usize(fields.len())];
        choices.push(("field of a closed record", format!("\nodd = \\(x {name}) any {{\n  x.{field}\n}}\n"), String::new()));
        choices.push(("change of a closed record", format!("\nodd = \\(x {name}) any {{\n  {name}{{...x, {field}: x.{field}}}\n}}\n"), String::new()));
        let given = fields
            .iter()
            .map(|(field, type_)| {
                let (text, _) = world.expression(g, module, type_, &[], 2)?;
                Some(format!("{field}: {text}"))
            })
            .collect::<Option<Vec<_>>>();
        if let Some(given) = given {
            choices.push(("making a closed record", function(&format!("{name}{{{}}}", given.join(", "))), String::new()));
        }
    }
    for name in own.type_names.iter() {
        choices.push(("types of one name", String::new(), format!("\ntype {name} = number\n")));
        choices.push(("types of one name", String::new(), format!("\ntype {name} {{\n  X number\n}}\n")));
    }
    for name in own.function_names.iter() {
        choices.push(("functions of one name", format!("\n{name} = \\() number {{\n  1\n}}\n"), String::new()));
    }
    if let Some(index) = (!own.imports.is_empty()).then(|| g.usize(own.imports.len())) {
        let name = ["Nothing", "nothing", "get"][g.usize(3)];
        let target = &world.modules[own.imports[index].module];
        if !target.functions.iter().map(|function| &function.name).any(|other| other == name && public(other)) {
            choices.push(("import of a missing name", format!("import {index} {name}"), String::new()));
        }
    }
    let kinds = choices.iter().map(|(kind, ..)| *kind).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
    let kind = kinds[g.usize(kinds.len())];
    choices.retain(|(other, ..)| *other == kind);
    let (_, functions, types) = choices[g.usize(choices.len())].clone();
    if let Some(rest) = functions.strip_prefix("import ") {
        let (index, name) = rest.split_once(' ').unwrap();
        world.modules[module].imports[index.parse::<usize>().unwrap()].names.push(name.into());
    } else {
        world.modules[module].extra_functions = functions;
        world.modules[module].extra_types = types;
    }
    g.describe(|| format!("mistake: {kind}, in {}\n{}", world.title(module), world.describe()));
    g.label(kind);
    g.nontrivial(&(kind, world.describe()));
    let mut done = vec![];
    for index in 0..module {
        done.push(world.compile(index, &done).map_err(|error| {
            Failure::new("refused", format!("{} is refused: {error:?}", world.title(index)))
        })?);
    }
    match world.compile(module, &done) {
        Ok(_) => fail!("accepted", "{kind} in {} is accepted", world.title(module)),
        Err(Error::Internal { stage, message }) => fail!("internal", "{kind} ends in {stage}: {message}"),
        Err(_) => {}
    }
    Ok(())
}

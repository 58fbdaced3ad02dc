//! An interpreter of the intermediate language (MIR), following what mir-fmm generates code for: call by value, the
//! order of evaluation, thunks evaluated once, and, for programs after the reference count pass, the ownership of every
//! value. Every operation checks the kinds of its operands: a program that is "stuck" is an error of its own.

use mir::{ir, types::Type};
use std::{
    cell::{Cell, RefCell},
    collections::{HashMap, HashSet},
    rc::Rc,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// The program is not well-formed: an operation got a value that it does not work on.
    Stuck(String),
    /// A value is released twice, used after its release or still there at the end.
    Heap(String),
    /// Too many steps.
    Fuel,
    /// The program ended itself.
    Exit(String),
}

pub type Res<T> = Result<T, Stop>;

pub struct Object<T> {
    /// Negative: static, never released.
    count: Cell<i64>,
    pub data: T,
}

pub struct RecordData {
    pub type_: Rc<str>,
    pub fields: RefCell<Vec<Value>>,
}

pub enum ClosureState {
    Function,
    Initial,
    Locked,
    Normal(Value),
}

pub struct Closure {
    pub function: Rc<Function>,
    environment: RefCell<Vec<Value>>,
    state: RefCell<ClosureState>,
}

#[derive(Clone)]
pub enum Value {
    None,
    Boolean(bool),
    Number(f64),
    String(Rc<Object<Vec<u8>>>),
    Record(Rc<Object<RecordData>>),
    Function(Rc<Object<Closure>>),
    Variant(u32, Rc<Value>),
    /// A function of the host; the data are the host's.
    Native(Rc<Object<NativeData>>),
}

pub type NativeFunction = Rc<dyn Fn(&Machine, Vec<Value>) -> Res<Value>>;

pub struct NativeData {
    pub name: String,
    pub arity: usize,
    pub run: NativeFunction,
    /// Owned values, released with the function.
    pub owned: RefCell<Vec<Value>>,
}

impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Value::None => write!(f, "none"),
            Value::Boolean(b) => write!(f, "{b}"),
            Value::Number(n) => write!(f, "{n:?}"),
            Value::String(s) => write!(f, "\"{}\"", s.data.escape_ascii()),
            Value::Record(r) => {
                write!(f, "{}{{", r.data.type_)?;
                for (i, field) in r.data.fields.borrow().iter().enumerate() {
                    write!(f, "{}{field:?}", if i > 0 { ", " } else { "" })?;
                }
                write!(f, "}}")
            }
            Value::Function(c) => write!(f, "<{}>", c.data.function.name),
            Value::Variant(tag, payload) => write!(f, "#{tag}({payload:?})"),
            Value::Native(n) => write!(f, "<{}>", n.data.name),
        }
    }
}

type Slot = usize;

#[derive(Debug)]
enum Code {
    None,
    Boolean(bool),
    Number(f64),
    String(Value),
    Local(Slot),
    Global(usize),
    Arithmetic(ir::ArithmeticOperator, Box<Code>, Box<Code>),
    Compare(ir::ComparisonOperator, Box<Code>, Box<Code>),
    If(Box<[Code; 3]>),
    Let(Slot, Box<[Code; 2]>),
    LetRecursive(Slot, Rc<Function>, Vec<Slot>, Box<Code>),
    Call(Box<Code>, Vec<Code>),
    Case(Box<Code>, Vec<(Vec<u32>, Slot, Code)>, Option<(Slot, Box<Code>)>),
    Clone(Vec<Slot>, Box<Code>),
    Drop(Vec<Slot>, Box<Code>),
    Record(Rc<str>, usize, Vec<Code>),
    Field(Rc<str>, usize, Box<Code>),
    Update(Rc<str>, Box<Code>, Vec<(usize, Code)>),
    Concatenate(Vec<Code>),
    Try(Box<Code>, u32, Slot, Box<Code>),
    TypeInformation(Box<Code>, usize),
    Variant(u32, Box<Code>),
}

pub struct Function {
    pub name: String,
    /// A definition of the module rather than a closure.
    global: bool,
    thunk: bool,
    environment: usize,
    arguments: usize,
    slots: usize,
    code: Code,
}

impl std::fmt::Debug for Function {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.name)
    }
}

enum Global {
    Value(Value),
    Missing,
}

/// What a machine expects of its modules.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mode {
    /// Closures hold exactly the environments written in their definitions.
    pub closed: bool,
    /// Clones and drops are written out, and decide when values are released.
    pub counted: bool,
}

impl Mode {
    pub const SOURCE: Self = Self { closed: false, counted: false };
    pub const CLOSED: Self = Self { closed: true, counted: false };
    pub const COUNTED: Self = Self { closed: true, counted: true };
}

pub struct Machine {
    pub mode: Mode,
    globals: RefCell<Vec<Global>>,
    names: RefCell<HashMap<String, usize>>,
    foreign: RefCell<HashMap<String, usize>>,
    /// Definitions to compile after every module is known.
    tags: RefCell<HashMap<Type, u32>>,
    types: RefCell<Vec<Type>>,
    information: RefCell<HashMap<u32, usize>>,
    live: Cell<i64>,
    allocated: Cell<u64>,
    fuel: Cell<u64>,
    pub calls: Cell<u64>,
    depth: Cell<usize>,
    pub trace: RefCell<Vec<String>>,
    /// In-place updates and copies of records.
    pub reused: Cell<u64>,
    pub copied: Cell<u64>,
}

const MAXIMUM_DEPTH: usize = 100_000;

enum Flow {
    Value(Value),
    Tail(Value, Vec<Value>),
    /// A try operation leaves the function.
    Return(Value),
}

fn stuck<T>(message: impl Into<String>) -> Res<T> {
    Err(Stop::Stuck(message.into()))
}

impl Machine {
    pub fn new(mode: Mode, fuel: u64) -> Self {
        Self {
            mode,
            globals: Default::default(),
            names: Default::default(),
            foreign: Default::default(),
            tags: Default::default(),
            types: Default::default(),
            information: Default::default(),
            live: Cell::new(0),
            allocated: Cell::new(0),
            fuel: Cell::new(fuel),
            calls: Cell::new(0),
            depth: Cell::new(0),
            trace: Default::default(),
            reused: Cell::new(0),
            copied: Cell::new(0),
        }
    }

    pub fn set_fuel(&self, fuel: u64) {
        self.fuel.set(fuel)
    }

    pub fn live(&self) -> i64 {
        self.live.get()
    }

    pub fn allocated(&self) -> u64 {
        self.allocated.get()
    }

    pub fn tag(&self, type_: &Type) -> u32 {
        if let Some(tag) = self.tags.borrow().get(type_) {
            return *tag;
        }

        let tag = self.types.borrow().len() as u32;
        self.types.borrow_mut().push(type_.clone());
        self.tags.borrow_mut().insert(type_.clone(), tag);
        tag
    }

    pub fn tag_type(&self, tag: u32) -> Type {
        self.types.borrow()[tag as usize].clone()
    }

    // Values

    fn object<T>(&self, data: T) -> Rc<Object<T>> {
        self.live.set(self.live.get() + 1);
        self.allocated.set(self.allocated.get() + 1);
        Rc::new(Object { count: Cell::new(1), data })
    }

    fn static_object<T>(data: T) -> Rc<Object<T>> {
        Rc::new(Object { count: Cell::new(-1), data })
    }

    pub fn string(&self, bytes: impl Into<Vec<u8>>) -> Value {
        Value::String(self.object(bytes.into()))
    }

    pub fn record(&self, type_: &str, fields: Vec<Value>) -> Value {
        Value::Record(self.object(RecordData { type_: type_.into(), fields: RefCell::new(fields) }))
    }

    pub fn variant(&self, type_: &Type, payload: Value) -> Value {
        Value::Variant(self.tag(type_), Rc::new(payload))
    }

    /// A closure of the host.
    pub fn native(
        &self,
        name: impl Into<String>,
        arity: usize,
        owned: Vec<Value>,
        run: impl Fn(&Machine, Vec<Value>) -> Res<Value> + 'static,
    ) -> Value {
        Value::Native(self.object(NativeData { name: name.into(), arity, run: Rc::new(run), owned: RefCell::new(owned) }))
    }

    fn count_of<'a>(&self, value: &'a Value) -> Option<&'a Cell<i64>> {
        match value {
            Value::String(s) => Some(&s.count),
            Value::Record(r) => Some(&r.count),
            Value::Function(f) => Some(&f.count),
            Value::Native(f) => Some(&f.count),
            Value::Variant(_, payload) => self.count_of(payload),
            Value::None | Value::Boolean(_) | Value::Number(_) => None,
        }
    }

    /// Whether nothing else holds a value.
    pub fn is_unique(&self, value: &Value) -> bool {
        self.count_of(value).is_some_and(|count| count.get() == 1)
    }

    fn check_alive(&self, value: &Value, use_: &str) -> Res<()> {
        if self.mode.counted {
            if let Some(count) = self.count_of(value) {
                if count.get() == 0 {
                    return Err(Stop::Heap(format!("{use_} of a released value {value:?}")));
                }
            }
        }

        Ok(())
    }

    pub fn clone_value(&self, value: &Value) -> Res<Value> {
        if self.mode.counted {
            self.check_alive(value, "clone")?;

            if let Some(count) = self.count_of(value) {
                if count.get() > 0 {
                    count.set(count.get() + 1);
                }
            }
        }

        Ok(value.clone())
    }

    pub fn drop_value(&self, value: &Value) -> Res<()> {
        if !self.mode.counted {
            return Ok(());
        }

        if let Value::Variant(_, payload) = value {
            return self.drop_value(payload);
        }

        self.check_alive(value, "release")?;

        let Some(count) = self.count_of(value) else { return Ok(()) };

        if count.get() < 0 {
            return Ok(());
        }

        count.set(count.get() - 1);

        if count.get() > 0 {
            return Ok(());
        }

        self.live.set(self.live.get() - 1);

        match value {
            Value::Record(record) => {
                for field in record.data.fields.borrow().iter() {
                    self.drop_value(field)?;
                }
            }
            Value::Function(closure) => match &*closure.data.state.borrow() {
                ClosureState::Function | ClosureState::Initial => {
                    for value in closure.data.environment.borrow().iter() {
                        self.drop_value(value)?;
                    }
                }
                ClosureState::Locked => return Err(Stop::Heap("release of a thunk under evaluation".into())),
                ClosureState::Normal(value) => self.drop_value(value)?,
            },
            Value::Native(native) => {
                for value in native.data.owned.borrow().iter() {
                    self.drop_value(value)?;
                }
            }
            _ => {}
        }

        Ok(())
    }

    /// Releases the results of functions of the module that are evaluated once.
    pub fn drop_globals(&self) -> Res<()> {
        let values = self
            .globals
            .borrow()
            .iter()
            .filter_map(|global| match global {
                Global::Value(Value::Function(closure)) => {
                    match std::mem::replace(&mut *closure.data.state.borrow_mut(), ClosureState::Function) {
                        ClosureState::Normal(value) => Some(value),
                        _ => None,
                    }
                }
                _ => None,
            })
            .collect::<Vec<_>>();

        for value in values {
            self.drop_value(&value)?;
        }

        Ok(())
    }

    /// Forgets the results of functions of the module that are evaluated once. Only for machines that count nothing.
    pub fn reset_globals(&self) {
        for global in self.globals.borrow().iter() {
            if let Global::Value(Value::Function(closure)) = global {
                if closure.data.function.thunk {
                    *closure.data.state.borrow_mut() = ClosureState::Initial;
                }
            }
        }
    }

    // Programs

    fn reserve(&self) -> usize {
        let mut globals = self.globals.borrow_mut();
        globals.push(Global::Missing);
        globals.len() - 1
    }

    pub fn define_foreign(
        &self,
        name: &str,
        arity: usize,
        run: impl Fn(&Machine, Vec<Value>) -> Res<Value> + 'static,
    ) {
        let id = self.foreign_id(name);
        self.globals.borrow_mut()[id] = Global::Value(Value::Native(Self::static_object(NativeData {
            name: name.into(),
            arity,
            run: Rc::new(run),
            owned: Default::default(),
        })));
    }

    fn foreign_id(&self, name: &str) -> usize {
        if let Some(id) = self.foreign.borrow().get(name) {
            return *id;
        }

        let id = self.reserve();
        self.foreign.borrow_mut().insert(name.into(), id);
        id
    }

    fn global_id(&self, name: &str) -> usize {
        if let Some(id) = self.names.borrow().get(name) {
            return *id;
        }

        let id = self.reserve();
        self.names.borrow_mut().insert(name.into(), id);
        id
    }

    /// Links one module. The ones linked earlier provide the information of types that both describe.
    pub fn load(&self, module: &ir::Module) -> Res<()> {
        let mut names = HashMap::<String, usize>::new();

        for declaration in module.foreign_declarations() {
            names.insert(declaration.name().into(), self.foreign_id(declaration.foreign_name()));
        }

        for declaration in module.function_declarations() {
            names.insert(declaration.name().into(), self.global_id(declaration.name()));
        }

        for definition in module.function_definitions() {
            let name = definition.definition().name();
            let id = if definition.is_public() { self.global_id(name) } else { self.reserve() };

            if !matches!(self.globals.borrow()[id], Global::Missing) {
                return stuck(format!("two public definitions of {name}"));
            }

            if names.insert(name.into(), id).is_some_and(|other| other != id) {
                return stuck(format!("two definitions of {name} in a module"));
            }
        }

        let fields = module
            .type_definitions()
            .iter()
            .map(|definition| (definition.name(), definition.type_().fields().len()))
            .collect();

        let fallback = *names
            .get(module.type_information().fallback())
            .ok_or_else(|| Stop::Stuck("no default type information".into()))?;

        for (type_, name) in module.type_information().information() {
            let tag = self.tag(type_);
            let id = *names.get(name).ok_or_else(|| Stop::Stuck(format!("no type information {name}")))?;
            self.information.borrow_mut().entry(tag).or_insert(id);
        }

        for definition in module.function_definitions() {
            let definition = definition.definition();
            let id = names[definition.name()];
            let mut compiler = Compiler { machine: self, names: &names, fields: &fields, fallback };
            let function = Rc::new(compiler.function(definition, true, &mut vec![])?.0);

            self.globals.borrow_mut()[id] = Global::Value(Value::Function(Self::static_object(Closure {
                state: RefCell::new(if function.thunk { ClosureState::Initial } else { ClosureState::Function }),
                function,
                environment: Default::default(),
            })));
        }

        for definition in module.foreign_definitions() {
            let id = self.foreign_id(definition.foreign_name());
            let value = match self.globals.borrow()[names[definition.name()]] {
                Global::Value(ref value) => value.clone(),
                Global::Missing => return stuck(format!("no definition of {}", definition.name())),
            };

            self.globals.borrow_mut()[id] = Global::Value(value);
        }

        Ok(())
    }

    pub fn has_global(&self, name: &str) -> bool {
        self.names.borrow().get(name).is_some_and(|id| matches!(self.globals.borrow()[*id], Global::Value(_)))
    }

    fn global(&self, id: usize) -> Res<Value> {
        match &self.globals.borrow()[id] {
            Global::Value(value) => Ok(value.clone()),
            Global::Missing => {
                let name = self
                    .names
                    .borrow()
                    .iter()
                    .chain(self.foreign.borrow().iter())
                    .find(|(_, other)| **other == id)
                    .map(|(name, _)| name.clone());
                stuck(format!("no definition of {name:?}"))
            }
        }
    }

    pub fn get(&self, name: &str) -> Res<Value> {
        let id = *self.names.borrow().get(name).ok_or_else(|| Stop::Stuck(format!("no function {name}")))?;
        self.global(id)
    }

    pub fn call_name(&self, name: &str, arguments: Vec<Value>) -> Res<Value> {
        self.call(&self.get(name)?, arguments)
    }

    pub fn call_foreign(&self, name: &str, arguments: Vec<Value>) -> Res<Value> {
        let id = self.foreign_id(name);
        self.call(&self.global(id)?, arguments)
    }

    // Evaluation

    /// Calls a function; the arguments and the function are given away.
    pub fn call(&self, function: &Value, arguments: Vec<Value>) -> Res<Value> {
        let depth = self.depth.get();

        // As little stack as programs have.
        if depth >= MAXIMUM_DEPTH {
            return Err(Stop::Fuel);
        }

        self.depth.set(depth + 1);
        let result = self.call_deep(function, arguments);
        self.depth.set(depth);
        result
    }

    fn call_deep(&self, function: &Value, arguments: Vec<Value>) -> Res<Value> {
        let mut function = function.clone();
        let mut arguments = arguments;

        loop {
            self.calls.set(self.calls.get() + 1);
            self.burn()?;
            self.check_alive(&function, "call")?;

            match &function {
                Value::Native(native) => {
                    if native.data.arity != arguments.len() {
                        return stuck(format!("{} called with {} arguments", native.data.name, arguments.len()));
                    }

                    let result = (native.data.run.clone())(self, arguments)?;
                    self.drop_value(&function)?;

                    return Ok(result);
                }
                Value::Function(closure) => {
                    if closure.data.function.arguments != arguments.len() {
                        return stuck(format!(
                            "{} called with {} arguments",
                            closure.data.function.name,
                            arguments.len()
                        ));
                    }

                    if closure.data.function.thunk {
                        return self.call_thunk(&function, closure);
                    }

                    match self.enter(&function, closure, arguments, true)? {
                        Flow::Value(value) | Flow::Return(value) => return Ok(value),
                        Flow::Tail(next, next_arguments) => {
                            function = next;
                            arguments = next_arguments;
                        }
                    }
                }
                _ => return stuck(format!("call of {function:?}")),
            }
        }
    }

    fn call_thunk(&self, function: &Value, closure: &Rc<Object<Closure>>) -> Res<Value> {
        let state = std::mem::replace(&mut *closure.data.state.borrow_mut(), ClosureState::Locked);

        match state {
            ClosureState::Initial => {
                self.clone_value(function)?;

                let value = match self.enter(function, closure, vec![], false)? {
                    Flow::Value(value) => value,
                    // The function of the module is left before its value is stored.
                    Flow::Return(value) if closure.count.get() < 0 => {
                        *closure.data.state.borrow_mut() = ClosureState::Initial;
                        return Ok(value);
                    }
                    Flow::Return(_) => return stuck("a thunk is left by a try operation"),
                    Flow::Tail(..) => unreachable!(),
                };

                for value in closure.data.environment.borrow().iter() {
                    self.drop_value(value)?;
                }

                *closure.data.state.borrow_mut() = ClosureState::Normal(self.clone_value(&value)?);
                self.drop_value(function)?;

                Ok(value)
            }
            ClosureState::Normal(value) => {
                let result = self.clone_value(&value)?;
                *closure.data.state.borrow_mut() = ClosureState::Normal(value);
                self.drop_value(function)?;

                Ok(result)
            }
            ClosureState::Locked => Err(Stop::Exit("a thunk needs its own value".into())),
            ClosureState::Function => stuck("call of a finished thunk"),
        }
    }

    fn enter(&self, value: &Value, closure: &Rc<Object<Closure>>, arguments: Vec<Value>, tail: bool) -> Res<Flow> {
        let function = &closure.data.function;
        let mut frame = Vec::with_capacity(function.slots);

        if !function.global {
            frame.push(value.clone());
        }

        for value in closure.data.environment.borrow().iter() {
            frame.push(self.clone_value(value)?);
        }

        frame.extend(arguments);
        frame.resize(function.slots, Value::None);

        self.run(&function.code, &mut frame, tail)
    }

    fn burn(&self) -> Res<()> {
        self.spend(1)
    }

    fn spend(&self, amount: u64) -> Res<()> {
        let fuel = self.fuel.get();

        if fuel < amount {
            return Err(Stop::Fuel);
        }

        self.fuel.set(fuel - amount);
        Ok(())
    }

    fn run(&self, code: &Code, frame: &mut Vec<Value>, tail: bool) -> Res<Flow> {
        macro_rules! value {
            ($code:expr) => {
                match self.run($code, frame, false)? {
                    Flow::Value(value) => value,
                    flow => return Ok(flow),
                }
            };
        }

        let mut code = code;

        Ok(Flow::Value(loop {
            match code {
                Code::None => break Value::None,
                Code::Boolean(boolean) => break Value::Boolean(*boolean),
                Code::Number(number) => break Value::Number(*number),
                Code::String(string) => break string.clone(),
                Code::Local(slot) => break frame[*slot].clone(),
                Code::Global(id) => break self.global(*id)?,
                Code::Arithmetic(operator, lhs, rhs) => {
                    let lhs = number(value!(lhs))?;
                    let rhs = number(value!(rhs))?;

                    break Value::Number(match operator {
                        ir::ArithmeticOperator::Add => lhs + rhs,
                        ir::ArithmeticOperator::Subtract => lhs - rhs,
                        ir::ArithmeticOperator::Multiply => lhs * rhs,
                        ir::ArithmeticOperator::Divide => lhs / rhs,
                    });
                }
                Code::Compare(operator, lhs, rhs) => {
                    let lhs = number(value!(lhs))?;
                    let rhs = number(value!(rhs))?;

                    break Value::Boolean(match operator {
                        ir::ComparisonOperator::Equal => lhs == rhs,
                        ir::ComparisonOperator::NotEqual => lhs != rhs,
                        ir::ComparisonOperator::GreaterThan => lhs > rhs,
                        ir::ComparisonOperator::GreaterThanOrEqual => lhs >= rhs,
                        ir::ComparisonOperator::LessThan => lhs < rhs,
                        ir::ComparisonOperator::LessThanOrEqual => lhs <= rhs,
                    });
                }
                Code::If(codes) => {
                    let [condition, then, else_] = &**codes;

                    code = match value!(condition) {
                        Value::Boolean(true) => then,
                        Value::Boolean(false) => else_,
                        value => return stuck(format!("condition {value:?}")),
                    };
                }
                Code::Let(slot, codes) => {
                    let [bound, body] = &**codes;
                    frame[*slot] = value!(bound);
                    code = body;
                }
                Code::LetRecursive(slot, function, captures, body) => {
                    frame[*slot] = Value::Function(self.object(Closure {
                        state: RefCell::new(if function.thunk { ClosureState::Initial } else { ClosureState::Function }),
                        function: function.clone(),
                        environment: RefCell::new(captures.iter().map(|slot| frame[*slot].clone()).collect()),
                    }));
                    code = body;
                }
                Code::Call(function, arguments) => {
                    let function = value!(function);
                    let mut values = Vec::with_capacity(arguments.len());

                    for argument in arguments {
                        values.push(value!(argument));
                    }

                    if tail {
                        return Ok(Flow::Tail(function, values));
                    }

                    break self.call(&function, values)?;
                }
                Code::Case(argument, alternatives, default) => {
                    let argument = value!(argument);
                    let Value::Variant(tag, payload) = &argument else {
                        return stuck(format!("case of {argument:?}"));
                    };

                    if let Some((tags, slot, body)) = alternatives.iter().find(|(tags, _, _)| tags.contains(tag)) {
                        frame[*slot] = if tags.len() == 1 { (**payload).clone() } else { argument.clone() };
                        code = body;
                    } else if let Some((slot, body)) = default {
                        frame[*slot] = argument.clone();
                        code = body;
                    } else {
                        return stuck(format!("no alternative for {argument:?} of type {:?}", self.tag_type(*tag)));
                    }
                }
                Code::Clone(slots, body) => {
                    for slot in slots {
                        self.clone_value(&frame[*slot])?;
                    }

                    code = body;
                }
                Code::Drop(slots, body) => {
                    for slot in slots {
                        self.drop_value(&frame[*slot])?;
                    }

                    code = body;
                }
                Code::Record(type_, size, fields) => {
                    if fields.len() != *size {
                        return stuck(format!("{} fields of {type_}", fields.len()));
                    }

                    let mut values = Vec::with_capacity(fields.len());

                    for field in fields {
                        values.push(value!(field));
                    }

                    break Value::Record(
                        self.object(RecordData { type_: type_.clone(), fields: RefCell::new(values) }),
                    );
                }
                Code::Field(type_, index, record) => {
                    let value = value!(record);
                    let record = self.record_of(&value, type_)?;
                    let field = self.clone_value(
                        record
                            .data
                            .fields
                            .borrow()
                            .get(*index)
                            .ok_or_else(|| Stop::Stuck(format!("field {index} of {type_}")))?,
                    )?;
                    self.drop_value(&value)?;

                    break field;
                }
                Code::Update(type_, record, fields) => {
                    let value = value!(record);
                    let mut values = Vec::with_capacity(fields.len());

                    for (index, field) in fields {
                        values.push((*index, value!(field)));
                    }

                    let record = self.record_of(&value, type_)?;

                    if self.mode.counted && record.count.get() == 1 {
                        self.reused.set(self.reused.get() + 1);

                        for (index, new) in values {
                            let old = std::mem::replace(&mut record.data.fields.borrow_mut()[index], new);
                            self.drop_value(&old)?;
                        }

                        break value.clone();
                    }

                    self.copied.set(self.copied.get() + 1);
                    let mut new_fields = record.data.fields.borrow().clone();

                    for (index, field) in new_fields.iter_mut().enumerate() {
                        if let Some((_, value)) = values.iter().rev().find(|(other, _)| *other == index) {
                            *field = value.clone();
                        } else {
                            *field = self.clone_value(field)?;
                        }
                    }

                    self.drop_value(&value)?;

                    break Value::Record(
                        self.object(RecordData { type_: type_.clone(), fields: RefCell::new(new_fields) }),
                    );
                }
                Code::Concatenate(operands) => {
                    let mut values = Vec::with_capacity(operands.len());

                    for operand in operands {
                        values.push(value!(operand));
                    }

                    let mut bytes = vec![];

                    for value in &values {
                        bytes.extend_from_slice(self.bytes(value)?);
                    }

                    self.spend(bytes.len() as u64 / 64)?;

                    for value in &values {
                        self.drop_value(value)?;
                    }

                    break self.string(bytes);
                }
                Code::Try(operand, tag, slot, then) => {
                    let value = value!(operand);
                    let Value::Variant(other, payload) = &value else {
                        return stuck(format!("try of {value:?}"));
                    };

                    if other == tag {
                        frame[*slot] = (**payload).clone();

                        return Ok(Flow::Return(value!(then)));
                    }

                    break value;
                }
                Code::TypeInformation(variant, fallback) => {
                    let value = value!(variant);
                    let Value::Variant(tag, _) = &value else {
                        return stuck(format!("type information of {value:?}"));
                    };
                    let id = self.information.borrow().get(tag).copied().unwrap_or(*fallback);
                    self.drop_value(&value)?;

                    break self.global(id)?;
                }
                Code::Variant(tag, payload) => break Value::Variant(*tag, Rc::new(value!(payload))),
            }
        }))
    }

    fn record_of<'a>(&self, value: &'a Value, type_: &str) -> Res<&'a Rc<Object<RecordData>>> {
        match value {
            Value::Record(record) if &*record.data.type_ == type_ => {
                self.check_alive(value, "field")?;
                Ok(record)
            }
            _ => stuck(format!("{value:?} is no {type_}")),
        }
    }

    /// The bytes of a string.
    pub fn bytes<'a>(&self, value: &'a Value) -> Res<&'a [u8]> {
        match value {
            Value::String(string) => {
                self.check_alive(value, "string")?;
                Ok(&string.data)
            }
            _ => stuck(format!("{value:?} is no string")),
        }
    }
}

pub fn number(value: Value) -> Res<f64> {
    match value {
        Value::Number(number) => Ok(number),
        value => stuck(format!("{value:?} is no number")),
    }
}

pub fn boolean(value: Value) -> Res<bool> {
    match value {
        Value::Boolean(boolean) => Ok(boolean),
        value => stuck(format!("{value:?} is no boolean")),
    }
}

struct Compiler<'a> {
    machine: &'a Machine,
    names: &'a HashMap<String, usize>,
    fields: &'a HashMap<&'a str, usize>,
    fallback: usize,
}

/// Names of the slots of a frame, the latest last, and the number of slots needed.
struct Scope {
    names: Vec<(String, Slot)>,
    next: Slot,
    slots: Slot,
}

impl Scope {
    fn find(&self, name: &str) -> Option<Slot> {
        self.names.iter().rev().find(|(other, _)| other == name).map(|(_, slot)| *slot)
    }

    fn push(&mut self, name: &str) -> Slot {
        let slot = self.next;
        self.names.push((name.into(), slot));
        self.next += 1;
        self.slots = self.slots.max(self.next);
        slot
    }

    fn pop(&mut self) {
        self.names.pop();
        self.next -= 1;
    }
}

impl Compiler<'_> {
    /// A function and the names it captures.
    fn function(
        &mut self,
        definition: &ir::FunctionDefinition,
        global: bool,
        outer: &mut Vec<String>,
    ) -> Res<(Function, Vec<String>)> {
        let environment = if self.machine.mode.closed || global {
            definition.environment().iter().map(|argument| argument.name().to_owned()).collect()
        } else {
            // Find out ourselves.
            let mut names = HashSet::new();
            let mut bound = definition
                .arguments()
                .iter()
                .map(|argument| argument.name().to_owned())
                .chain([definition.name().to_owned()])
                .collect();
            free_variables(definition.body(), &mut bound, &mut names);
            let mut names = names.into_iter().filter(|name| outer.contains(name)).collect::<Vec<_>>();
            names.sort();
            names
        };

        if global && !environment.is_empty() {
            return stuck(format!("{} has an environment", definition.name()));
        }

        let mut scope = Scope { names: vec![], next: 0, slots: 0 };

        if !global {
            scope.push(definition.name());
        }

        for name in &environment {
            scope.push(name);
        }

        for argument in definition.arguments() {
            scope.push(argument.name());
        }

        let code = self.expression(definition.body(), &mut scope)?;

        Ok((
            Function {
                name: definition.name().into(),
                global,
                thunk: definition.is_thunk(),
                environment: environment.len(),
                arguments: definition.arguments().len(),
                slots: scope.slots,
                code,
            },
            environment,
        ))
    }

    fn slot(&self, name: &str, scope: &Scope) -> Res<Slot> {
        scope.find(name).ok_or_else(|| Stop::Stuck(format!("no variable {name}")))
    }

    fn expressions(&mut self, expressions: &[ir::Expression], scope: &mut Scope) -> Res<Vec<Code>> {
        expressions.iter().map(|expression| self.expression(expression, scope)).collect()
    }

    fn boxed(&mut self, expression: &ir::Expression, scope: &mut Scope) -> Res<Box<Code>> {
        Ok(Box::new(self.expression(expression, scope)?))
    }

    fn bound(&mut self, name: &str, expression: &ir::Expression, scope: &mut Scope) -> Res<(Slot, Code)> {
        let slot = scope.push(name);
        let code = self.expression(expression, scope)?;
        scope.pop();
        Ok((slot, code))
    }

    fn expression(&mut self, expression: &ir::Expression, scope: &mut Scope) -> Res<Code> {
        Ok(match expression {
            ir::Expression::None => Code::None,
            ir::Expression::Boolean(boolean) => Code::Boolean(*boolean),
            ir::Expression::Number(number) => Code::Number(*number),
            ir::Expression::ByteString(string) => {
                Code::String(Value::String(Machine::static_object(string.value().to_vec())))
            }
            ir::Expression::Variable(variable) => {
                if let Some(slot) = scope.find(variable.name()) {
                    Code::Local(slot)
                } else if let Some(id) = self.names.get(variable.name()) {
                    Code::Global(*id)
                } else {
                    return stuck(format!("no variable {}", variable.name()));
                }
            }
            ir::Expression::ArithmeticOperation(operation) => Code::Arithmetic(
                operation.operator(),
                self.boxed(operation.lhs(), scope)?,
                self.boxed(operation.rhs(), scope)?,
            ),
            ir::Expression::ComparisonOperation(operation) => Code::Compare(
                operation.operator(),
                self.boxed(operation.lhs(), scope)?,
                self.boxed(operation.rhs(), scope)?,
            ),
            ir::Expression::If(if_) => Code::If(Box::new([
                self.expression(if_.condition(), scope)?,
                self.expression(if_.then(), scope)?,
                self.expression(if_.else_(), scope)?,
            ])),
            ir::Expression::Let(let_) => {
                let bound = self.expression(let_.bound_expression(), scope)?;
                let (slot, body) = self.bound(let_.name(), let_.expression(), scope)?;

                Code::Let(slot, Box::new([bound, body]))
            }
            ir::Expression::LetRecursive(let_) => {
                let definition = let_.definition();
                let mut outer = scope.names.iter().map(|(name, _)| name.clone()).collect();
                let (function, captures) = self.function(definition, false, &mut outer)?;
                let captures =
                    captures.iter().map(|name| self.slot(name, scope)).collect::<Res<Vec<_>>>()?;
                let (slot, body) = self.bound(definition.name(), let_.expression(), scope)?;

                Code::LetRecursive(slot, Rc::new(function), captures, Box::new(body))
            }
            ir::Expression::Call(call) => {
                if call.type_().arguments().len() != call.arguments().len() {
                    return stuck("call with a wrong number of arguments");
                }

                Code::Call(self.boxed(call.function(), scope)?, self.expressions(call.arguments(), scope)?)
            }
            ir::Expression::Case(case) => Code::Case(
                self.boxed(case.argument(), scope)?,
                case.alternatives()
                    .iter()
                    .map(|alternative| {
                        let tags = alternative.types().iter().map(|type_| self.machine.tag(type_)).collect();
                        let (slot, code) = self.bound(alternative.name(), alternative.expression(), scope)?;

                        Ok((tags, slot, code))
                    })
                    .collect::<Res<_>>()?,
                case.default_alternative()
                    .map(|alternative| {
                        let (slot, code) = self.bound(alternative.name(), alternative.expression(), scope)?;

                        Ok::<_, Stop>((slot, Box::new(code)))
                    })
                    .transpose()?,
            ),
            ir::Expression::CloneVariables(clone) => Code::Clone(
                clone.variables().keys().map(|name| self.slot(name, scope)).collect::<Res<_>>()?,
                self.boxed(clone.expression(), scope)?,
            ),
            ir::Expression::DropVariables(drop) => Code::Drop(
                drop.variables().keys().map(|name| self.slot(name, scope)).collect::<Res<_>>()?,
                self.boxed(drop.expression(), scope)?,
            ),
            ir::Expression::Synchronize(synchronize) => self.expression(synchronize.expression(), scope)?,
            ir::Expression::Record(record) => Code::Record(
                record.type_().name().into(),
                *self
                    .fields
                    .get(record.type_().name())
                    .ok_or_else(|| Stop::Stuck(format!("no record type {}", record.type_().name())))?,
                self.expressions(record.fields(), scope)?,
            ),
            ir::Expression::RecordField(field) => {
                Code::Field(field.type_().name().into(), field.index(), self.boxed(field.record(), scope)?)
            }
            ir::Expression::RecordUpdate(update) => Code::Update(
                update.type_().name().into(),
                self.boxed(update.record(), scope)?,
                update
                    .fields()
                    .iter()
                    .map(|field| Ok((field.index(), self.expression(field.expression(), scope)?)))
                    .collect::<Res<_>>()?,
            ),
            ir::Expression::StringConcatenation(concatenation) => {
                Code::Concatenate(self.expressions(concatenation.operands(), scope)?)
            }
            ir::Expression::TryOperation(operation) => {
                let operand = self.boxed(operation.operand(), scope)?;
                let tag = self.machine.tag(operation.type_());
                let (slot, then) = self.bound(operation.name(), operation.then(), scope)?;

                Code::Try(operand, tag, slot, Box::new(then))
            }
            ir::Expression::TypeInformationFunction(information) => {
                Code::TypeInformation(self.boxed(information.variant(), scope)?, self.fallback)
            }
            ir::Expression::Variant(variant) => {
                Code::Variant(self.machine.tag(variant.type_()), self.boxed(variant.payload(), scope)?)
            }
        })
    }
}

fn free_variables(expression: &ir::Expression, bound: &mut Vec<String>, names: &mut HashSet<String>) {
    let mut with = |bound: &mut Vec<String>, name: &str, expression: &ir::Expression| {
        bound.push(name.into());
        free_variables(expression, bound, names);
        bound.pop();
    };

    match expression {
        ir::Expression::None
        | ir::Expression::Boolean(_)
        | ir::Expression::Number(_)
        | ir::Expression::ByteString(_) => {}
        ir::Expression::Variable(variable) => {
            if !bound.iter().any(|name| name == variable.name()) {
                names.insert(variable.name().into());
            }
        }
        ir::Expression::ArithmeticOperation(operation) => {
            free_variables(operation.lhs(), bound, names);
            free_variables(operation.rhs(), bound, names);
        }
        ir::Expression::ComparisonOperation(operation) => {
            free_variables(operation.lhs(), bound, names);
            free_variables(operation.rhs(), bound, names);
        }
        ir::Expression::If(if_) => {
            for expression in [if_.condition(), if_.then(), if_.else_()] {
                free_variables(expression, bound, names);
            }
        }
        ir::Expression::Let(let_) => {
            with(bound, let_.name(), let_.expression());
            free_variables(let_.bound_expression(), bound, names);
        }
        ir::Expression::LetRecursive(let_) => {
            let definition = let_.definition();
            with(bound, definition.name(), let_.expression());
            let length = bound.len();
            bound.push(definition.name().into());
            bound.extend(definition.arguments().iter().map(|argument| argument.name().to_owned()));
            free_variables(definition.body(), bound, names);
            bound.truncate(length);
        }
        ir::Expression::Call(call) => {
            free_variables(call.function(), bound, names);

            for argument in call.arguments() {
                free_variables(argument, bound, names);
            }
        }
        ir::Expression::Case(case) => {
            for alternative in case.alternatives() {
                with(bound, alternative.name(), alternative.expression());
            }

            if let Some(alternative) = case.default_alternative() {
                with(bound, alternative.name(), alternative.expression());
            }

            free_variables(case.argument(), bound, names);
        }
        ir::Expression::CloneVariables(clone) => free_variables(clone.expression(), bound, names),
        ir::Expression::DropVariables(drop) => free_variables(drop.expression(), bound, names),
        ir::Expression::Synchronize(synchronize) => free_variables(synchronize.expression(), bound, names),
        ir::Expression::Record(record) => {
            for field in record.fields() {
                free_variables(field, bound, names);
            }
        }
        ir::Expression::RecordField(field) => free_variables(field.record(), bound, names),
        ir::Expression::RecordUpdate(update) => {
            free_variables(update.record(), bound, names);

            for field in update.fields() {
                free_variables(field.expression(), bound, names);
            }
        }
        ir::Expression::StringConcatenation(concatenation) => {
            for operand in concatenation.operands() {
                free_variables(operand, bound, names);
            }
        }
        ir::Expression::TryOperation(operation) => {
            with(bound, operation.name(), operation.then());
            free_variables(operation.operand(), bound, names);
        }
        ir::Expression::TypeInformationFunction(information) => free_variables(information.variant(), bound, names),
        ir::Expression::Variant(variant) => free_variables(variant.payload(), bound, names),
    }
}

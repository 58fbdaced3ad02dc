//! Runs modules of F-- over memory of bytes: every access is within a block that is alive and was written before, the
//! heap counts its blocks, and constants stay as they are.

use crate::machine::{Res, Stop};
use fmm::{
    build::TypedExpression,
    ir::{self, *},
    types::{self, Type},
};
use std::{
    cell::{Cell, RefCell},
    collections::HashMap,
    rc::Rc,
};

#[derive(Clone, Debug)]
pub enum V {
    /// Numbers, booleans and pointers.
    Bits(u64),
    Record(Rc<[V]>),
    Union(Rc<[u8]>),
}

impl V {
    pub fn bits(&self) -> Res<u64> {
        match self {
            V::Bits(bits) => Ok(*bits),
            value => stuck(format!("{value:?} is no word")),
        }
    }

    pub fn void() -> Self {
        V::Record(Rc::new([]))
    }

    pub fn field(&self, index: usize) -> Res<V> {
        match self {
            V::Record(fields) if index < fields.len() => Ok(fields[index].clone()),
            value => stuck(format!("no field {index} of {value:?}")),
        }
    }
}

fn stuck<T>(message: impl Into<String>) -> Res<T> {
    Err(Stop::Stuck(message.into()))
}

fn heap<T>(message: impl Into<String>) -> Res<T> {
    Err(Stop::Heap(message.into()))
}

#[derive(Debug)]
enum Layout {
    Boolean,
    Byte,
    Word,
    Record { fields: Vec<(usize, Rc<Layout>)>, size: usize, alignment: usize },
    Union { size: usize, alignment: usize },
}

impl Layout {
    fn size(&self) -> usize {
        match self {
            Self::Boolean | Self::Byte => 1,
            Self::Word => 8,
            Self::Record { size, .. } | Self::Union { size, .. } => *size,
        }
    }

    fn alignment(&self) -> usize {
        match self {
            Self::Boolean | Self::Byte => 1,
            Self::Word => 8,
            Self::Record { alignment, .. } | Self::Union { alignment, .. } => *alignment,
        }
    }

    fn new(type_: &Type) -> Rc<Self> {
        Rc::new(match type_ {
            Type::Function(_) | Type::Pointer(_) => Self::Word,
            Type::Primitive(primitive) => match primitive {
                types::Primitive::Boolean => Self::Boolean,
                types::Primitive::Integer8 => Self::Byte,
                types::Primitive::Float64 | types::Primitive::Integer64 | types::Primitive::PointerInteger => {
                    Self::Word
                }
                primitive => panic!("HARNESS: {primitive:?}"),
            },
            Type::Record(record) => {
                let (mut end, mut alignment, mut fields) = (0usize, 1, vec![]);

                for type_ in record.fields() {
                    let field = Self::new(type_);
                    let offset = end.next_multiple_of(field.alignment());
                    end = offset + field.size();
                    alignment = alignment.max(field.alignment());
                    fields.push((offset, field));
                }

                Self::Record { fields, size: end.next_multiple_of(alignment), alignment }
            }
            Type::Union(union) => {
                let members = union.members().iter().map(Self::new).collect::<Vec<_>>();
                let alignment = members.iter().map(|member| member.alignment()).max().unwrap_or(1);
                let size = members.iter().map(|member| member.size()).max().unwrap_or(0);

                Self::Union { size: size.next_multiple_of(alignment), alignment }
            }
        })
    }

    fn zero(&self) -> V {
        match self {
            Self::Boolean | Self::Byte | Self::Word => V::Bits(0),
            Self::Record { fields, .. } => V::Record(fields.iter().map(|(_, field)| field.zero()).collect()),
            Self::Union { size, .. } => V::Union(vec![0; *size].into()),
        }
    }

    fn write(&self, value: &V, bytes: &mut [u8]) -> Res<()> {
        match (self, value) {
            (Self::Boolean | Self::Byte, V::Bits(bits)) => bytes[0] = *bits as u8,
            (Self::Word, V::Bits(bits)) => bytes[..8].copy_from_slice(&bits.to_le_bytes()),
            (Self::Record { fields, .. }, V::Record(values)) if fields.len() == values.len() => {
                for ((offset, field), value) in fields.iter().zip(&values[..]) {
                    field.write(value, &mut bytes[*offset..])?;
                }
            }
            (Self::Union { size, .. }, V::Union(other)) => bytes[..*size].copy_from_slice(other),
            (layout, value) => return stuck(format!("{value:?} is not as {layout:?}")),
        }

        Ok(())
    }

    fn read(&self, bytes: &[u8]) -> Res<V> {
        Ok(match self {
            Self::Boolean if bytes[0] > 1 => return heap("a boolean was never written"),
            Self::Boolean | Self::Byte => V::Bits(bytes[0] as u64),
            Self::Word => {
                let bits = u64::from_le_bytes(bytes[..8].try_into().unwrap());

                if bits == UNWRITTEN {
                    return heap("a word was never written");
                }

                V::Bits(bits)
            }
            Self::Record { fields, .. } => V::Record(
                fields.iter().map(|(offset, field)| field.read(&bytes[*offset..])).collect::<Res<Vec<_>>>()?.into(),
            ),
            Self::Union { size, .. } => V::Union(bytes[..*size].into()),
        })
    }
}

const UNWRITTEN_BYTE: u8 = 0xa5;
const UNWRITTEN: u64 = 0xa5a5_a5a5_a5a5_a5a5;
const SHIFT: u32 = 24;
const FUNCTION: u64 = 1 << 62;
const MAXIMUM_DEPTH: usize = 60_000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// With the task that made it.
    Heap(usize),
    Stack,
    Variable,
    Constant,
    Declared,
}

#[derive(Clone)]
struct Block_ {
    kind: Kind,
    alive: bool,
    bytes: Vec<u8>,
    /// Its count has been written.
    counted: bool,
}

#[derive(Debug)]
enum Code {
    Value(V),
    Local(usize),
    Record(Vec<Code>),
    Arithmetic(ir::ArithmeticOperator, bool, Box<[Code; 2]>),
    Bitwise(ir::BitwiseOperator, Box<[Code; 2]>),
    Compare(ir::ComparisonOperator, Number, Box<[Code; 2]>),
    BitCast(Rc<Layout>, Rc<Layout>, Box<Code>),
    Offset(Box<Code>, u64),
    Scaled(Box<[Code; 2]>, u64),
    Union(Rc<Layout>, usize, Box<Code>),
}

#[derive(Clone, Copy, Debug)]
enum Number {
    Float,
    Integer,
    Boolean,
}

#[derive(Debug)]
enum Step {
    AllocateHeap(Code, usize),
    AllocateStack(usize, usize),
    Atomic(ir::AtomicOperator, Code, Code, usize),
    Call(Code, Vec<Code>, usize),
    Swap(Code, Code, Code, usize),
    Field(Code, usize, usize),
    Member(Code, Rc<Layout>, usize),
    Free(Code),
    If(Code, Box<[Body; 2]>, usize),
    Load(Code, Rc<Layout>, usize),
    Copy(Code, Code, Code),
    Store(Code, Code, Rc<Layout>, bool),
}

#[derive(Debug)]
enum End {
    Branch(Code),
    Return(Code),
    Unreachable,
}

#[derive(Debug)]
struct Body {
    steps: Vec<Step>,
    end: End,
}

#[derive(Debug)]
struct Function {
    name: String,
    arguments: usize,
    slots: usize,
    body: Body,
}

pub type Native = Rc<dyn Fn(&Vm, &[V]) -> Res<V>>;

#[derive(Clone)]
enum Callee {
    Missing(Rc<str>),
    Function(Rc<Function>),
    Native(Native),
}

enum Flow {
    Branch(V),
    Return(V),
}

#[derive(Clone)]
pub struct Vm {
    blocks: RefCell<Vec<Block_>>,
    callees: RefCell<Vec<Callee>>,
    symbols: RefCell<HashMap<String, u64>>,
    /// Symbols that no other module may define again.
    strong: RefCell<HashMap<String, ()>>,
    /// Closures of modules.
    closures: RefCell<Vec<u64>>,
    layouts: RefCell<HashMap<Type, Rc<Layout>>>,
    fuel: Cell<u64>,
    depth: Cell<usize>,
    live: Cell<i64>,
    pub allocated: Cell<u64>,
    pub synchronized: Cell<u64>,
    pub shared: Cell<u64>,
    /// The tasks that run, the first of which is the program.
    tasks: RefCell<Vec<usize>>,
    next_task: Cell<usize>,
    pub trace: RefCell<Vec<String>>,
}

impl Vm {
    pub fn new(fuel: u64) -> Self {
        Self {
            blocks: RefCell::new(vec![Block_ { kind: Kind::Constant, alive: false, bytes: vec![], counted: false }]),
            callees: Default::default(),
            symbols: Default::default(),
            strong: Default::default(),
            closures: Default::default(),
            layouts: Default::default(),
            fuel: Cell::new(fuel),
            depth: Cell::new(0),
            live: Cell::new(0),
            allocated: Cell::new(0),
            synchronized: Cell::new(0),
            shared: Cell::new(0),
            tasks: RefCell::new(vec![0]),
            next_task: Cell::new(1),
            trace: Default::default(),
        }
    }

    pub fn set_fuel(&self, fuel: u64) {
        self.fuel.set(fuel)
    }

    pub fn live(&self) -> i64 {
        self.live.get()
    }

    fn burn(&self, amount: u64) -> Res<()> {
        let fuel = self.fuel.get();

        if fuel < amount {
            return Err(Stop::Fuel);
        }

        self.fuel.set(fuel - amount);
        Ok(())
    }

    // Memory

    fn allocate(&self, kind: Kind, size: usize) -> u64 {
        let mut blocks = self.blocks.borrow_mut();
        blocks.push(Block_ { kind, alive: true, bytes: vec![UNWRITTEN_BYTE; size], counted: false });
        ((blocks.len() - 1) as u64) << SHIFT
    }

    fn locate(address: u64) -> (usize, usize) {
        ((address >> SHIFT) as usize, (address & ((1 << SHIFT) - 1)) as usize)
    }

    fn access<T>(&self, address: u64, size: usize, run: impl FnOnce(&mut Block_, usize) -> Res<T>) -> Res<T> {
        let (index, offset) = Self::locate(address);
        let mut blocks = self.blocks.borrow_mut();

        if size == 0 && index != 0 {
            // Nothing is touched.
            return run(&mut Block_ { kind: Kind::Stack, alive: true, bytes: vec![], counted: false }, 0);
        }

        match blocks.get_mut(index) {
            _ if index == 0 => heap(format!("use of a null pointer {address:x}")),
            None => heap(format!("use of a wild pointer {address:x}")),
            Some(block) if !block.alive => heap(format!("use of a released block of {:?}", block.kind)),
            Some(block) if block.kind == Kind::Declared => stuck("use of a variable that is never defined"),
            Some(block) if offset + size > block.bytes.len() => {
                heap(format!("use of bytes {offset} to {} of a block of {}", offset + size, block.bytes.len()))
            }
            Some(block) => run(block, offset),
        }
    }

    fn load(&self, address: u64, layout: &Layout) -> Res<V> {
        self.access(address, layout.size(), |block, offset| layout.read(&block.bytes[offset..]))
    }

    pub fn load_word(&self, address: u64) -> Res<u64> {
        self.load(address, &Layout::Word)?.bits()
    }

    fn store(&self, address: u64, layout: &Layout, value: &V, atomic: bool) -> Res<()> {
        let tasks = self.tasks.borrow();

        self.access(address, layout.size(), |block, offset| {
            if block.kind == Kind::Constant {
                return heap("write to a constant");
            }

            if let Kind::Heap(owner) = block.kind {
                if offset == 0 && layout.size() >= 8 {
                    let old = i64::from_le_bytes(block.bytes[..8].try_into().unwrap());

                    if block.counted && !atomic {
                        if old < 0 {
                            return heap("plain write of the count of a shared block");
                        }

                        if owner != *tasks.last().unwrap() && tasks.contains(&owner) {
                            return heap("plain write of the count of a block of a task that still runs");
                        }
                    }

                    if let (V::Bits(bits), true) = (value, block.counted) {
                        self.shared.set(self.shared.get() + 1);

                        if (*bits as i64) < 0 && old >= 0 {
                            self.synchronized.set(self.synchronized.get() + 1);
                        }
                    }

                    block.counted = true;
                }
            }

            layout.write(value, &mut block.bytes[offset..])
        })
    }

    fn free(&self, address: u64) -> Res<()> {
        let (index, offset) = Self::locate(address);
        let mut blocks = self.blocks.borrow_mut();

        match blocks.get_mut(index) {
            Some(block) if index != 0 && block.alive && offset == 0 && matches!(block.kind, Kind::Heap(_)) => {
                block.alive = false;
                block.bytes = vec![];
                self.live.set(self.live.get() - 1);
                Ok(())
            }
            Some(block) if !block.alive => heap("second release of a block"),
            Some(block) => heap(format!("release at {offset} of {:?}", block.kind)),
            None => heap(format!("release of a wild pointer {address:x}")),
        }
    }

    fn allocate_heap(&self, size: usize) -> Res<u64> {
        if size >= 1 << SHIFT {
            return Err(Stop::Fuel);
        }

        self.burn(size as u64 / 64 + 1)?;
        self.live.set(self.live.get() + 1);
        self.allocated.set(self.allocated.get() + 1);
        Ok(self.allocate(Kind::Heap(*self.tasks.borrow().last().unwrap()), size))
    }

    fn slice(&self, address: u64, size: usize) -> Res<Vec<u8>> {
        self.access(address, size, |block, offset| Ok(block.bytes[offset..offset + size].to_vec()))
    }

    // Values of programs

    pub fn string(&self, bytes: impl AsRef<[u8]>) -> Res<V> {
        let bytes = bytes.as_ref();

        if bytes.is_empty() {
            return Ok(V::Bits(0));
        }

        let address = self.allocate_heap(16 + bytes.len())?;

        self.access(address, 16 + bytes.len(), |block, _| {
            block.counted = true;
            block.bytes[..8].fill(0);
            block.bytes[8..16].copy_from_slice(&(bytes.len() as u64).to_le_bytes());
            block.bytes[16..].copy_from_slice(bytes);
            Ok(())
        })?;

        Ok(V::Bits(address + 8))
    }

    pub fn bytes(&self, value: &V) -> Res<Vec<u8>> {
        let address = value.bits()?;

        if address == 0 {
            return Ok(vec![]);
        }

        let size = self.load_word(address)? as usize;
        self.slice(address + 8, size)
    }

    pub fn drop_string(&self, value: &V) -> Res<()> {
        self.call_symbol("mir:drop:string", vec![value.clone()])?;
        Ok(())
    }

    pub fn drop_closure(&self, value: &V) -> Res<()> {
        self.call_symbol("mir:drop:function", vec![value.clone()])?;
        Ok(())
    }

    fn call_of_variant(&self, variant: &V, index: u64) -> Res<V> {
        let function = self.load_word(variant.field(0)?.bits()? + 8 * index)?;
        self.call(function, vec![variant.field(1)?])
    }

    pub fn clone_variant(&self, variant: &V) -> Res<V> {
        Ok(V::Record(Rc::new([variant.field(0)?, self.call_of_variant(variant, 0)?])))
    }

    pub fn drop_variant(&self, variant: &V) -> Res<()> {
        self.call_of_variant(variant, 1)?;
        Ok(())
    }

    pub fn synchronize_variant(&self, variant: &V) -> Res<()> {
        self.call_of_variant(variant, 2)?;
        Ok(())
    }

    /// A closure of the host that gives a value again and again.
    pub fn future(&self, value: &V) -> Res<V> {
        let variant = Layout::new(
            &types::Record::new(vec![types::generic_pointer_type(), types::Primitive::Integer64.into()]).into(),
        );
        let content = move |vm: &Vm, closure: &V| vm.load(closure.bits()? + 16, &variant);
        let (get, drop, synchronize) = (content.clone(), content.clone(), content);
        let entry = self.native(move |vm, arguments| {
            let value = vm.clone_variant(&get(vm, &arguments[0])?)?;
            vm.drop_closure(&arguments[0])?;
            Ok(value)
        });
        let drop = self.native(move |vm, arguments| {
            vm.drop_variant(&drop(vm, &arguments[0])?)?;
            Ok(V::void())
        });
        let synchronize = self.native(move |vm, arguments| {
            vm.synchronize_variant(&synchronize(vm, &arguments[0])?)?;
            Ok(V::void())
        });
        let metadata = self.allocate(Kind::Variable, 16);
        self.store(metadata, &Layout::Word, &V::Bits(drop), false)?;
        self.store(metadata + 8, &Layout::Word, &V::Bits(synchronize), false)?;

        let block = self.allocate_heap(40)?;

        for (index, bits) in
            [0, entry, metadata, value.field(0)?.bits()?, value.field(1)?.bits()?].into_iter().enumerate()
        {
            self.store(block + 8 * index as u64, &Layout::Word, &V::Bits(bits), false)?;
        }

        Ok(V::Bits(block + 8))
    }

    /// Runs something as a task of its own, to its end.
    pub fn task<T>(&self, run: impl FnOnce() -> Res<T>) -> Res<T> {
        let task = self.next_task.get();
        self.next_task.set(task + 1);
        self.tasks.borrow_mut().push(task);
        let result = run();
        self.tasks.borrow_mut().pop();
        result
    }

    pub fn call_closure(&self, closure: &V, arguments: Vec<V>) -> Res<V> {
        let address = closure.bits()?;
        self.call(self.load_word(address)?, [closure.clone()].into_iter().chain(arguments).collect())
    }

    /// Releases what closures of modules hold.
    pub fn drop_variables(&self) -> Res<()> {
        let closures = self.closures.borrow().clone();

        for closure in closures {
            let metadata = self.load_word(closure + 8)?;
            self.call(self.load_word(metadata)?, vec![V::Bits(closure)])?;
        }

        Ok(())
    }

    // Linking

    fn native(&self, run: impl Fn(&Vm, &[V]) -> Res<V> + 'static) -> u64 {
        let mut callees = self.callees.borrow_mut();
        callees.push(Callee::Native(Rc::new(run)));
        FUNCTION | (callees.len() - 1) as u64
    }

    pub fn define(&self, name: &str, run: impl Fn(&Vm, &[V]) -> Res<V> + 'static) {
        let function = self.function_symbol(name);
        self.callees.borrow_mut()[(function & !FUNCTION) as usize] = Callee::Native(Rc::new(run));
    }

    fn new_function(&self, name: &str) -> u64 {
        let mut callees = self.callees.borrow_mut();
        callees.push(Callee::Missing(name.into()));
        FUNCTION | (callees.len() - 1) as u64
    }

    fn function_symbol(&self, name: &str) -> u64 {
        if let Some(symbol) = self.symbols.borrow().get(name) {
            return *symbol;
        }

        let symbol = self.new_function(name);
        self.symbols.borrow_mut().insert(name.into(), symbol);
        symbol
    }

    fn variable_symbol(&self, name: &str) -> u64 {
        if let Some(symbol) = self.symbols.borrow().get(name) {
            return *symbol;
        }

        let symbol = self.allocate(Kind::Declared, 0);
        self.symbols.borrow_mut().insert(name.into(), symbol);
        symbol
    }

    pub fn symbol(&self, name: &str) -> Option<u64> {
        self.symbols.borrow().get(name).copied()
    }

    fn layout(&self, type_: &Type) -> Rc<Layout> {
        if let Some(layout) = self.layouts.borrow().get(type_) {
            return layout.clone();
        }

        let layout = Layout::new(type_);
        self.layouts.borrow_mut().insert(type_.clone(), layout.clone());
        layout
    }

    /// Links one module. Weak definitions take the place of ones of modules that came before.
    pub fn link(&self, module: &Module) -> Res<()> {
        if let Some(error) = module.errors.first() {
            return stuck(format!("ill-typed code: {error}"));
        }

        let mut names = HashMap::<&str, u64>::new();
        let mut defined = HashMap::<&str, ()>::new();

        for (name, _) in &module.variable_declarations {
            names.insert(name, self.variable_symbol(name));
        }

        for (name, _) in &module.function_declarations {
            names.insert(name, self.function_symbol(name));
        }

        let linkages = module
            .function_definitions
            .iter()
            .map(|definition| (&*definition.name, definition.options.linkage(), true))
            .chain(
                module
                    .variable_definitions
                    .iter()
                    .map(|definition| (&*definition.name, definition.options.linkage(), false)),
            );

        for (name, linkage, function) in linkages {
            if defined.insert(name, ()).is_some() {
                return stuck(format!("two definitions of {name} in a module"));
            }

            if linkage == Linkage::External && self.strong.borrow_mut().insert(name.into(), ()).is_some() {
                return stuck(format!("two public definitions of {name}"));
            }

            names.insert(
                name,
                match (linkage, function) {
                    (Linkage::Internal, true) => self.new_function(name),
                    (Linkage::Internal, false) => self.allocate(Kind::Declared, 0),
                    (_, true) => self.function_symbol(name),
                    (_, false) => self.variable_symbol(name),
                },
            );
        }

        for definition in &module.function_definitions {
            let mut compiler = Compiler { vm: self, names: &names, locals: vec![], slots: 0 };

            for argument in &definition.arguments {
                compiler.local(argument.name());
            }

            let body = compiler.body(&definition.body)?;
            let function = Function {
                name: definition.name.clone(),
                arguments: definition.arguments.len(),
                slots: compiler.slots,
                body,
            };

            self.callees.borrow_mut()[(names[&*definition.name] & !FUNCTION) as usize] =
                Callee::Function(Rc::new(function));
        }

        for definition in &module.variable_definitions {
            let (index, _) = Self::locate(names[&*definition.name]);
            let size = self.layout(definition.value.type_()).size();
            let mut blocks = self.blocks.borrow_mut();
            let block = &mut blocks[index];

            if block.kind != Kind::Declared && block.bytes.len() != size {
                return stuck(format!("definitions of {} of two sizes", definition.name));
            }

            block.kind = Kind::Variable;
            block.bytes = vec![UNWRITTEN_BYTE; size];
        }

        for definition in &module.variable_definitions {
            let compiler = Compiler { vm: self, names: &names, locals: vec![], slots: 0 };
            let layout = self.layout(definition.value.type_());
            let value = self.value(&compiler.code(&definition.value)?, &[])?;
            let address = names[&*definition.name];
            self.store(address, &layout, &value, false)?;

            if !definition.options.is_mutable() {
                self.blocks.borrow_mut()[Self::locate(address).0].kind = Kind::Constant;
            }

            if is_closure(definition.value.type_()) && self.load_word(address + 16)? != 0 {
                self.closures.borrow_mut().push(address + 8);
            }
        }

        Ok(())
    }

    // Evaluation

    pub fn call_symbol(&self, name: &str, arguments: Vec<V>) -> Res<V> {
        let function = self.symbol(name).ok_or_else(|| Stop::Stuck(format!("no function {name}")))?;
        self.call(function, arguments)
    }

    pub fn call(&self, function: u64, arguments: Vec<V>) -> Res<V> {
        let depth = self.depth.get();

        if depth >= MAXIMUM_DEPTH {
            return Err(Stop::Fuel);
        }

        if function & FUNCTION == 0 || (function & !FUNCTION) as usize >= self.callees.borrow().len() {
            return heap(format!("call of {function:x}, which is no function"));
        }

        self.burn(1)?;
        let callee = self.callees.borrow()[(function & !FUNCTION) as usize].clone();
        self.depth.set(depth + 1);
        let result = match callee {
            Callee::Missing(name) => stuck(format!("no definition of {name}")),
            Callee::Native(run) => run(self, &arguments),
            Callee::Function(function) => {
                if function.arguments != arguments.len() {
                    return stuck(format!("{} called with {} arguments", function.name, arguments.len()));
                }

                let mut frame = arguments;
                let mut stack = vec![];
                frame.resize(function.slots, V::Bits(0));

                let result = match self.run(&function.body, &mut frame, &mut stack) {
                    Ok(Flow::Return(value)) => Ok(value),
                    Ok(Flow::Branch(_)) => stuck(format!("{} ends in a branch", function.name)),
                    Err(Stop::Heap(message)) if !message.contains(", in ") => {
                        Err(Stop::Heap(format!("{message}, in {}", function.name)))
                    }
                    Err(stop) => Err(stop),
                };

                for address in stack {
                    let block = &mut self.blocks.borrow_mut()[Self::locate(address).0];
                    block.alive = false;
                    block.bytes = vec![];
                }

                result
            }
        };
        self.depth.set(depth);
        result
    }

    fn run(&self, body: &Body, frame: &mut Vec<V>, stack: &mut Vec<u64>) -> Res<Flow> {
        for step in &body.steps {
            self.burn(1)?;

            match step {
                Step::AllocateHeap(size, slot) => {
                    let size = self.value(size, frame)?.bits()?;

                    if size as i64 <= 0 {
                        return heap(format!("a block of {} bytes", size as i64));
                    }

                    frame[*slot] = V::Bits(self.allocate_heap(size as usize)?);
                }
                Step::AllocateStack(size, slot) => {
                    let address = self.allocate(Kind::Stack, *size);
                    stack.push(address);
                    frame[*slot] = V::Bits(address);
                }
                Step::Atomic(operator, pointer, value, slot) => {
                    let pointer = self.value(pointer, frame)?.bits()?;
                    let value = self.value(value, frame)?.bits()?;
                    let old = self.load_word(pointer)?;
                    let new = match operator {
                        ir::AtomicOperator::Add => old.wrapping_add(value),
                        ir::AtomicOperator::Subtract => old.wrapping_sub(value),
                    };
                    self.store(pointer, &Layout::Word, &V::Bits(new), true)?;
                    frame[*slot] = V::Bits(old);
                }
                Step::Call(function, arguments, slot) => {
                    let function = self.value(function, frame)?.bits()?;
                    let arguments =
                        arguments.iter().map(|argument| self.value(argument, frame)).collect::<Res<Vec<_>>>()?;
                    frame[*slot] = self.call(function, arguments)?;
                }
                Step::Swap(pointer, old, new, slot) => {
                    let pointer = self.value(pointer, frame)?.bits()?;
                    let old = self.value(old, frame)?.bits()?;
                    let new = self.value(new, frame)?;
                    let same = self.load_word(pointer)? == old;

                    if same {
                        self.store(pointer, &Layout::Word, &new, true)?;
                    }

                    frame[*slot] = V::Bits(same as u64);
                }
                Step::Field(record, index, slot) => frame[*slot] = self.value(record, frame)?.field(*index)?,
                Step::Member(union, layout, slot) => {
                    frame[*slot] = match self.value(union, frame)? {
                        V::Union(bytes) => layout.read(&bytes)?,
                        value => return stuck(format!("{value:?} is no union")),
                    };
                }
                Step::Free(pointer) => self.free(self.value(pointer, frame)?.bits()?)?,
                Step::If(condition, branches, slot) => {
                    let branch = match self.value(condition, frame)?.bits()? {
                        0 => &branches[1],
                        1 => &branches[0],
                        bits => return stuck(format!("condition {bits:x}")),
                    };

                    match self.run(branch, frame, stack)? {
                        Flow::Branch(value) => frame[*slot] = value,
                        flow => return Ok(flow),
                    }
                }
                Step::Load(pointer, layout, slot) => {
                    frame[*slot] = self.load(self.value(pointer, frame)?.bits()?, layout)?
                }
                Step::Copy(source, destination, size) => {
                    let source = self.value(source, frame)?.bits()?;
                    let destination = self.value(destination, frame)?.bits()?;
                    let size = self.value(size, frame)?.bits()? as usize;

                    if size > 0 {
                        let bytes = self.slice(source, size)?;
                        self.access(destination, size, |block, offset| {
                            if matches!(block.kind, Kind::Constant) {
                                return heap("write to a constant");
                            }

                            block.bytes[offset..offset + size].copy_from_slice(&bytes);
                            Ok(())
                        })?;
                    }
                }
                Step::Store(value, pointer, layout, atomic) => {
                    let value = self.value(value, frame)?;
                    let pointer = self.value(pointer, frame)?.bits()?;
                    self.store(pointer, layout, &value, *atomic)?;
                }
            }
        }

        match &body.end {
            End::Branch(value) => Ok(Flow::Branch(self.value(value, frame)?)),
            End::Return(value) => Ok(Flow::Return(self.value(value, frame)?)),
            End::Unreachable => stuck("the unreachable is reached"),
        }
    }

    fn value(&self, code: &Code, frame: &[V]) -> Res<V> {
        let words = |codes: &[Code; 2]| Ok((self.value(&codes[0], frame)?.bits()?, self.value(&codes[1], frame)?.bits()?));

        Ok(match code {
            Code::Value(value) => value.clone(),
            Code::Local(slot) => frame[*slot].clone(),
            Code::Record(fields) => {
                V::Record(fields.iter().map(|field| self.value(field, frame)).collect::<Res<Vec<_>>>()?.into())
            }
            Code::Arithmetic(operator, float, operands) => {
                let (lhs, rhs) = words(operands)?;

                V::Bits(if *float {
                    let (lhs, rhs) = (f64::from_bits(lhs), f64::from_bits(rhs));

                    match operator {
                        ir::ArithmeticOperator::Add => lhs + rhs,
                        ir::ArithmeticOperator::Subtract => lhs - rhs,
                        ir::ArithmeticOperator::Multiply => lhs * rhs,
                        ir::ArithmeticOperator::Divide => lhs / rhs,
                    }
                    .to_bits()
                } else {
                    match operator {
                        ir::ArithmeticOperator::Add => lhs.wrapping_add(rhs),
                        ir::ArithmeticOperator::Subtract => lhs.wrapping_sub(rhs),
                        ir::ArithmeticOperator::Multiply => lhs.wrapping_mul(rhs),
                        ir::ArithmeticOperator::Divide => {
                            lhs.checked_div(rhs).ok_or_else(|| Stop::Stuck("division by zero".into()))?
                        }
                    }
                })
            }
            Code::Bitwise(operator, operands) => {
                let (lhs, rhs) = words(operands)?;

                V::Bits(match operator {
                    ir::BitwiseOperator::And => lhs & rhs,
                    ir::BitwiseOperator::Or => lhs | rhs,
                    ir::BitwiseOperator::Xor => lhs ^ rhs,
                    ir::BitwiseOperator::LeftShift => lhs.wrapping_shl(rhs as u32),
                    ir::BitwiseOperator::RightShift(true) => (lhs as i64).wrapping_shr(rhs as u32) as u64,
                    ir::BitwiseOperator::RightShift(false) => lhs.wrapping_shr(rhs as u32),
                })
            }
            Code::Compare(operator, number, operands) => {
                let (lhs, rhs) = words(operands)?;

                V::Bits(match number {
                    Number::Float => {
                        let (lhs, rhs) = (f64::from_bits(lhs), f64::from_bits(rhs));

                        match operator {
                            ir::ComparisonOperator::Equal => lhs == rhs,
                            ir::ComparisonOperator::NotEqual => lhs != rhs,
                            ir::ComparisonOperator::LessThan(_) => lhs < rhs,
                            ir::ComparisonOperator::LessThanOrEqual(_) => lhs <= rhs,
                            ir::ComparisonOperator::GreaterThan(_) => lhs > rhs,
                            ir::ComparisonOperator::GreaterThanOrEqual(_) => lhs >= rhs,
                        }
                    }
                    Number::Integer | Number::Boolean => {
                        let order = |signed: bool| if signed { (lhs as i64).cmp(&(rhs as i64)) } else { lhs.cmp(&rhs) };

                        match operator {
                            ir::ComparisonOperator::Equal => lhs == rhs,
                            ir::ComparisonOperator::NotEqual => lhs != rhs,
                            ir::ComparisonOperator::LessThan(signed) => order(*signed).is_lt(),
                            ir::ComparisonOperator::LessThanOrEqual(signed) => order(*signed).is_le(),
                            ir::ComparisonOperator::GreaterThan(signed) => order(*signed).is_gt(),
                            ir::ComparisonOperator::GreaterThanOrEqual(signed) => order(*signed).is_ge(),
                        }
                    }
                } as u64)
            }
            Code::BitCast(from, to, value) => {
                let value = self.value(value, frame)?;
                let mut bytes = vec![UNWRITTEN_BYTE; from.size().max(to.size())];
                from.write(&value, &mut bytes)?;
                to.read(&bytes)?
            }
            Code::Offset(pointer, offset) => V::Bits(self.value(pointer, frame)?.bits()?.wrapping_add(*offset)),
            Code::Scaled(operands, size) => {
                let (pointer, offset) = words(operands)?;
                V::Bits(pointer.wrapping_add(offset.wrapping_mul(*size)))
            }
            Code::Union(member, size, value) => {
                let mut bytes = vec![0; *size];
                member.write(&self.value(value, frame)?, &mut bytes)?;
                V::Union(bytes.into())
            }
        })
    }
}

/// A count, and a function with its metadata and environment.
fn is_closure(type_: &Type) -> bool {
    let Some([_, content]) = type_.to_record().map(|record| record.fields()) else { return false };

    matches!(
        content.to_record().map(|record| record.fields()),
        Some([Type::Function(_), Type::Pointer(_), _])
    )
}

struct Compiler<'a> {
    vm: &'a Vm,
    names: &'a HashMap<&'a str, u64>,
    locals: Vec<(String, usize)>,
    slots: usize,
}

impl Compiler<'_> {
    fn local(&mut self, name: &str) -> usize {
        let slot = self.slots;
        self.slots += 1;
        self.locals.push((name.into(), slot));
        slot
    }

    fn body(&mut self, block: &Block) -> Res<Body> {
        let scope = self.locals.len();
        let mut steps = vec![];

        for instruction in &block.instructions {
            steps.push(match instruction {
                Instruction::AllocateHeap { size, name } => Step::AllocateHeap(self.code(size)?, self.local(name)),
                Instruction::AllocateStack { type_, name } => {
                    Step::AllocateStack(self.vm.layout(type_).size(), self.local(name))
                }
                Instruction::AtomicOperation { operator, pointer, value, name } => {
                    Step::Atomic(*operator, self.code(pointer)?, self.code(value)?, self.local(name))
                }
                Instruction::Call { function, arguments, name } => {
                    let function = self.code(function)?;
                    let arguments = arguments.iter().map(|argument| self.code(argument)).collect::<Res<_>>()?;
                    Step::Call(function, arguments, self.local(name))
                }
                Instruction::CompareAndSwap { pointer, old, new, name } => {
                    Step::Swap(self.code(pointer)?, self.code(old)?, self.code(new)?, self.local(name))
                }
                Instruction::DeconstructRecord { record, index, name } => {
                    Step::Field(self.code(record)?, *index, self.local(name))
                }
                Instruction::DeconstructUnion { union, index, name } => {
                    let members = union.type_().to_union().unwrap().members();
                    Step::Member(self.code(union)?, self.vm.layout(&members[*index]), self.local(name))
                }
                Instruction::Fence => continue,
                Instruction::FreeHeap(pointer) => Step::Free(self.code(pointer)?),
                Instruction::If { condition, then, else_, name } => {
                    let condition = self.code(condition)?;
                    let branches = Box::new([self.body(then)?, self.body(else_)?]);
                    Step::If(condition, branches, self.local(name))
                }
                Instruction::Load { pointer, type_, name, .. } => {
                    Step::Load(self.code(pointer)?, self.vm.layout(type_), self.local(name))
                }
                Instruction::MemoryCopy { source, destination, size } => {
                    Step::Copy(self.code(source)?, self.code(destination)?, self.code(size)?)
                }
                Instruction::Store { value, pointer, atomic } => Step::Store(
                    self.code(value)?,
                    self.code(pointer)?,
                    self.vm.layout(value.type_()),
                    *atomic,
                ),
            });
        }

        let end = match &block.terminal {
            Terminal::Branch(value) => End::Branch(self.code(value)?),
            Terminal::Return(value) => End::Return(self.code(value)?),
            Terminal::Unreachable => End::Unreachable,
        };

        self.locals.truncate(scope);

        Ok(Body { steps, end })
    }

    fn pair(&self, lhs: &TypedExpression, rhs: &TypedExpression) -> Res<Box<[Code; 2]>> {
        Ok(Box::new([self.code(lhs)?, self.code(rhs)?]))
    }

    fn code(&self, expression: &TypedExpression) -> Res<Code> {
        self.expression(expression.expression())
    }

    fn expression(&self, expression: &Expression) -> Res<Code> {
        let code = match expression {
            Expression::ArithmeticOperation(operation) => {
                let (operator, lhs, rhs) = operation.parts();
                Code::Arithmetic(
                    *operator,
                    lhs.type_().to_primitive() == Some(types::Primitive::Float64),
                    self.pair(lhs, rhs)?,
                )
            }
            Expression::BitCast(cast) => {
                let from = self.vm.layout(cast.expression().type_());
                let to = self.vm.layout(cast.to());
                let code = self.code(cast.expression())?;

                if from.size() != to.size() {
                    return stuck(format!("bit cast from {from:?} to {to:?}"));
                }

                match (&*from, &*to) {
                    (Layout::Word, Layout::Word) => code,
                    _ => Code::BitCast(from, to, Box::new(code)),
                }
            }
            Expression::BitwiseOperation(operation) => {
                let (operator, lhs, rhs) = operation.parts();
                Code::Bitwise(*operator, self.pair(lhs, rhs)?)
            }
            Expression::ComparisonOperation(operation) => {
                let (operator, lhs, rhs) = operation.parts();
                let number = match lhs.type_().to_primitive() {
                    Some(types::Primitive::Float64) => Number::Float,
                    Some(types::Primitive::Boolean) => Number::Boolean,
                    _ => Number::Integer,
                };
                Code::Compare(*operator, number, self.pair(lhs, rhs)?)
            }
            Expression::PointerAddress(address) => {
                let element = address.pointer().type_().to_pointer().unwrap().element();
                Code::Scaled(
                    self.pair(address.pointer(), address.offset())?,
                    self.vm.layout(element).size() as u64,
                )
            }
            Expression::Primitive(primitive) => Code::Value(V::Bits(match *primitive {
                ir::Primitive::Boolean(boolean) => boolean as u64,
                ir::Primitive::Float64(number) => number.to_bits(),
                ir::Primitive::Integer8(byte) => byte as u64,
                ir::Primitive::Integer64(bits) => bits,
                ir::Primitive::PointerInteger(bits) => bits as u64,
                primitive => panic!("HARNESS: {primitive:?}"),
            })),
            Expression::Record(record) => {
                Code::Record(record.fields().iter().map(|field| self.code(field)).collect::<Res<_>>()?)
            }
            Expression::RecordAddress(address) => {
                let layout = self.vm.layout(address.pointer().type_().to_pointer().unwrap().element());
                let Layout::Record { fields, .. } = &*layout else { unreachable!() };
                Code::Offset(Box::new(self.code(address.pointer())?), fields[address.index()].0 as u64)
            }
            Expression::SizeOf(size) => Code::Value(V::Bits(self.vm.layout(size.argument()).size() as u64)),
            Expression::Undefined(undefined) => Code::Value(self.vm.layout(&undefined.type_()).zero()),
            Expression::Union(union) => {
                let type_ = Type::from(union.union_type().clone());
                Code::Union(
                    self.vm.layout(&union.union_type().members()[union.member_index()]),
                    self.vm.layout(&type_).size(),
                    Box::new(self.expression(union.member())?),
                )
            }
            Expression::UnionAddress(address) => self.code(address.pointer())?,
            Expression::Variable(variable) => {
                if let Some((_, slot)) = self.locals.iter().rev().find(|(name, _)| name == variable.name()) {
                    Code::Local(*slot)
                } else if let Some(bits) = self.names.get(variable.name()) {
                    Code::Value(V::Bits(*bits))
                } else {
                    return stuck(format!("no variable {}", variable.name()));
                }
            }
        };

        Ok(code)
    }
}

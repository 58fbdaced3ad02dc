use crate::{
    ir::*,
    types::{self, Type},
};
use std::{
    cell::{Cell, RefCell},
    rc::Rc,
};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BuildError {
    TypesNotMatched(String),
    PointerExpected(String),
    RecordExpected(String),
    UnionExpected(String),
    FunctionExpected(String),
    NoField(String),
}

impl std::fmt::Display for BuildError {
    fn fmt(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(formatter, "{self:?}")
    }
}

impl std::error::Error for BuildError {}

#[derive(Clone, Debug, PartialEq)]
pub struct TypedExpression {
    expression: Expression,
    type_: Type,
}

impl TypedExpression {
    pub fn new(expression: impl Into<Expression>, type_: impl Into<Type>) -> Self {
        Self { expression: expression.into(), type_: type_.into() }
    }

    pub fn expression(&self) -> &Expression {
        &self.expression
    }

    pub fn type_(&self) -> &Type {
        &self.type_
    }
}

fn mismatch<T>(what: &str, one: &Type, other: &Type) -> Result<T, BuildError> {
    Err(BuildError::TypesNotMatched(format!("{what}: {one:?} and {other:?}")))
}

pub fn arithmetic_operation(
    operator: ArithmeticOperator,
    lhs: impl Into<TypedExpression>,
    rhs: impl Into<TypedExpression>,
) -> Result<ArithmeticOperation, BuildError> {
    let (lhs, rhs) = (lhs.into(), rhs.into());

    if lhs.type_() != rhs.type_() || lhs.type_().to_primitive().is_none() {
        return mismatch("arithmetic", lhs.type_(), rhs.type_());
    }

    Ok(ArithmeticOperation(Rc::new((operator, lhs, rhs))))
}

pub fn bitwise_operation(
    operator: BitwiseOperator,
    lhs: impl Into<TypedExpression>,
    rhs: impl Into<TypedExpression>,
) -> Result<BitwiseOperation, BuildError> {
    let (lhs, rhs) = (lhs.into(), rhs.into());

    if lhs.type_() != rhs.type_() || lhs.type_().to_primitive().is_none() {
        return mismatch("bits", lhs.type_(), rhs.type_());
    }

    Ok(BitwiseOperation(Rc::new((operator, lhs, rhs))))
}

pub fn comparison_operation(
    operator: ComparisonOperator,
    lhs: impl Into<TypedExpression>,
    rhs: impl Into<TypedExpression>,
) -> Result<ComparisonOperation, BuildError> {
    let (lhs, rhs) = (lhs.into(), rhs.into());

    if lhs.type_() != rhs.type_() || lhs.type_().to_primitive().is_none() {
        return mismatch("comparison", lhs.type_(), rhs.type_());
    }

    Ok(ComparisonOperation(Rc::new((operator, lhs, rhs))))
}

pub fn bit_cast(to: impl Into<Type>, expression: impl Into<TypedExpression>) -> BitCast {
    BitCast(Rc::new((to.into(), expression.into())))
}

pub fn record(fields: Vec<TypedExpression>) -> Record {
    Record(Rc::new((types::Record::new(fields.iter().map(|field| field.type_().clone()).collect()), fields)))
}

pub fn pointer_address(
    pointer: impl Into<TypedExpression>,
    offset: impl Into<TypedExpression>,
) -> Result<PointerAddress, BuildError> {
    let (pointer, offset) = (pointer.into(), offset.into());

    if pointer.type_().to_pointer().is_none() {
        return Err(BuildError::PointerExpected(format!("{:?}", pointer.type_())));
    }

    Ok(PointerAddress(Rc::new((pointer, offset))))
}

pub fn record_address(pointer: impl Into<TypedExpression>, index: usize) -> Result<RecordAddress, BuildError> {
    let pointer = pointer.into();
    let element =
        pointer.type_().to_pointer().ok_or_else(|| BuildError::PointerExpected(format!("{:?}", pointer.type_())))?;
    let record =
        element.element().to_record().ok_or_else(|| BuildError::RecordExpected(format!("{:?}", pointer.type_())))?;
    let field = record
        .fields()
        .get(index)
        .ok_or_else(|| BuildError::NoField(format!("{index} of {:?}", pointer.type_())))?
        .clone();

    Ok(RecordAddress(Rc::new((pointer, index, types::Pointer::new(field).into()))))
}

pub fn union_address(pointer: impl Into<TypedExpression>, index: usize) -> Result<UnionAddress, BuildError> {
    let pointer = pointer.into();
    let element =
        pointer.type_().to_pointer().ok_or_else(|| BuildError::PointerExpected(format!("{:?}", pointer.type_())))?;
    let union =
        element.element().to_union().ok_or_else(|| BuildError::UnionExpected(format!("{:?}", pointer.type_())))?;
    let member = union
        .members()
        .get(index)
        .ok_or_else(|| BuildError::NoField(format!("{index} of {:?}", pointer.type_())))?
        .clone();

    Ok(UnionAddress(Rc::new((pointer, types::Pointer::new(member).into()))))
}

pub fn size_of(type_: impl Into<Type>) -> SizeOf {
    SizeOf(type_.into())
}

pub fn variable(name: impl Into<String>, type_: impl Into<Type>) -> TypedExpression {
    TypedExpression::new(Variable::new(name), type_)
}

#[derive(Default)]
struct Shared {
    names: Cell<usize>,
    errors: RefCell<Vec<String>>,
}

impl Shared {
    fn name(&self) -> String {
        let name = self.names.get();
        self.names.set(name + 1);
        format!("_fmm_{name:x}")
    }

    fn check(&self, one: &Type, other: &Type, what: &str) {
        if one != other {
            self.errors.borrow_mut().push(format!("{what}: {one:?} and {other:?}"));
        }
    }
}

pub struct InstructionBuilder {
    shared: Rc<Shared>,
    result: Type,
    instructions: RefCell<Vec<Instruction>>,
}

impl InstructionBuilder {
    fn new(shared: Rc<Shared>, result: Type) -> Self {
        Self { shared, result, instructions: Default::default() }
    }

    fn add(&self, instruction: Instruction) {
        self.instructions.borrow_mut().push(instruction);
    }

    fn named(&self, type_: impl Into<Type>, instruction: impl FnOnce(String) -> Instruction) -> TypedExpression {
        let name = self.shared.name();
        self.add(instruction(name.clone()));
        variable(name, type_)
    }

    fn pointee(pointer: &TypedExpression) -> Result<Type, BuildError> {
        Ok(pointer
            .type_()
            .to_pointer()
            .ok_or_else(|| BuildError::PointerExpected(format!("{:?}", pointer.type_())))?
            .element()
            .clone())
    }

    fn block(&self, terminal: Terminal) -> Block {
        Block { instructions: self.instructions.take(), terminal }
    }

    pub fn allocate_heap(&self, size: impl Into<TypedExpression>) -> TypedExpression {
        let size = size.into();
        self.shared.check(size.type_(), &types::Primitive::PointerInteger.into(), "size");
        self.named(types::generic_pointer_type(), |name| Instruction::AllocateHeap { size, name })
    }

    pub fn allocate_stack(&self, type_: impl Into<Type>) -> TypedExpression {
        let type_ = type_.into();
        self.named(types::Pointer::new(type_.clone()), |name| Instruction::AllocateStack { type_, name })
    }

    fn load_with(&self, pointer: TypedExpression, atomic: bool) -> Result<TypedExpression, BuildError> {
        let type_ = Self::pointee(&pointer)?;
        Ok(self.named(type_.clone(), |name| Instruction::Load { pointer, atomic, type_, name }))
    }

    pub fn load(&self, pointer: impl Into<TypedExpression>) -> Result<TypedExpression, BuildError> {
        self.load_with(pointer.into(), false)
    }

    pub fn atomic_load(
        &self,
        pointer: impl Into<TypedExpression>,
        _: AtomicOrdering,
    ) -> Result<TypedExpression, BuildError> {
        self.load_with(pointer.into(), true)
    }

    fn store_with(&self, value: TypedExpression, pointer: TypedExpression, atomic: bool) {
        self.shared.check(&types::Pointer::new(value.type_().clone()).into(), pointer.type_(), "store");
        self.add(Instruction::Store { value, pointer, atomic });
    }

    pub fn store(&self, value: impl Into<TypedExpression>, pointer: impl Into<TypedExpression>) {
        self.store_with(value.into(), pointer.into(), false)
    }

    pub fn atomic_store(
        &self,
        value: impl Into<TypedExpression>,
        pointer: impl Into<TypedExpression>,
        _: AtomicOrdering,
    ) {
        self.store_with(value.into(), pointer.into(), true)
    }

    pub fn atomic_operation(
        &self,
        operator: AtomicOperator,
        pointer: impl Into<TypedExpression>,
        value: impl Into<TypedExpression>,
        _: AtomicOrdering,
    ) -> Result<TypedExpression, BuildError> {
        let (pointer, value) = (pointer.into(), value.into());
        let type_ = Self::pointee(&pointer)?;
        self.shared.check(&type_, value.type_(), "atomic operation");
        Ok(self.named(type_, |name| Instruction::AtomicOperation { operator, pointer, value, name }))
    }

    pub fn compare_and_swap(
        &self,
        pointer: impl Into<TypedExpression>,
        old: impl Into<TypedExpression>,
        new: impl Into<TypedExpression>,
        _: AtomicOrdering,
        _: AtomicOrdering,
    ) -> TypedExpression {
        let (pointer, old, new) = (pointer.into(), old.into(), new.into());
        self.shared.check(old.type_(), new.type_(), "swap");
        self.shared.check(&types::Pointer::new(old.type_().clone()).into(), pointer.type_(), "swap");
        self.named(types::Primitive::Boolean, |name| Instruction::CompareAndSwap { pointer, old, new, name })
    }

    pub fn call(
        &self,
        function: impl Into<TypedExpression>,
        arguments: Vec<TypedExpression>,
    ) -> Result<TypedExpression, BuildError> {
        let function = function.into();
        let type_ = function
            .type_()
            .to_function()
            .ok_or_else(|| BuildError::FunctionExpected(format!("{:?}", function.type_())))?
            .clone();

        if type_.arguments().len() != arguments.len() {
            return Err(BuildError::TypesNotMatched(format!("{} arguments for {type_:?}", arguments.len())));
        }

        for (argument, type_) in arguments.iter().zip(type_.arguments()) {
            self.shared.check(argument.type_(), type_, "argument");
        }

        Ok(self.named(type_.result().clone(), |name| Instruction::Call { function, arguments, name }))
    }

    pub fn deconstruct_record(
        &self,
        record: impl Into<TypedExpression>,
        index: usize,
    ) -> Result<TypedExpression, BuildError> {
        let record = record.into();
        let type_ = record
            .type_()
            .to_record()
            .ok_or_else(|| BuildError::RecordExpected(format!("{:?}", record.type_())))?
            .fields()
            .get(index)
            .ok_or_else(|| BuildError::NoField(format!("{index} of {:?}", record.type_())))?
            .clone();
        Ok(self.named(type_, |name| Instruction::DeconstructRecord { record, index, name }))
    }

    pub fn deconstruct_union(
        &self,
        union: impl Into<TypedExpression>,
        index: usize,
    ) -> Result<TypedExpression, BuildError> {
        let union = union.into();
        let type_ = union
            .type_()
            .to_union()
            .ok_or_else(|| BuildError::UnionExpected(format!("{:?}", union.type_())))?
            .members()
            .get(index)
            .ok_or_else(|| BuildError::NoField(format!("{index} of {:?}", union.type_())))?
            .clone();
        Ok(self.named(type_, |name| Instruction::DeconstructUnion { union, index, name }))
    }

    pub fn fence(&self, _: AtomicOrdering) {
        self.add(Instruction::Fence);
    }

    pub fn free_heap(&self, pointer: impl Into<TypedExpression>) {
        let pointer = pointer.into();
        self.shared.check(pointer.type_(), &types::generic_pointer_type(), "free");
        self.add(Instruction::FreeHeap(pointer));
    }

    pub fn if_<E: From<BuildError>>(
        &self,
        condition: impl Into<TypedExpression>,
        then: impl Fn(Self) -> Result<Block, E>,
        else_: impl Fn(Self) -> Result<Block, E>,
    ) -> Result<TypedExpression, E> {
        let condition = condition.into();
        self.shared.check(condition.type_(), &types::Primitive::Boolean.into(), "condition");

        let then = then(Self::new(self.shared.clone(), self.result.clone()))?;
        let else_ = else_(Self::new(self.shared.clone(), self.result.clone()))?;
        let types = [&then, &else_].map(|block| match &block.terminal {
            Terminal::Branch(value) => Some(value.type_().clone()),
            _ => None,
        });
        let type_ = match types {
            [Some(one), Some(other)] => {
                self.shared.check(&one, &other, "branches");
                one
            }
            [Some(type_), None] | [None, Some(type_)] => type_,
            [None, None] => types::void_type().into(),
        };

        Ok(self.named(type_, |name| Instruction::If { condition, then, else_, name }))
    }

    pub fn memory_copy(
        &self,
        source: impl Into<TypedExpression>,
        destination: impl Into<TypedExpression>,
        size: impl Into<TypedExpression>,
    ) {
        self.add(Instruction::MemoryCopy {
            source: source.into(),
            destination: destination.into(),
            size: size.into(),
        });
    }

    pub fn branch(&self, value: impl Into<TypedExpression>) -> Block {
        self.block(Terminal::Branch(value.into()))
    }

    pub fn return_(&self, value: impl Into<TypedExpression>) -> Block {
        let value = value.into();
        self.shared.check(value.type_(), &self.result, "result");
        self.block(Terminal::Return(value))
    }

    pub fn unreachable(&self) -> Block {
        self.block(Terminal::Unreachable)
    }
}

#[derive(Default)]
pub struct ModuleBuilder {
    shared: Rc<Shared>,
    module: RefCell<Module>,
}

impl ModuleBuilder {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn into_module(self) -> Module {
        let mut module = self.module.into_inner();
        module.errors = self.shared.errors.take();
        module
    }

    pub fn generate_name(&self) -> String {
        self.shared.name()
    }

    pub fn declare_variable(&self, name: impl Into<String>, type_: impl Into<Type>) -> TypedExpression {
        let (name, type_) = (name.into(), type_.into());
        self.module.borrow_mut().variable_declarations.push((name.clone(), type_.clone()));
        variable(name, types::Pointer::new(type_))
    }

    pub fn declare_function(&self, name: impl Into<String>, type_: types::Function) -> TypedExpression {
        let name = name.into();
        self.module.borrow_mut().function_declarations.push((name.clone(), type_.clone()));
        variable(name, type_)
    }

    pub fn define_variable(
        &self,
        name: impl Into<String>,
        value: impl Into<TypedExpression>,
        options: VariableDefinitionOptions,
    ) -> TypedExpression {
        let (name, value) = (name.into(), value.into());
        let type_ = types::Pointer::new(value.type_().clone());
        self.module.borrow_mut().variable_definitions.push(VariableDefinition { name: name.clone(), value, options });
        variable(name, type_)
    }

    /// Defines a variable of this module alone, as names made here are ones of other modules too.
    pub fn define_anonymous_variable(
        &self,
        value: impl Into<TypedExpression>,
        options: VariableDefinitionOptions,
    ) -> TypedExpression {
        self.define_variable(self.generate_name(), value, options.set_linkage(Linkage::Internal))
    }

    pub fn define_function<E: From<BuildError>>(
        &self,
        name: impl Into<String>,
        arguments: Vec<Argument>,
        result: impl Into<Type>,
        body: impl Fn(InstructionBuilder) -> Result<Block, E>,
        options: FunctionDefinitionOptions,
    ) -> Result<TypedExpression, E> {
        let (name, result) = (name.into(), result.into());
        let body = body(InstructionBuilder::new(self.shared.clone(), result.clone()))?;
        let type_ = types::Function::new(
            arguments.iter().map(|argument| argument.type_().clone()).collect(),
            result.clone(),
            options.calling_convention(),
        );
        self.module.borrow_mut().function_definitions.push(FunctionDefinition {
            name: name.clone(),
            arguments,
            result,
            body,
            options,
        });
        Ok(variable(name, type_))
    }

    pub fn define_anonymous_function<E: From<BuildError>>(
        &self,
        arguments: Vec<Argument>,
        result: impl Into<Type>,
        body: impl Fn(InstructionBuilder) -> Result<Block, E>,
        options: FunctionDefinitionOptions,
    ) -> Result<TypedExpression, E> {
        self.define_function(self.generate_name(), arguments, result, body, options.set_linkage(Linkage::Internal))
    }
}

use crate::{
    build::TypedExpression,
    types::{self, CallingConvention, Type},
};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ArithmeticOperator {
    Add,
    Subtract,
    Multiply,
    Divide,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BitwiseOperator {
    And,
    Or,
    Xor,
    LeftShift,
    RightShift(bool),
}

/// Of integers with signs, if true.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ComparisonOperator {
    Equal,
    NotEqual,
    LessThan(bool),
    LessThanOrEqual(bool),
    GreaterThan(bool),
    GreaterThanOrEqual(bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AtomicOperator {
    Add,
    Subtract,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AtomicOrdering {
    Relaxed,
    Release,
    Acquire,
    AcquireRelease,
    SequentiallyConsistent,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Linkage {
    External,
    Internal,
    Weak,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Primitive {
    Boolean(bool),
    Float32(f32),
    Float64(f64),
    Integer8(u8),
    Integer32(u32),
    Integer64(u64),
    PointerInteger(i64),
}

impl Primitive {
    pub fn type_(&self) -> types::Primitive {
        match self {
            Self::Boolean(_) => types::Primitive::Boolean,
            Self::Float32(_) => types::Primitive::Float32,
            Self::Float64(_) => types::Primitive::Float64,
            Self::Integer8(_) => types::Primitive::Integer8,
            Self::Integer32(_) => types::Primitive::Integer32,
            Self::Integer64(_) => types::Primitive::Integer64,
            Self::PointerInteger(_) => types::Primitive::PointerInteger,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expression {
    ArithmeticOperation(ArithmeticOperation),
    BitCast(BitCast),
    BitwiseOperation(BitwiseOperation),
    ComparisonOperation(ComparisonOperation),
    PointerAddress(PointerAddress),
    Primitive(Primitive),
    Record(Record),
    RecordAddress(RecordAddress),
    SizeOf(SizeOf),
    Undefined(Undefined),
    Union(Union),
    UnionAddress(UnionAddress),
    Variable(Variable),
}

#[derive(Clone, Debug, PartialEq)]
pub struct ArithmeticOperation(pub(crate) Rc<(ArithmeticOperator, TypedExpression, TypedExpression)>);

impl ArithmeticOperation {
    pub fn parts(&self) -> &(ArithmeticOperator, TypedExpression, TypedExpression) {
        &self.0
    }

    pub fn type_(&self) -> Type {
        self.0 .1.type_().clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct BitwiseOperation(pub(crate) Rc<(BitwiseOperator, TypedExpression, TypedExpression)>);

impl BitwiseOperation {
    pub fn parts(&self) -> &(BitwiseOperator, TypedExpression, TypedExpression) {
        &self.0
    }

    pub fn type_(&self) -> Type {
        self.0 .1.type_().clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct ComparisonOperation(pub(crate) Rc<(ComparisonOperator, TypedExpression, TypedExpression)>);

impl ComparisonOperation {
    pub fn parts(&self) -> &(ComparisonOperator, TypedExpression, TypedExpression) {
        &self.0
    }

    pub fn type_(&self) -> Type {
        types::Primitive::Boolean.into()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct BitCast(pub(crate) Rc<(Type, TypedExpression)>);

impl BitCast {
    pub fn to(&self) -> &Type {
        &self.0 .0
    }

    pub fn expression(&self) -> &TypedExpression {
        &self.0 .1
    }

    pub fn type_(&self) -> Type {
        self.to().clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct PointerAddress(pub(crate) Rc<(TypedExpression, TypedExpression)>);

impl PointerAddress {
    pub fn pointer(&self) -> &TypedExpression {
        &self.0 .0
    }

    pub fn offset(&self) -> &TypedExpression {
        &self.0 .1
    }

    pub fn type_(&self) -> Type {
        self.pointer().type_().clone()
    }
}

/// The address of a field of the record at a pointer.
#[derive(Clone, Debug, PartialEq)]
pub struct RecordAddress(pub(crate) Rc<(TypedExpression, usize, Type)>);

impl RecordAddress {
    pub fn pointer(&self) -> &TypedExpression {
        &self.0 .0
    }

    pub fn index(&self) -> usize {
        self.0 .1
    }

    pub fn type_(&self) -> Type {
        self.0 .2.clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct UnionAddress(pub(crate) Rc<(TypedExpression, Type)>);

impl UnionAddress {
    pub fn pointer(&self) -> &TypedExpression {
        &self.0 .0
    }

    pub fn type_(&self) -> Type {
        self.0 .1.clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Record(pub(crate) Rc<(types::Record, Vec<TypedExpression>)>);

impl Record {
    pub fn fields(&self) -> &[TypedExpression] {
        &self.0 .1
    }

    pub fn type_(&self) -> Type {
        self.0 .0.clone().into()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SizeOf(pub(crate) Type);

impl SizeOf {
    pub fn argument(&self) -> &Type {
        &self.0
    }

    pub fn type_(&self) -> Type {
        types::Primitive::PointerInteger.into()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Undefined(Type);

impl Undefined {
    pub fn new(type_: impl Into<Type>) -> Self {
        Self(type_.into())
    }

    pub fn type_(&self) -> Type {
        self.0.clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Union(Rc<(types::Union, usize, Expression)>);

impl Union {
    pub fn new(type_: types::Union, member_index: usize, member: impl Into<Expression>) -> Self {
        Self(Rc::new((type_, member_index, member.into())))
    }

    pub fn union_type(&self) -> &types::Union {
        &self.0 .0
    }

    pub fn member_index(&self) -> usize {
        self.0 .1
    }

    pub fn member(&self) -> &Expression {
        &self.0 .2
    }

    pub fn type_(&self) -> Type {
        self.0 .0.clone().into()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Variable(Rc<str>);

impl Variable {
    pub fn new(name: impl Into<String>) -> Self {
        Self(name.into().into())
    }

    pub fn name(&self) -> &str {
        &self.0
    }
}

impl From<Primitive> for TypedExpression {
    fn from(primitive: Primitive) -> Self {
        TypedExpression::new(Expression::Primitive(primitive), primitive.type_())
    }
}

impl From<Primitive> for Expression {
    fn from(primitive: Primitive) -> Self {
        Expression::Primitive(primitive)
    }
}

impl From<Variable> for Expression {
    fn from(variable: Variable) -> Self {
        Expression::Variable(variable)
    }
}

impl From<TypedExpression> for Expression {
    fn from(expression: TypedExpression) -> Self {
        expression.expression().clone()
    }
}

macro_rules! from {
    ($($name:ident)*) => {
        $(impl From<$name> for Expression {
            fn from(expression: $name) -> Self {
                Expression::$name(expression)
            }
        }

        impl From<$name> for TypedExpression {
            fn from(expression: $name) -> Self {
                let type_ = expression.type_();
                TypedExpression::new(expression, type_)
            }
        })*
    };
}

from!(
    ArithmeticOperation BitCast BitwiseOperation ComparisonOperation PointerAddress Record RecordAddress SizeOf
    Undefined Union UnionAddress
);

pub fn void_value() -> Record {
    Record(Rc::new((types::void_type(), vec![])))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Argument {
    name: String,
    type_: Type,
}

impl Argument {
    pub fn new(name: impl Into<String>, type_: impl Into<Type>) -> Self {
        Self { name: name.into(), type_: type_.into() }
    }

    pub fn name(&self) -> &str {
        &self.name
    }

    pub fn type_(&self) -> &Type {
        &self.type_
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Instruction {
    AllocateHeap { size: TypedExpression, name: String },
    AllocateStack { type_: Type, name: String },
    AtomicOperation { operator: AtomicOperator, pointer: TypedExpression, value: TypedExpression, name: String },
    Call { function: TypedExpression, arguments: Vec<TypedExpression>, name: String },
    CompareAndSwap { pointer: TypedExpression, old: TypedExpression, new: TypedExpression, name: String },
    DeconstructRecord { record: TypedExpression, index: usize, name: String },
    DeconstructUnion { union: TypedExpression, index: usize, name: String },
    Fence,
    FreeHeap(TypedExpression),
    If { condition: TypedExpression, then: Block, else_: Block, name: String },
    Load { pointer: TypedExpression, atomic: bool, type_: Type, name: String },
    MemoryCopy { source: TypedExpression, destination: TypedExpression, size: TypedExpression },
    Store { value: TypedExpression, pointer: TypedExpression, atomic: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Terminal {
    Branch(TypedExpression),
    Return(TypedExpression),
    Unreachable,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Block {
    pub instructions: Vec<Instruction>,
    pub terminal: Terminal,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FunctionDefinitionOptions {
    address_named: bool,
    calling_convention: CallingConvention,
    linkage: Linkage,
}

impl Default for FunctionDefinitionOptions {
    fn default() -> Self {
        Self::new()
    }
}

impl FunctionDefinitionOptions {
    pub fn new() -> Self {
        Self { address_named: true, calling_convention: CallingConvention::Source, linkage: Linkage::External }
    }

    pub fn set_address_named(self, address_named: bool) -> Self {
        Self { address_named, ..self }
    }

    pub fn set_calling_convention(self, calling_convention: CallingConvention) -> Self {
        Self { calling_convention, ..self }
    }

    pub fn set_linkage(self, linkage: Linkage) -> Self {
        Self { linkage, ..self }
    }

    pub fn is_address_named(&self) -> bool {
        self.address_named
    }

    pub fn calling_convention(&self) -> CallingConvention {
        self.calling_convention
    }

    pub fn linkage(&self) -> Linkage {
        self.linkage
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct VariableDefinitionOptions {
    address_named: bool,
    linkage: Linkage,
    mutable: bool,
}

impl Default for VariableDefinitionOptions {
    fn default() -> Self {
        Self::new()
    }
}

impl VariableDefinitionOptions {
    pub fn new() -> Self {
        Self { address_named: true, linkage: Linkage::External, mutable: true }
    }

    pub fn set_address_named(self, address_named: bool) -> Self {
        Self { address_named, ..self }
    }

    pub fn set_linkage(self, linkage: Linkage) -> Self {
        Self { linkage, ..self }
    }

    pub fn set_mutable(self, mutable: bool) -> Self {
        Self { mutable, ..self }
    }

    pub fn is_address_named(&self) -> bool {
        self.address_named
    }

    pub fn linkage(&self) -> Linkage {
        self.linkage
    }

    pub fn is_mutable(&self) -> bool {
        self.mutable
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FunctionDefinition {
    pub name: String,
    pub arguments: Vec<Argument>,
    pub result: Type,
    pub body: Block,
    pub options: FunctionDefinitionOptions,
}

#[derive(Clone, Debug, PartialEq)]
pub struct VariableDefinition {
    pub name: String,
    pub value: TypedExpression,
    pub options: VariableDefinitionOptions,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Module {
    pub variable_declarations: Vec<(String, Type)>,
    pub function_declarations: Vec<(String, types::Function)>,
    pub variable_definitions: Vec<VariableDefinition>,
    pub function_definitions: Vec<FunctionDefinition>,
    /// Instructions whose operands do not fit.
    pub errors: Vec<String>,
}

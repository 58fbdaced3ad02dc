use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CallingConvention {
    Source,
    Tail,
    Target,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Primitive {
    Boolean,
    Float32,
    Float64,
    Integer8,
    Integer32,
    Integer64,
    PointerInteger,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Type {
    Function(Function),
    Pointer(Pointer),
    Primitive(Primitive),
    Record(Record),
    Union(Union),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Function(Rc<(Vec<Type>, Type, CallingConvention)>);

impl Function {
    pub fn new(arguments: Vec<Type>, result: impl Into<Type>, calling_convention: CallingConvention) -> Self {
        Self(Rc::new((arguments, result.into(), calling_convention)))
    }

    pub fn arguments(&self) -> &[Type] {
        &self.0 .0
    }

    pub fn result(&self) -> &Type {
        &self.0 .1
    }

    pub fn calling_convention(&self) -> CallingConvention {
        self.0 .2
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pointer(Rc<Type>);

impl Pointer {
    pub fn new(element: impl Into<Type>) -> Self {
        Self(Rc::new(element.into()))
    }

    pub fn element(&self) -> &Type {
        &self.0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Record(Rc<Vec<Type>>);

impl Record {
    pub fn new(fields: Vec<Type>) -> Self {
        Self(Rc::new(fields))
    }

    pub fn fields(&self) -> &[Type] {
        &self.0
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Union(Rc<Vec<Type>>);

impl Union {
    pub fn new(members: Vec<Type>) -> Self {
        Self(Rc::new(members))
    }

    pub fn members(&self) -> &[Type] {
        &self.0
    }
}

macro_rules! from {
    ($($name:ident)*) => {
        $(impl From<$name> for Type {
            fn from(type_: $name) -> Self {
                Type::$name(type_)
            }
        })*
    };
}

from!(Function Pointer Primitive Record Union);

impl Type {
    pub fn to_function(&self) -> Option<&Function> {
        if let Self::Function(type_) = self { Some(type_) } else { None }
    }

    pub fn to_pointer(&self) -> Option<&Pointer> {
        if let Self::Pointer(type_) = self { Some(type_) } else { None }
    }

    pub fn to_primitive(&self) -> Option<Primitive> {
        if let Self::Primitive(type_) = self { Some(*type_) } else { None }
    }

    pub fn to_record(&self) -> Option<&Record> {
        if let Self::Record(type_) = self { Some(type_) } else { None }
    }

    pub fn to_union(&self) -> Option<&Union> {
        if let Self::Union(type_) = self { Some(type_) } else { None }
    }
}

pub fn void_type() -> Record {
    thread_local! { static TYPE: Record = Record::new(vec![]); }

    TYPE.with(Clone::clone)
}

pub fn generic_pointer_type() -> Type {
    thread_local! { static TYPE: Type = Pointer::new(Primitive::Integer8).into(); }

    TYPE.with(Clone::clone)
}

//! A model of the language: types, generated programs, their syntax trees and their values.

pub mod check;
pub mod emit;
pub mod eval;
pub mod generate;
pub mod judge;

use std::rc::Rc;

pub type Name = Rc<str>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum T {
    Any,
    Bool,
    Err,
    Fn(Vec<T>, Rc<T>),
    List(Rc<T>),
    Map(Rc<T>, Rc<T>),
    None,
    Num,
    Rec(usize),
    Str,
    /// At least two members, sorted, none of them any or a union.
    Union(Vec<T>),
}

impl T {
    pub fn union(types: impl IntoIterator<Item = T>) -> T {
        let mut members = vec![];

        for type_ in types {
            match type_ {
                T::Any => return T::Any,
                T::Union(others) => members.extend(others),
                type_ => members.push(type_),
            }
        }

        members.sort();
        members.dedup();

        if members.len() == 1 {
            members.pop().unwrap()
        } else {
            T::Union(members)
        }
    }

    pub fn members(&self) -> Vec<T> {
        match self {
            T::Union(members) => members.clone(),
            type_ => vec![type_.clone()],
        }
    }

    /// Whether values of the type can stand where `other` is expected.
    pub fn le(&self, other: &T) -> bool {
        match other {
            T::Any => true,
            T::Union(members) => self.members().iter().all(|type_| members.contains(type_)),
            other => self == other,
        }
    }

    pub fn is_variant(&self) -> bool {
        matches!(self, T::Any | T::Union(_))
    }

    pub fn any_part(&self, records: &[Record], test: &mut dyn FnMut(&T) -> bool) -> bool {
        fn visit(type_: &T, records: &[Record], seen: &mut Vec<usize>, test: &mut dyn FnMut(&T) -> bool) -> bool {
            test(type_)
                || match type_ {
                    T::Fn(arguments, result) => {
                        arguments.iter().any(|type_| visit(type_, records, seen, test))
                            || visit(result, records, seen, test)
                    }
                    T::List(element) => visit(element, records, seen, test),
                    T::Map(key, value) => visit(key, records, seen, test) || visit(value, records, seen, test),
                    T::Rec(index) => {
                        if seen.contains(index) {
                            return false;
                        }
                        seen.push(*index);
                        records[*index].fields.iter().any(|(_, type_)| visit(type_, records, seen, test))
                    }
                    T::Union(members) => members.iter().any(|type_| visit(type_, records, seen, test)),
                    T::Any | T::Bool | T::Err | T::None | T::Num | T::Str => false,
                }
        }

        visit(self, records, &mut vec![], test)
    }

    /// Whether the language compares values of the type.
    pub fn is_comparable(&self, records: &[Record]) -> bool {
        !self.any_part(records, &mut |type_| matches!(type_, T::Any | T::Err | T::Fn(_, _)))
    }

    /// Whether looking at a value runs nothing.
    pub fn is_strict(&self, records: &[Record]) -> bool {
        !self.any_part(records, &mut |type_| matches!(type_, T::Any | T::Err | T::Fn(_, _) | T::List(_)))
    }

    pub fn has_map(&self, records: &[Record]) -> bool {
        self.any_part(records, &mut |type_| matches!(type_, T::Map(_, _)))
    }

    pub fn is_simple(&self) -> bool {
        matches!(self, T::Num | T::Bool | T::Str | T::None)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    And,
    Or,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BuiltIn {
    Size,
    Delete,
    Keys,
    Values,
    Error,
    Source,
    Debug,
    Go,
}

impl BuiltIn {
    pub fn name(self) -> &'static str {
        match self {
            Self::Size => "size",
            Self::Delete => "delete",
            Self::Keys => "keys",
            Self::Values => "values",
            Self::Error => "error",
            Self::Source => "source",
            Self::Debug => "debug",
            Self::Go => "go",
        }
    }
}

pub type X = Rc<E>;

#[derive(Clone, Debug)]
pub struct Block {
    pub statements: Vec<(Option<Name>, X)>,
    pub value: X,
}

#[derive(Clone, Debug)]
pub struct Lambda {
    pub arguments: Vec<(Name, T)>,
    pub result: T,
    pub body: Block,
}

#[derive(Clone, Debug)]
pub struct Branch {
    pub names: Vec<Name>,
    pub iteratees: Vec<X>,
    pub condition: Option<X>,
}

#[derive(Clone, Debug)]
pub enum Entry {
    Single(X, X),
    Spread(X),
}

#[derive(Clone, Debug)]
pub enum E {
    Num(f64),
    Bool(bool),
    None,
    Str(Vec<u8>),
    Var(Name),
    Binary(Op, X, X),
    Not(X),
    Try(X),
    Call(X, Vec<X>),
    /// A foreign function that leaves a mark and gives its argument back: kind of mark, number, type, value.
    Probe(bool, u32, T, X),
    BuiltIn(BuiltIn, Vec<X>),
    If(Vec<(X, Block)>, Block),
    IfType(Name, X, Vec<(T, Block)>, Option<Block>),
    IfList(X, Name, Name, Block, Block),
    IfMap(Name, X, X, Block, Block),
    Lambda(Rc<Lambda>),
    List(T, Vec<(bool, X)>),
    /// The last branch is the outermost one.
    Comprehension(T, X, Rc<Vec<Branch>>),
    Map(T, T, Vec<Entry>),
    Record(usize, Option<X>, Vec<(usize, X)>),
    Field(X, usize, usize),
    /// Anything else: for programs with mistakes.
    RawRecord(Name, Option<X>, Vec<(Name, X)>),
    RawField(X, Name),
    /// Where the mistake is.
    Mark(X),
}

#[derive(Clone, Debug)]
pub struct Record {
    pub name: Name,
    pub fields: Vec<(Name, T)>,
}

#[derive(Clone, Debug)]
pub struct Function {
    pub name: Name,
    pub lambda: Rc<Lambda>,
    pub pure_: bool,
    /// The first argument is a small number that bounds the recursion.
    pub counted: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Program {
    pub records: Vec<Record>,
    pub aliases: Vec<(Name, T)>,
    pub functions: Vec<Function>,
    /// Types of probes.
    pub probes: Vec<(bool, T)>,
    /// Types that are looked for when a value of the any type is shown.
    pub dispatch: Vec<T>,
    /// Type of the result of the last function.
    pub result: Option<T>,
}

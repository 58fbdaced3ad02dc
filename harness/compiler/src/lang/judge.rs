//! The language's rules of types, told apart from the compiler, and small edits of programs that they judge.

use super::*;
use pbt::Gen;
use std::collections::HashMap;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    Bad(&'static str),
    /// A rule that is not settled.
    Unsure(&'static str),
}

use Verdict::{Bad, Unsure};

type R = Result<T, Verdict>;

/// Types of variables that are seen.
#[derive(Clone, Default)]
struct Scope(Option<Rc<(Name, T, Scope)>>);

impl Scope {
    fn with(&self, name: &Name, type_: T) -> Self {
        Self(Some(Rc::new((name.clone(), type_, self.clone()))))
    }

    fn get(&self, name: &str) -> Option<&T> {
        let (here, type_, rest) = &**self.0.as_ref()?;
        if &**here == name {
            Some(type_)
        } else {
            rest.get(name)
        }
    }
}

fn function_type(lambda: &Lambda) -> T {
    T::Fn(lambda.arguments.iter().map(|(_, type_)| type_.clone()).collect(), Rc::new(lambda.result.clone()))
}

/// Where an error that is passed on goes to: nowhere, from parts of lists.
type Exit<'a> = Option<&'a T>;

pub struct Judge<'a> {
    program: &'a Program,
    functions: HashMap<Name, T>,
}

fn all(bad: bool, why: &'static str) -> Result<(), Verdict> {
    if bad {
        Err(Bad(why))
    } else {
        Ok(())
    }
}

impl<'a> Judge<'a> {
    pub fn new(program: &'a Program) -> Self {
        Self {
            program,
            functions: program
                .functions
                .iter()
                .map(|function| (function.name.clone(), function_type(&function.lambda)))
                .collect(),
        }
    }

    pub fn program(&self) -> Result<(), Verdict> {
        let mut unsure = None;

        for function in &self.program.functions {
            match self.lambda(&function.lambda, &Default::default()) {
                Ok(_) => {}
                Err(Bad(why)) => return Err(Bad(why)),
                Err(other) => unsure = Some(other),
            }
        }

        unsure.map_or(Ok(()), Err)
    }

    /// Types that no value of the program's could be described with.
    fn known(&self, type_: &T) -> Result<(), Verdict> {
        let records = &self.program.records;

        if type_.any_part(records, &mut |type_| matches!(type_, T::Map(key, _) if !key.is_comparable(records))) {
            return Err(Unsure("keys that are not compared"));
        }

        Ok(())
    }

    fn lambda(&self, lambda: &Lambda, scope: &Scope) -> R {
        let mut scope = scope.clone();

        self.known(&function_type(lambda))?;

        for (index, (name, type_)) in lambda.arguments.iter().enumerate() {
            if lambda.arguments[..index].iter().any(|(other, _)| other == name) {
                return Err(Unsure("arguments with one name"));
            }
            scope = scope.with(name, type_.clone());
        }

        let body = self.block(&lambda.body, &scope, Some(&lambda.result))?;
        all(!body.le(&lambda.result), "result")?;

        Ok(function_type(lambda))
    }

    fn block(&self, block: &Block, scope: &Scope, exit: Exit) -> R {
        let mut scope = scope.clone();

        for (name, expression) in &block.statements {
            let type_ = self.expression(expression, &scope, exit)?;

            match name {
                Some(name) => scope = scope.with(name, type_),
                None => all(type_ != T::Any && T::Err.le(&type_), "error left behind")?,
            }
        }

        self.expression(&block.value, &scope, exit)
    }

    fn expect(&self, expression: &E, type_: &T, scope: &Scope, exit: Exit) -> Result<(), Verdict> {
        all(!self.expression(expression, scope, exit)?.le(type_), "operand")
    }

    fn expression(&self, expression: &E, scope: &Scope, exit: Exit) -> R {
        let infer = |expression: &E| self.expression(expression, scope, exit);
        let expect = |expression: &E, type_: &T| self.expect(expression, type_, scope, exit);

        Ok(match expression {
            E::Num(_) => T::Num,
            E::Bool(_) => T::Bool,
            E::None => T::None,
            E::Str(_) => T::Str,
            E::Var(name) => match scope.get(name).or_else(|| self.functions.get(name)) {
                Some(type_) => type_.clone(),
                None => return Err(Bad("variable")),
            },
            E::Binary(op, lhs, rhs) => match op {
                Op::Add => {
                    let type_ = infer(lhs)?;
                    all(!matches!(type_, T::Num | T::Str), "sum")?;
                    expect(rhs, &type_)?;
                    type_
                }
                Op::Sub | Op::Mul | Op::Div => {
                    expect(lhs, &T::Num)?;
                    expect(rhs, &T::Num)?;
                    T::Num
                }
                Op::And | Op::Or => {
                    expect(lhs, &T::Bool)?;
                    expect(rhs, &T::Bool)?;
                    T::Bool
                }
                Op::Lt | Op::Le | Op::Gt | Op::Ge => {
                    expect(lhs, &T::Num)?;
                    expect(rhs, &T::Num)?;
                    T::Bool
                }
                Op::Eq | Op::Ne => {
                    let lhs = infer(lhs)?;
                    let rhs = infer(rhs)?;
                    all(!lhs.le(&rhs) && !rhs.le(&lhs), "sides of an equality")?;
                    all(
                        ![lhs, rhs].iter().all(|type_| type_.is_comparable(&self.program.records)),
                        "things that are not compared",
                    )?;
                    T::Bool
                }
            },
            E::Not(operand) => {
                expect(operand, &T::Bool)?;
                T::Bool
            }
            E::Try(operand) => {
                let Some(result) = exit else { return Err(Bad("error passed on in a list")) };
                all(!T::Err.le(result), "error passed on to a result")?;

                // A known finding.
                if *result == T::Err {
                    return Err(Unsure("error passed on as the whole result"));
                }

                let type_ = infer(operand)?;
                let members = type_.members();
                all(type_ == T::Any || !members.contains(&T::Err) || members.len() == 1, "error passed on")?;
                T::union(members.into_iter().filter(|type_| *type_ != T::Err))
            }
            E::Call(function, arguments) => {
                let T::Fn(types, result) = infer(function)? else { return Err(Bad("function")) };
                all(types.len() != arguments.len(), "count of arguments")?;
                for (argument, type_) in arguments.iter().zip(&types) {
                    expect(argument, type_)?;
                }
                (*result).clone()
            }
            E::Probe(_, _, type_, operand) => {
                expect(operand, type_)?;
                type_.clone()
            }
            E::BuiltIn(function, arguments) => {
                let types = arguments.iter().map(|argument| infer(argument)).collect::<Result<Vec<_>, _>>()?;

                match (function, &types[..]) {
                    (BuiltIn::Size, [T::List(_) | T::Map(_, _)]) => T::Num,
                    (BuiltIn::Delete, [T::Map(key, value), other]) => {
                        all(!T::le(other, key), "key")?;
                        T::Map(key.clone(), value.clone())
                    }
                    (BuiltIn::Keys, [T::Map(key, _)]) => T::List(key.clone()),
                    (BuiltIn::Values, [T::Map(_, value)]) => T::List(value.clone()),
                    (BuiltIn::Error, [_]) => T::Err,
                    (BuiltIn::Source, [T::Err]) => T::Any,
                    (BuiltIn::Debug, [_]) => T::None,
                    (BuiltIn::Go, [T::Fn(others, result)]) if others.is_empty() => T::Fn(vec![], result.clone()),
                    _ => return Err(Bad("argument of a function of the language")),
                }
            }
            E::If(branches, else_) => {
                let mut types = vec![];

                for (condition, block) in branches {
                    expect(condition, &T::Bool)?;
                    types.push(self.block(block, scope, exit)?);
                }

                types.push(self.block(else_, scope, exit)?);
                T::union(types)
            }
            E::IfType(name, argument, branches, else_) => {
                let type_ = infer(argument)?;
                let mut types = vec![];

                all(!type_.is_variant(), "type that is known")?;

                for (branch, block) in branches {
                    self.known(branch)?;
                    all(!branch.le(&type_) || *branch == T::Any, "type of a branch")?;
                    types.push(self.block(block, &scope.with(name, branch.clone()), exit)?);
                }

                let covered = branches.iter().flat_map(|(type_, _)| type_.members()).collect::<Vec<_>>();
                let rest = type_.members().into_iter().filter(|type_| !covered.contains(type_)).collect::<Vec<_>>();

                match else_ {
                    None => all(!rest.is_empty(), "no last branch")?,
                    Some(block) => {
                        all(rest.is_empty(), "last branch for nothing")?;
                        types.push(self.block(block, &scope.with(name, T::union(rest)), exit)?);
                    }
                }

                T::union(types)
            }
            E::IfList(list, first, rest, then, else_) => {
                let type_ = infer(list)?;
                let T::List(element) = &type_ else { return Err(Bad("list")) };

                if first == rest {
                    return Err(Unsure("first and rest with one name"));
                }

                let scope_ = scope.with(first, T::Fn(vec![], element.clone())).with(rest, type_.clone());

                T::union([self.block(then, &scope_, exit)?, self.block(else_, scope, exit)?])
            }
            E::IfMap(name, map, key, then, else_) => {
                let T::Map(key_type, value) = infer(map)? else { return Err(Bad("map")) };
                expect(key, &key_type)?;

                T::union([
                    self.block(then, &scope.with(name, (*value).clone()), exit)?,
                    self.block(else_, scope, exit)?,
                ])
            }
            E::Lambda(lambda) => self.lambda(lambda, scope)?,
            E::List(element, elements) => {
                self.known(element)?;

                for (spread, value) in elements {
                    let type_ = self.expression(value, scope, None)?;

                    if *spread {
                        let T::List(type_) = type_ else { return Err(Bad("list")) };
                        all(!T::le(&type_, element), "element")?;
                    } else {
                        all(!type_.le(element), "element")?;
                    }
                }

                T::List(Rc::new(element.clone()))
            }
            E::Comprehension(element, value, branches) => {
                let mut scope = scope.clone();

                self.known(element)?;

                for branch in branches.iter().rev() {
                    let mut inner = scope.clone();

                    all(branch.names.len() != branch.iteratees.len(), "count of names")?;

                    for (index, (name, iteratee)) in branch.names.iter().zip(&branch.iteratees).enumerate() {
                        if branch.names[..index].contains(name) {
                            return Err(Unsure("elements with one name"));
                        }

                        let T::List(type_) = self.expression(iteratee, &scope, None)? else {
                            return Err(Bad("list"));
                        };
                        inner = inner.with(name, T::Fn(vec![], type_));
                    }

                    scope = inner;

                    if let Some(condition) = &branch.condition {
                        self.expect(condition, &T::Bool, &scope, None)?;
                    }
                }

                self.expect(value, element, &scope, None)?;
                T::List(Rc::new(element.clone()))
            }
            E::Map(key, value, entries) => {
                self.known(&T::Map(Rc::new(key.clone()), Rc::new(value.clone())))?;

                for entry in entries {
                    match entry {
                        Entry::Single(one, other) => {
                            expect(one, key)?;
                            expect(other, value)?;
                        }
                        Entry::Spread(map) => {
                            let T::Map(one, other) = infer(map)? else { return Err(Bad("map")) };
                            all(!T::le(&one, key) || !T::le(&other, value), "entry")?;
                        }
                    }
                }

                T::Map(Rc::new(key.clone()), Rc::new(value.clone()))
            }
            E::Record(index, old, fields) => {
                let record = &self.program.records[*index];

                for (position, (field, value)) in fields.iter().enumerate() {
                    if fields[..position].iter().any(|(other, _)| other == field) {
                        return Err(Unsure("a field twice"));
                    }
                    let Some((_, type_)) = record.fields.get(*field) else { return Err(Bad("field")) };
                    expect(value, type_)?;
                }

                match old {
                    Some(old) => {
                        expect(old, &T::Rec(*index))?;
                        if fields.is_empty() {
                            return Err(Unsure("nothing updated"));
                        }
                    }
                    None => all(fields.len() != record.fields.len(), "fields left out")?,
                }

                T::Rec(*index)
            }
            E::Field(operand, record, field) => {
                // Fields are known by their names.
                let name = &self.program.records[*record].fields[*field].0;
                let T::Rec(index) = infer(operand)? else { return Err(Bad("record")) };

                match self.program.records[index].fields.iter().find(|(other, _)| other == name) {
                    Some((_, type_)) => type_.clone(),
                    None => return Err(Bad("field")),
                }
            }
            E::RawRecord(_, _, _) | E::RawField(_, _) => return Err(Unsure("raw")),
            E::Mark(operand) => infer(operand)?,
        })
    }
}

/// Everything below an expression, rebuilt.
struct Walk<'a> {
    expression: &'a mut dyn FnMut(&X) -> Option<X>,
    type_: &'a mut dyn FnMut(&T) -> Option<T>,
    block: &'a mut dyn FnMut(&Block) -> Option<Block>,
}

impl Walk<'_> {
    fn t(&mut self, type_: &T) -> T {
        (self.type_)(type_).unwrap_or_else(|| type_.clone())
    }

    fn xs(&mut self, expressions: &[X]) -> Vec<X> {
        expressions.iter().map(|expression| self.x(expression)).collect()
    }

    fn b(&mut self, block: &Block) -> Block {
        if let Some(block) = (self.block)(block) {
            return block;
        }

        Block {
            statements: block.statements.iter().map(|(name, value)| (name.clone(), self.x(value))).collect(),
            value: self.x(&block.value),
        }
    }

    fn l(&mut self, lambda: &Lambda, signature: bool) -> Lambda {
        Lambda {
            arguments: lambda
                .arguments
                .iter()
                .map(|(name, type_)| (name.clone(), if signature { self.t(type_) } else { type_.clone() }))
                .collect(),
            result: if signature { self.t(&lambda.result) } else { lambda.result.clone() },
            body: self.b(&lambda.body),
        }
    }

    fn x(&mut self, expression: &X) -> X {
        if let Some(expression) = (self.expression)(expression) {
            return expression;
        }

        Rc::new(match &**expression {
            E::Num(_) | E::Bool(_) | E::None | E::Str(_) | E::Var(_) => return expression.clone(),
            E::Binary(op, lhs, rhs) => E::Binary(*op, self.x(lhs), self.x(rhs)),
            E::Not(operand) => E::Not(self.x(operand)),
            E::Try(operand) => E::Try(self.x(operand)),
            E::Call(function, arguments) => E::Call(self.x(function), self.xs(arguments)),
            E::Probe(peek, number, type_, operand) => E::Probe(*peek, *number, type_.clone(), self.x(operand)),
            E::BuiltIn(function, arguments) => E::BuiltIn(*function, self.xs(arguments)),
            E::If(branches, else_) => E::If(
                branches.iter().map(|(condition, block)| (self.x(condition), self.b(block))).collect(),
                self.b(else_),
            ),
            E::IfType(name, argument, branches, else_) => E::IfType(
                name.clone(),
                self.x(argument),
                branches.iter().map(|(type_, block)| (self.t(type_), self.b(block))).collect(),
                else_.as_ref().map(|block| self.b(block)),
            ),
            E::IfList(list, first, rest, then, else_) => {
                E::IfList(self.x(list), first.clone(), rest.clone(), self.b(then), self.b(else_))
            }
            E::IfMap(name, map, key, then, else_) => {
                E::IfMap(name.clone(), self.x(map), self.x(key), self.b(then), self.b(else_))
            }
            E::Lambda(lambda) => E::Lambda(Rc::new(self.l(lambda, true))),
            E::List(type_, elements) => E::List(
                self.t(type_),
                elements.iter().map(|(spread, element)| (*spread, self.x(element))).collect(),
            ),
            E::Comprehension(type_, element, branches) => E::Comprehension(
                self.t(type_),
                self.x(element),
                Rc::new(
                    branches
                        .iter()
                        .map(|branch| Branch {
                            names: branch.names.clone(),
                            iteratees: self.xs(&branch.iteratees),
                            condition: branch.condition.as_ref().map(|condition| self.x(condition)),
                        })
                        .collect(),
                ),
            ),
            E::Map(key, value, entries) => E::Map(
                self.t(key),
                self.t(value),
                entries
                    .iter()
                    .map(|entry| match entry {
                        Entry::Single(key, value) => Entry::Single(self.x(key), self.x(value)),
                        Entry::Spread(map) => Entry::Spread(self.x(map)),
                    })
                    .collect(),
            ),
            E::Record(index, old, fields) => E::Record(
                *index,
                old.as_ref().map(|old| self.x(old)),
                fields.iter().map(|(field, value)| (*field, self.x(value))).collect(),
            ),
            E::Field(operand, record, field) => E::Field(self.x(operand), *record, *field),
            E::RawRecord(_, _, _) | E::RawField(_, _) => return expression.clone(),
            E::Mark(operand) => return self.x(operand),
        })
    }
}

fn walk(
    program: &Program,
    expression: &mut dyn FnMut(&X) -> Option<X>,
    type_: &mut dyn FnMut(&T) -> Option<T>,
    block: &mut dyn FnMut(&Block) -> Option<Block>,
) -> Program {
    let mut walk = Walk { expression, type_, block };
    let last = program.functions.len() - 1;

    Program {
        functions: program
            .functions
            .iter()
            .enumerate()
            .map(|(index, function)| Function {
                // The type of the last function is what the program's result is shown by.
                lambda: Rc::new(walk.l(&function.lambda, index != last)),
                ..function.clone()
            })
            .collect(),
        ..program.clone()
    }
}

/// What is in a program, in order.
struct Parts {
    expressions: Vec<X>,
    types: Vec<T>,
    blocks: Vec<Block>,
}

fn parts(program: &Program) -> Parts {
    let mut parts = Parts { expressions: vec![], types: vec![], blocks: vec![] };

    walk(
        program,
        &mut |expression| {
            parts.expressions.push(expression.clone());
            None
        },
        &mut |type_| {
            parts.types.push(type_.clone());
            None
        },
        &mut |block| {
            parts.blocks.push(block.clone());
            None
        },
    );

    parts
}

fn nth<A>(index: usize, mut change: impl FnMut(&A) -> A) -> impl FnMut(&A) -> Option<A> {
    let mut count = 0;

    move |part| {
        let here = count == index;
        count += 1;
        here.then(|| change(part))
    }
}

/// A program with one edit that keeps it a program of the syntax.
pub fn edited(g: &mut Gen, program: &Program) -> (Program, &'static str) {
    let parts = parts(program);

    match g.weighted(&[6, 6, 3, 8]) {
        0 => {
            let index = g.below(parts.expressions.len() as u64) as usize;
            let other = if g.chance(2, 3) {
                // One that is near knows more of the same variables.
                let low = index.saturating_sub(12);
                let high = (index + 12).min(parts.expressions.len());
                parts.expressions[low + g.below((high - low) as u64) as usize].clone()
            } else {
                g.pick(&parts.expressions).clone()
            };

            (walk(program, &mut nth(index, move |_: &X| other.clone()), &mut |_| None, &mut |_| None), "expression")
        }
        1 if !parts.types.is_empty() => {
            let index = g.below(parts.types.len() as u64) as usize;
            let type_ = other_type(g, program, &parts, &parts.types[index]);

            (walk(program, &mut |_| None, &mut nth(index, move |_: &T| type_.clone()), &mut |_| None), "type")
        }
        2 => {
            let mut blocks = (0..parts.blocks.len()).filter(|index| !parts.blocks[*index].statements.is_empty()).collect::<Vec<_>>();

            if blocks.is_empty() {
                blocks.push(0);
            }

            let index = *g.pick(&blocks);
            let block = other_block(g, &parts, &parts.blocks[index]);

            (walk(program, &mut |_| None, &mut |_| None, &mut nth(index, move |_: &Block| block.clone())), "block")
        }
        _ => {
            // A few tries for a node that has something to change.
            for _ in 0..12 {
                let index = g.below(parts.expressions.len() as u64) as usize;

                if let Some(expression) = other_expression(g, program, &parts, &parts.expressions[index]) {
                    return (
                        walk(program, &mut nth(index, move |_: &X| expression.clone()), &mut |_| None, &mut |_| None),
                        "structure",
                    );
                }
            }

            (program.clone(), "nothing")
        }
    }
}

fn other_type(g: &mut Gen, program: &Program, parts: &Parts, type_: &T) -> T {
    let any = |g: &mut Gen| {
        if g.chance(2, 3) {
            g.pick(&parts.types).clone()
        } else if !program.records.is_empty() && g.chance(1, 4) {
            T::Rec(g.below(program.records.len() as u64) as usize)
        } else {
            g.pick(&[T::Num, T::None, T::Bool, T::Str, T::Err, T::Any]).clone()
        }
    };

    match g.below(6) {
        0 => any(g),
        1 => T::union([type_.clone(), any(g)]),
        2 => {
            let mut members = type_.members();
            let index = g.below(members.len() as u64) as usize;
            if members.len() > 1 {
                members.remove(index);
            } else {
                members[index] = any(g);
            }
            T::union(members)
        }
        3 => match type_ {
            T::Fn(arguments, result) => {
                let mut arguments = arguments.clone();
                if arguments.is_empty() || g.bool() {
                    return T::Fn(arguments, Rc::new(any(g)));
                }
                let index = g.below(arguments.len() as u64) as usize;
                arguments[index] = any(g);
                T::Fn(arguments, result.clone())
            }
            T::List(_) => T::List(Rc::new(any(g))),
            T::Map(key, value) => {
                if g.bool() {
                    T::Map(Rc::new(any(g)), value.clone())
                } else {
                    T::Map(key.clone(), Rc::new(any(g)))
                }
            }
            _ => T::union([type_.clone(), any(g)]),
        },
        4 => T::List(Rc::new(type_.clone())),
        _ => T::Any,
    }
}

fn other_block(g: &mut Gen, parts: &Parts, block: &Block) -> Block {
    let mut block = block.clone();
    let count = block.statements.len();

    match g.below(7) {
        5 | 6 => {
            // Something of the block in another place, where errors are passed on to elsewhere.
            let all = block.statements.iter().map(|(_, value)| value).chain([&block.value]).collect::<Vec<_>>();
            let value = (*g.pick(&all)).clone();
            let list = |type_: &T, value: &X| Rc::new(E::List(type_.clone(), vec![(false, value.clone())]));
            let name: Name = Rc::from("_other");
            let wrapped = match g.below(6) {
                0 => list(&T::Any, &value),
                1 => list(&T::List(Rc::new(T::Any)), &list(&T::Any, &value)),
                2 => Rc::new(E::Map(T::Num, T::Any, vec![Entry::Single(Rc::new(E::Num(0.0)), value)])),
                place @ (3 | 4) => {
                    let one = Rc::new(E::List(T::Num, vec![]));
                    let element = if place == 3 { value.clone() } else { Rc::new(E::None) };
                    let iteratee = if place == 3 { one } else { list(&T::Any, &value) };
                    Rc::new(E::Comprehension(
                        T::Any,
                        element,
                        Rc::new(vec![Branch { names: vec![name.clone()], iteratees: vec![iteratee], condition: None }]),
                    ))
                }
                _ => Rc::new(E::Lambda(Rc::new(Lambda {
                    arguments: vec![],
                    result: if parts.types.is_empty() || g.bool() { T::Any } else { g.pick(&parts.types).clone() },
                    body: Block { statements: vec![], value },
                }))),
            };
            block.statements.push((Some(name), wrapped));
        }
        0 if count > 0 => {
            block.statements.remove(g.below(count as u64) as usize);
        }
        1 if count > 1 => {
            let index = g.below(count as u64 - 1) as usize;
            block.statements.swap(index, index + 1);
        }
        2 if count > 0 => {
            let index = g.below(count as u64) as usize;
            block.statements[index].0 = None;
        }
        3 if count > 0 => {
            block.value = block.statements[g.below(count as u64) as usize].1.clone();
        }
        _ => {
            let index = g.below(count as u64 + 1) as usize;
            let value = g.pick(&parts.expressions).clone();
            block.statements.insert(index, (None, value));
        }
    }

    block
}

fn other_expression(g: &mut Gen, program: &Program, parts: &Parts, expression: &X) -> Option<X> {
    let any = |g: &mut Gen| g.pick(&parts.expressions).clone();
    let other_list = |g: &mut Gen, expressions: &[X]| {
        let mut expressions = expressions.to_vec();
        let count = expressions.len();

        match g.below(4) {
            0 if count > 0 => {
                expressions.remove(g.below(count as u64) as usize);
            }
            1 if count > 1 => {
                let index = g.below(count as u64 - 1) as usize;
                expressions.swap(index, index + 1);
            }
            2 if count > 0 => {
                let index = g.below(count as u64) as usize;
                expressions[index] = any(g);
            }
            _ => expressions.push(any(g)),
        }

        expressions
    };

    Some(Rc::new(match &**expression {
        E::Num(_) | E::Bool(_) | E::None | E::Str(_) => match g.below(6) {
            0 => E::Num(1.0),
            1 => E::Bool(true),
            2 => E::None,
            3 => E::Str(b"a".to_vec()),
            4 => E::BuiltIn(BuiltIn::Error, vec![expression.clone()]),
            _ => E::List(T::Num, vec![]),
        },
        E::Var(_) => {
            let names = parts
                .expressions
                .iter()
                .filter_map(|expression| match &**expression {
                    E::Var(name) => Some(name.clone()),
                    _ => None,
                })
                .collect::<Vec<_>>();
            match g.below(4) {
                0 => E::Call(expression.clone(), vec![]),
                1 => E::Try(expression.clone()),
                _ => E::Var(g.pick(&names).clone()),
            }
        }
        E::Binary(op, lhs, rhs) => match g.below(5) {
            0 => E::Binary(*op, rhs.clone(), lhs.clone()),
            1 => E::Binary(*op, lhs.clone(), any(g)),
            2 => return Some(lhs.clone()),
            _ => E::Binary(
                *g.pick(&[Op::Add, Op::Sub, Op::And, Op::Or, Op::Eq, Op::Ne, Op::Lt, Op::Ge]),
                lhs.clone(),
                rhs.clone(),
            ),
        },
        E::Not(operand) | E::Try(operand) => match g.below(3) {
            0 => return Some(operand.clone()),
            1 => E::Try(expression.clone()),
            _ => E::Not(expression.clone()),
        },
        E::Call(function, arguments) => match g.below(4) {
            0 => return Some(function.clone()),
            1 => E::Call(expression.clone(), vec![]),
            2 => E::Try(expression.clone()),
            _ => E::Call(function.clone(), other_list(g, arguments)),
        },
        E::Probe(_, _, _, operand) => return Some(operand.clone()),
        E::BuiltIn(function, arguments) => {
            if g.bool() {
                E::BuiltIn(
                    *g.pick(&[
                        BuiltIn::Size,
                        BuiltIn::Delete,
                        BuiltIn::Keys,
                        BuiltIn::Values,
                        BuiltIn::Error,
                        BuiltIn::Source,
                        BuiltIn::Debug,
                        BuiltIn::Go,
                    ]),
                    arguments.clone(),
                )
            } else {
                E::BuiltIn(*function, other_list(g, arguments))
            }
        }
        E::If(branches, else_) => {
            let mut branches = branches.clone();
            let mut else_ = else_.clone();
            let index = g.below(branches.len() as u64) as usize;

            match g.below(4) {
                0 if branches.len() > 1 => {
                    branches.remove(index);
                }
                1 => std::mem::swap(&mut branches[index].1, &mut else_),
                2 => branches[index].0 = any(g),
                _ => branches[index].1 = g.pick(&parts.blocks).clone(),
            }

            E::If(branches, else_)
        }
        E::IfType(name, argument, branches, else_) => {
            let mut name = name.clone();
            let mut argument = argument.clone();
            let mut branches = branches.clone();
            let mut else_ = else_.clone();
            let index = g.below(branches.len() as u64) as usize;

            match g.below(7) {
                0 if branches.len() > 1 => {
                    branches.remove(index);
                }
                1 => else_ = if else_.is_some() { None } else { Some(branches[index].1.clone()) },
                2 => {
                    let type_ = other_type(g, program, parts, &branches[index].0);
                    branches.push((type_, branches[index].1.clone()));
                }
                3 => {
                    let other = branches[index].1.clone();
                    let last = branches.len() - 1;
                    branches[index].1 = std::mem::replace(&mut branches[last].1, other);
                }
                4 => name = Rc::from("_other"),
                5 => argument = any(g),
                _ => branches[index].0 = other_type(g, program, parts, &branches[index].0),
            }

            E::IfType(name, argument, branches, else_)
        }
        E::IfList(list, first, rest, then, else_) => match g.below(5) {
            0 => E::IfList(list.clone(), rest.clone(), first.clone(), then.clone(), else_.clone()),
            1 => E::IfList(list.clone(), first.clone(), rest.clone(), else_.clone(), then.clone()),
            2 => E::IfList(any(g), first.clone(), rest.clone(), then.clone(), else_.clone()),
            3 => E::IfList(list.clone(), first.clone(), Rc::from("_other"), then.clone(), else_.clone()),
            _ => E::IfList(list.clone(), Rc::from("_other"), rest.clone(), then.clone(), else_.clone()),
        },
        E::IfMap(name, map, key, then, else_) => match g.below(5) {
            0 => E::IfMap(name.clone(), key.clone(), map.clone(), then.clone(), else_.clone()),
            1 => E::IfMap(name.clone(), map.clone(), key.clone(), else_.clone(), then.clone()),
            2 => E::IfMap(name.clone(), any(g), key.clone(), then.clone(), else_.clone()),
            3 => E::IfMap(name.clone(), map.clone(), any(g), then.clone(), else_.clone()),
            _ => E::IfMap(Rc::from("_other"), map.clone(), key.clone(), then.clone(), else_.clone()),
        },
        E::Lambda(lambda) => {
            let mut lambda = (**lambda).clone();
            let count = lambda.arguments.len();

            match g.below(4) {
                0 if count > 0 => {
                    lambda.arguments.remove(g.below(count as u64) as usize);
                }
                1 if count > 1 => lambda.arguments.swap(0, count - 1),
                2 => lambda.arguments.push((Rc::from("_other"), T::Num)),
                _ => lambda.body = g.pick(&parts.blocks).clone(),
            }

            E::Lambda(Rc::new(lambda))
        }
        E::List(type_, elements) => {
            let mut elements = elements.clone();
            let count = elements.len();

            match g.below(3) {
                0 if count > 0 => {
                    let index = g.below(count as u64) as usize;
                    elements[index].0 = !elements[index].0;
                }
                1 if count > 0 => {
                    let index = g.below(count as u64) as usize;
                    let value = elements[index].1.clone();
                    elements[index].1 = Rc::new(E::Try(value));
                }
                _ => elements.push((g.bool(), any(g))),
            }

            E::List(type_.clone(), elements)
        }
        E::Comprehension(type_, element, branches) => {
            let mut element = element.clone();
            let mut branches = (**branches).clone();
            let index = g.below(branches.len() as u64) as usize;

            match g.below(7) {
                0 if branches.len() > 1 => branches.swap(0, index),
                1 if branches.len() > 1 => {
                    branches.remove(index);
                }
                2 => branches[index].condition = Some(any(g)),
                3 => {
                    let place = g.below(branches[index].iteratees.len() as u64) as usize;
                    branches[index].iteratees[place] = any(g);
                }
                4 => {
                    let value = any(g);
                    branches[index].iteratees.push(value);
                }
                5 => element = Rc::new(E::Call(element, vec![])),
                _ => element = any(g),
            }

            E::Comprehension(type_.clone(), element, Rc::new(branches))
        }
        E::Map(key, value, entries) => {
            let mut entries = entries.clone();
            let entry = match g.below(3) {
                0 => Entry::Spread(any(g)),
                1 => {
                    let key = any(g);
                    Entry::Single(key, any(g))
                }
                _ => {
                    return Some(Rc::new(E::Map(value.clone(), key.clone(), entries)));
                }
            };
            entries.push(entry);
            E::Map(key.clone(), value.clone(), entries)
        }
        E::Record(index, old, fields) => {
            let mut fields = fields.clone();
            let count = fields.len();

            match g.below(5) {
                0 if count > 1 => {
                    fields.remove(g.below(count as u64) as usize);
                }
                1 if count > 1 => {
                    let first = fields[0].1.clone();
                    fields[0].1 = std::mem::replace(&mut fields[count - 1].1, first);
                }
                2 => return Some(Rc::new(E::Record(*index, if old.is_some() { None } else { Some(any(g)) }, fields))),
                3 => {
                    let other = g.below(program.records.len() as u64) as usize;
                    fields.retain(|(field, _)| *field < program.records[other].fields.len());
                    return Some(Rc::new(E::Record(other, old.clone(), fields)));
                }
                _ if count > 0 => {
                    let place = g.below(count as u64) as usize;
                    fields[place].1 = any(g);
                }
                _ => return None,
            }

            E::Record(*index, old.clone(), fields)
        }
        E::Field(operand, record, _) => match g.below(3) {
            0 => return Some(operand.clone()),
            1 => E::Field(any(g), *record, 0),
            _ => {
                let other = g.below(program.records.len() as u64) as usize;
                let count = program.records[other].fields.len();
                if count == 0 {
                    return None;
                }
                E::Field(operand.clone(), other, g.below(count as u64) as usize)
            }
        },
        E::RawRecord(_, _, _) | E::RawField(_, _) | E::Mark(_) => return None,
    }))
}

//! What programs mean.

use super::*;
use std::{cell::{Cell, RefCell}, collections::BTreeSet};

#[derive(Clone)]
pub enum V {
    Num(f64),
    Bool(bool),
    None,
    Str(Rc<Vec<u8>>),
    Rec(usize, Rc<Vec<V>>),
    List(T, Seq),
    Map(T, T, Rc<Vec<(V, V)>>),
    Fn(Rc<Closure>),
    Err(Rc<V>),
}

pub enum Closure {
    Lambda(Rc<Lambda>, Env),
    Thunk(T, Thunk),
    Global(usize),
}

pub enum Flow {
    Return(V),
    Fuel,
    /// The model does not cover the program.
    Skip(&'static str),
    Bug(String),
}

pub type R<X> = Result<X, Flow>;

type Delayed<A> = Box<dyn Fn(&Interpreter) -> R<A>>;

enum State<A> {
    Done(A),
    Pending(Delayed<A>),
    Busy,
}

pub struct Lazy<A>(Rc<RefCell<State<A>>>);

impl<A> Clone for Lazy<A> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}

impl<A: Clone> Lazy<A> {
    pub fn new(run: impl Fn(&Interpreter) -> R<A> + 'static) -> Self {
        Self(Rc::new(RefCell::new(State::Pending(Box::new(run)))))
    }

    pub fn done(value: A) -> Self {
        Self(Rc::new(RefCell::new(State::Done(value))))
    }

    pub fn force(&self, interpreter: &Interpreter) -> R<A> {
        let state = std::mem::replace(&mut *self.0.borrow_mut(), State::Busy);

        match state {
            State::Done(value) => {
                *self.0.borrow_mut() = State::Done(value.clone());
                Ok(value)
            }
            State::Pending(run) => {
                let value = run(interpreter)?;
                *self.0.borrow_mut() = State::Done(value.clone());
                Ok(value)
            }
            State::Busy => Err(Flow::Skip("a value that depends on itself")),
        }
    }
}

pub type Thunk = Lazy<V>;

#[derive(Clone)]
pub struct Seq(Lazy<Option<(Thunk, Seq)>>);

impl Seq {
    fn empty() -> Self {
        Self(Lazy::done(None))
    }

    fn cons(first: Thunk, rest: Seq) -> Self {
        Self(Lazy::done(Some((first, rest))))
    }

    fn new(run: impl Fn(&Interpreter) -> R<Seq> + 'static) -> Self {
        Self(Lazy::new(move |interpreter| run(interpreter)?.force(interpreter)))
    }

    pub fn force(&self, interpreter: &Interpreter) -> R<Option<(Thunk, Seq)>> {
        self.0.force(interpreter)
    }

    fn concatenate(self, other: Seq) -> Self {
        Self(Lazy::new(move |interpreter| {
            Ok(match self.force(interpreter)? {
                Some((first, rest)) => Some((first, rest.concatenate(other.clone()))),
                None => other.force(interpreter)?,
            })
        }))
    }
}

pub struct Binding {
    name: Name,
    value: V,
    next: Env,
}

pub type Env = Option<Rc<Binding>>;

fn bind(env: &Env, name: &Name, value: V) -> Env {
    Some(Rc::new(Binding { name: name.clone(), value, next: env.clone() }))
}

pub struct Interpreter {
    pub program: Rc<Program>,
    globals: Vec<Thunk>,
    fuel: Cell<u64>,
    depth: Cell<u32>,
    pub trace: RefCell<Vec<String>>,
    pub peeks: RefCell<BTreeSet<String>>,
}

fn bug<A>(message: impl Into<String>) -> R<A> {
    Err(Flow::Bug(message.into()))
}

pub fn digest(value: &V) -> String {
    match value {
        V::Num(number) => show_number(*number),
        V::Bool(boolean) => boolean.to_string(),
        V::None => "none".into(),
        V::Str(string) => show_bytes(string),
        _ => "".into(),
    }
}

pub fn show_number(number: f64) -> String {
    if number.is_nan() {
        "nan".into()
    } else {
        format!("{:x}", number.to_bits())
    }
}

pub fn show_bytes(bytes: &[u8]) -> String {
    let mut text = String::from("s");

    for byte in bytes {
        text += &format!("{byte:02x}");
    }

    text
}

impl Interpreter {
    pub fn new(program: Rc<Program>, fuel: u64) -> Self {
        let globals = (0..program.functions.len())
            .map(|index| {
                Lazy::new(move |interpreter: &Interpreter| {
                    let lambda = interpreter.program.functions[index].lambda.clone();
                    interpreter.body(&lambda, &None)
                })
            })
            .collect();

        Self {
            program,
            globals,
            fuel: Cell::new(fuel),
            depth: Cell::new(0),
            trace: Default::default(),
            peeks: Default::default(),
        }
    }

    pub fn used(&self, fuel: u64) -> u64 {
        fuel - self.fuel.get()
    }

    fn body(&self, lambda: &Lambda, env: &Env) -> R<V> {
        if self.depth.get() > 2_000 {
            return Err(Flow::Fuel);
        }

        self.depth.set(self.depth.get() + 1);
        let result = match self.block(&lambda.body, env) {
            Err(Flow::Return(value)) => Ok(value),
            result => result,
        };
        self.depth.set(self.depth.get() - 1);
        result
    }

    pub fn call(&self, function: &V, arguments: Vec<V>) -> R<V> {
        let V::Fn(closure) = function else { return bug("call of no function") };

        match &**closure {
            Closure::Lambda(lambda, env) => {
                let mut env = env.clone();

                for ((name, _), value) in lambda.arguments.iter().zip(arguments) {
                    env = bind(&env, name, value);
                }

                self.body(lambda, &env)
            }
            Closure::Thunk(_, thunk) => thunk.force(self),
            Closure::Global(index) => {
                let lambda = self.program.functions[*index].lambda.clone();

                if lambda.arguments.is_empty() {
                    self.globals[*index].force(self)
                } else {
                    let mut env = None;

                    for ((name, _), value) in lambda.arguments.iter().zip(arguments) {
                        env = bind(&env, name, value);
                    }

                    self.body(&lambda, &env)
                }
            }
        }
    }

    pub fn block(&self, block: &Block, env: &Env) -> R<V> {
        let mut env = env.clone();

        for (name, expression) in &block.statements {
            let value = self.eval(expression, &env)?;

            if let Some(name) = name {
                env = bind(&env, name, value);
            }
        }

        self.eval(&block.value, &env)
    }

    fn variable(&self, name: &str, env: &Env) -> R<V> {
        let mut current = env;

        while let Some(binding) = current {
            if &*binding.name == name {
                return Ok(binding.value.clone());
            }

            current = &binding.next;
        }

        match self.program.functions.iter().position(|function| &*function.name == name) {
            Some(index) => Ok(V::Fn(Rc::new(Closure::Global(index)))),
            None => bug(format!("no variable {name}")),
        }
    }

    fn number(&self, expression: &E, env: &Env) -> R<f64> {
        match self.eval(expression, env)? {
            V::Num(number) => Ok(number),
            _ => bug("no number"),
        }
    }

    fn boolean(&self, expression: &E, env: &Env) -> R<bool> {
        match self.eval(expression, env)? {
            V::Bool(boolean) => Ok(boolean),
            _ => bug("no boolean"),
        }
    }

    fn seq(&self, expression: &E, env: &Env) -> R<Seq> {
        match self.eval(expression, env)? {
            V::List(_, seq) => Ok(seq),
            _ => bug("no list"),
        }
    }

    fn map(&self, expression: &E, env: &Env) -> R<(T, T, Rc<Vec<(V, V)>>)> {
        match self.eval(expression, env)? {
            V::Map(key, value, entries) => Ok((key, value, entries)),
            _ => bug("no map"),
        }
    }

    pub fn eval(&self, expression: &E, env: &Env) -> R<V> {
        let fuel = self.fuel.get();
        if fuel == 0 {
            return Err(Flow::Fuel);
        }
        self.fuel.set(fuel - 1);

        Ok(match expression {
            E::Num(number) => V::Num(*number),
            E::Bool(boolean) => V::Bool(*boolean),
            E::None => V::None,
            E::Str(string) => V::Str(Rc::new(string.clone())),
            E::Var(name) => self.variable(name, env)?,
            E::Binary(op, lhs, rhs) => match op {
                Op::And => V::Bool(self.boolean(lhs, env)? && self.boolean(rhs, env)?),
                Op::Or => V::Bool(self.boolean(lhs, env)? || self.boolean(rhs, env)?),
                Op::Eq | Op::Ne => {
                    let lhs = self.eval(lhs, env)?;
                    let rhs = self.eval(rhs, env)?;
                    V::Bool(self.equal(&lhs, &rhs)? == (*op == Op::Eq))
                }
                Op::Add => match (self.eval(lhs, env)?, self.eval(rhs, env)?) {
                    (V::Num(lhs), V::Num(rhs)) => V::Num(lhs + rhs),
                    (V::Str(lhs), V::Str(rhs)) => {
                        if lhs.len() + rhs.len() > 100_000 {
                            return Err(Flow::Fuel);
                        }
                        V::Str(Rc::new([&lhs[..], &rhs[..]].concat()))
                    }
                    _ => return bug("addition"),
                },
                _ => {
                    let lhs = self.number(lhs, env)?;
                    let rhs = self.number(rhs, env)?;
                    match op {
                        Op::Sub => V::Num(lhs - rhs),
                        Op::Mul => V::Num(lhs * rhs),
                        Op::Div => V::Num(lhs / rhs),
                        Op::Lt => V::Bool(lhs < rhs),
                        Op::Le => V::Bool(lhs <= rhs),
                        Op::Gt => V::Bool(lhs > rhs),
                        _ => V::Bool(lhs >= rhs),
                    }
                }
            },
            E::Not(operand) => V::Bool(!self.boolean(operand, env)?),
            E::Try(operand) => match self.eval(operand, env)? {
                value @ V::Err(_) => return Err(Flow::Return(value)),
                value => value,
            },
            E::Call(function, arguments) => {
                let function = self.eval(function, env)?;
                let arguments =
                    arguments.iter().map(|argument| self.eval(argument, env)).collect::<R<Vec<_>>>()?;
                self.call(&function, arguments)?
            }
            E::Probe(peek, number, _, operand) => {
                let value = self.eval(operand, env)?;
                let text = format!("{number} {}", digest(&value));

                if *peek {
                    self.peeks.borrow_mut().insert(text);
                } else {
                    self.trace.borrow_mut().push(text);
                }

                value
            }
            E::BuiltIn(function, arguments) => {
                let arguments =
                    arguments.iter().map(|argument| self.eval(argument, env)).collect::<R<Vec<_>>>()?;
                self.built_in(*function, arguments)?
            }
            E::If(branches, else_) => {
                for (condition, block) in branches {
                    if self.boolean(condition, env)? {
                        return self.block(block, env);
                    }
                }

                self.block(else_, env)?
            }
            E::IfType(name, argument, branches, else_) => {
                let value = self.eval(argument, env)?;
                let type_ = self.type_of(&value);
                let env = bind(env, name, value);

                for (branch, block) in branches {
                    if type_.le(branch) {
                        return self.block(block, &env);
                    }
                }

                match else_ {
                    Some(block) => self.block(block, &env)?,
                    None => return bug("no branch"),
                }
            }
            E::IfList(list, first_name, rest_name, then, else_) => {
                let V::List(type_, seq) = self.eval(list, env)? else { return bug("no list") };

                match seq.force(self)? {
                    Some((first, rest)) => {
                        let env = bind(
                            env,
                            first_name,
                            V::Fn(Rc::new(Closure::Thunk(T::Fn(vec![], Rc::new(type_.clone())), first))),
                        );
                        let env = bind(&env, rest_name, V::List(type_, rest));
                        self.block(then, &env)?
                    }
                    None => self.block(else_, env)?,
                }
            }
            E::IfMap(name, map, key, then, else_) => {
                let (_, _, entries) = self.map(map, env)?;
                let key = self.eval(key, env)?;

                match self.find(&entries, &key)? {
                    Some(index) => self.block(then, &bind(env, name, entries[index].1.clone()))?,
                    None => self.block(else_, env)?,
                }
            }
            E::Lambda(lambda) => V::Fn(Rc::new(Closure::Lambda(lambda.clone(), env.clone()))),
            E::List(type_, elements) => {
                let mut seq = Seq::empty();

                for (spread, element) in elements.iter().rev() {
                    let element = element.clone();
                    let env = env.clone();

                    seq = if *spread {
                        Seq::new(move |interpreter| interpreter.seq(&element, &env)).concatenate(seq)
                    } else {
                        Seq::cons(Lazy::new(move |interpreter| interpreter.eval(&element, &env)), seq)
                    };
                }

                V::List(type_.clone(), seq)
            }
            E::Comprehension(type_, element, branches) => {
                let branches = branches.clone();
                let element = element.clone();
                let env = env.clone();
                let count = branches.len();

                V::List(
                    type_.clone(),
                    Seq::new(move |interpreter| interpreter.comprehend(&branches, count, &element, &env)),
                )
            }
            E::Map(key_type, value_type, elements) => {
                // The reference does not say which of two equal keys wins and what is evaluated first. The compiler
                // evaluates maps that are spread from the last to the first before anything else, and keeps the entries
                // written before them.
                let mut spreads = vec![];

                for element in elements.iter().rev() {
                    if let Entry::Spread(map) = element {
                        spreads.push(self.map(map, env)?.2);
                    }
                }

                let mut entries = Rc::new(vec![]);

                for element in elements {
                    match element {
                        Entry::Single(key, value) => {
                            let key = self.eval(key, env)?;
                            let value = self.eval(value, env)?;
                            self.insert(Rc::make_mut(&mut entries), key, value)?;
                        }
                        Entry::Spread(_) => {
                            let own = entries;
                            entries = Rc::new((*spreads.pop().unwrap()).clone());

                            for (key, value) in own.iter() {
                                self.insert(Rc::make_mut(&mut entries), key.clone(), value.clone())?;
                            }
                        }
                    }
                }

                V::Map(key_type.clone(), value_type.clone(), entries)
            }
            E::Record(index, old, fields) => {
                let mut values = match old {
                    Some(old) => match self.eval(old, env)? {
                        V::Rec(_, values) => (*values).clone(),
                        _ => return bug("no record"),
                    },
                    None => vec![V::None; self.program.records[*index].fields.len()],
                };

                for (field, expression) in fields {
                    values[*field] = self.eval(expression, env)?;
                }

                V::Rec(*index, Rc::new(values))
            }
            E::Field(record, _, field) => match self.eval(record, env)? {
                V::Rec(_, values) => values[*field].clone(),
                _ => return bug("no record"),
            },
            E::RawRecord(..) | E::RawField(..) | E::Mark(_) => return bug("a mistake"),
        })
    }

    fn comprehend(&self, branches: &Rc<Vec<Branch>>, count: usize, element: &X, env: &Env) -> R<Seq> {
        let iteratees = branches[count - 1]
            .iteratees
            .iter()
            .map(|iteratee| match self.eval(iteratee, env)? {
                V::List(type_, seq) => Ok((type_, seq)),
                _ => bug("no list"),
            })
            .collect::<R<Vec<_>>>()?;

        self.iterate(branches, count, element, env, iteratees)
    }

    fn iterate(
        &self,
        branches: &Rc<Vec<Branch>>,
        count: usize,
        element: &X,
        env: &Env,
        mut iteratees: Vec<(T, Seq)>,
    ) -> R<Seq> {
        let branch = &branches[count - 1];

        loop {
            let mut inner = env.clone();

            for (name, (type_, seq)) in branch.names.iter().zip(&mut iteratees) {
                let Some((first, rest)) = seq.force(self)? else { return Ok(Seq::empty()) };

                inner = bind(
                    &inner,
                    name,
                    V::Fn(Rc::new(Closure::Thunk(T::Fn(vec![], Rc::new(type_.clone())), first))),
                );
                *seq = rest;
            }

            let chosen = match &branch.condition {
                Some(condition) => self.boolean(condition, &inner)?,
                None => true,
            };

            if !chosen {
                continue;
            }

            let rest = {
                let branches = branches.clone();
                let element = element.clone();
                let env = env.clone();
                Seq::new(move |interpreter| interpreter.iterate(&branches, count, &element, &env, iteratees.clone()))
            };
            let element = element.clone();

            return Ok(if count == 1 {
                Seq::cons(Lazy::new(move |interpreter| interpreter.eval(&element, &inner)), rest)
            } else {
                let branches = branches.clone();
                Seq::new(move |interpreter| interpreter.comprehend(&branches, count - 1, &element, &inner))
                    .concatenate(rest)
            });
        }
    }

    fn find(&self, entries: &[(V, V)], key: &V) -> R<Option<usize>> {
        for (index, (other, _)) in entries.iter().enumerate() {
            if self.equal(other, key)? {
                return Ok(Some(index));
            }
        }

        Ok(None)
    }

    fn insert(&self, entries: &mut Vec<(V, V)>, key: V, value: V) -> R<()> {
        if !self.equal(&key, &key)? {
            return Err(Flow::Skip("not-a-number as a key"));
        }

        match self.find(entries, &key)? {
            // Which of two equal keys stays is not said.
            Some(index) => entries[index] = (key, value),
            None => entries.push((key, value)),
        }

        Ok(())
    }

    pub fn built_in(&self, function: BuiltIn, arguments: Vec<V>) -> R<V> {
        Ok(match (function, &arguments[..]) {
            (BuiltIn::Size, [V::List(_, seq)]) => {
                let mut seq = seq.clone();
                let mut size = 0.0;

                while let Some((_, rest)) = seq.force(self)? {
                    self.burn(1)?;
                    size += 1.0;
                    seq = rest;
                }

                V::Num(size)
            }
            (BuiltIn::Size, [V::Map(_, _, entries)]) => V::Num(entries.len() as f64),
            (BuiltIn::Delete, [V::Map(key_type, value_type, entries), key]) => {
                let mut entries = (**entries).clone();

                if let Some(index) = self.find(&entries, key)? {
                    entries.remove(index);
                }

                V::Map(key_type.clone(), value_type.clone(), Rc::new(entries))
            }
            (BuiltIn::Keys, [V::Map(key_type, _, entries)]) => self.list(key_type, entries.iter().map(|(key, _)| key)),
            (BuiltIn::Values, [V::Map(_, value_type, entries)]) => {
                self.list(value_type, entries.iter().map(|(_, value)| value))
            }
            // An error of an error is the latter.
            (BuiltIn::Error, [V::Err(source)]) => V::Err(source.clone()),
            (BuiltIn::Error, [value]) => V::Err(Rc::new(value.clone())),
            (BuiltIn::Source, [V::Err(value)]) => (**value).clone(),
            (BuiltIn::Debug, [value]) => {
                let text = self.debug(value)?;
                self.trace.borrow_mut().push(format!("debug {text}"));
                V::None
            }
            (BuiltIn::Go, [function]) => {
                let value = self.call(function, vec![])?;
                let type_ = self.type_of(function);
                V::Fn(Rc::new(Closure::Thunk(type_, Lazy::done(value))))
            }
            _ => return bug("built-in function"),
        })
    }

    fn list<'a>(&self, type_: &T, values: impl DoubleEndedIterator<Item = &'a V>) -> V {
        let mut seq = Seq::empty();

        for value in values.rev() {
            seq = Seq::cons(Lazy::done(value.clone()), seq);
        }

        V::List(type_.clone(), seq)
    }

    fn burn(&self, count: u64) -> R<()> {
        let fuel = self.fuel.get();
        if fuel < count {
            return Err(Flow::Fuel);
        }
        self.fuel.set(fuel - count);
        Ok(())
    }

    pub fn type_of(&self, value: &V) -> T {
        match value {
            V::Num(_) => T::Num,
            V::Bool(_) => T::Bool,
            V::None => T::None,
            V::Str(_) => T::Str,
            V::Rec(index, _) => T::Rec(*index),
            V::List(type_, _) => T::List(Rc::new(type_.clone())),
            V::Map(key, value, _) => T::Map(Rc::new(key.clone()), Rc::new(value.clone())),
            V::Fn(closure) => match &**closure {
                Closure::Lambda(lambda, _) => lambda_type(lambda),
                Closure::Thunk(type_, _) => type_.clone(),
                Closure::Global(index) => lambda_type(&self.program.functions[*index].lambda),
            },
            V::Err(_) => T::Err,
        }
    }

    pub fn equal(&self, one: &V, other: &V) -> R<bool> {
        self.burn(1)?;

        Ok(match (one, other) {
            (V::Num(one), V::Num(other)) => one == other,
            (V::Bool(one), V::Bool(other)) => one == other,
            (V::None, V::None) => true,
            (V::Str(one), V::Str(other)) => one == other,
            (V::Rec(one, ones), V::Rec(other, others)) => {
                if one != other {
                    return Ok(false);
                }
                for (one, other) in ones.iter().zip(others.iter()) {
                    if !self.equal(one, other)? {
                        return Ok(false);
                    }
                }
                true
            }
            (V::List(one_type, one), V::List(other_type, other)) => {
                if one_type != other_type {
                    return Ok(false);
                }
                let (mut one, mut other) = (one.clone(), other.clone());

                loop {
                    match (one.force(self)?, other.force(self)?) {
                        (None, None) => return Ok(true),
                        (Some((x, xs)), Some((y, ys))) => {
                            let x = x.force(self)?;
                            let y = y.force(self)?;
                            if !self.equal(&x, &y)? {
                                return Ok(false);
                            }
                            one = xs;
                            other = ys;
                        }
                        _ => return Ok(false),
                    }
                }
            }
            (V::Map(one_key, one_value, ones), V::Map(other_key, other_value, others)) => {
                if one_key != other_key || one_value != other_value || ones.len() != others.len() {
                    return Ok(false);
                }

                for (key, value) in ones.iter() {
                    match self.find(others, key)? {
                        Some(index) if self.equal(value, &others[index].1)? => {}
                        _ => return Ok(false),
                    }
                }

                true
            }
            _ => false,
        })
    }

    pub fn debug(&self, value: &V) -> R<String> {
        self.burn(1)?;

        Ok(match value {
            V::Num(number) => number.to_string(),
            V::Bool(boolean) => boolean.to_string(),
            V::None => "none".into(),
            V::Str(string) => format!("\"{}\"", String::from_utf8_lossy(string)),
            V::Rec(index, fields) => {
                let record = &self.program.records[*index];
                let fields = record
                    .fields
                    .iter()
                    .zip(fields.iter())
                    .map(|((name, _), value)| Ok(format!("{name}: {}", self.debug(value)?)))
                    .collect::<R<Vec<_>>>()?;
                format!("{}{{{}}}", record.name, fields.join(", "))
            }
            V::List(type_, seq) => {
                let mut values = vec![];
                let mut seq = seq.clone();

                while let Some((first, rest)) = seq.force(self)? {
                    values.push(self.debug(&first.force(self)?)?);
                    seq = rest;
                }

                let separator = if values.is_empty() { "" } else { " " };
                format!("[{}{separator}{}]", emit::type_text(&self.program, type_), values.join(", "))
            }
            V::Err(source) => format!("error({})", self.debug(source)?),
            V::Map(..) | V::Fn(_) => return Err(Flow::Skip("debug of a map or function")),
        })
    }

    /// What the generated functions of `emit` give for a value.
    pub fn show(&self, value: &V, type_: &T) -> R<String> {
        self.burn(1)?;

        Ok(match type_ {
            T::Any => {
                let type_ = self.type_of(value);

                if self.program.dispatch.contains(&type_) {
                    self.show(value, &type_)?
                } else {
                    "(?)".into()
                }
            }
            T::Union(_) => self.show(value, &self.type_of(value))?,
            T::Num | T::Bool | T::Str | T::None => digest(value),
            T::Rec(index) => {
                let V::Rec(_, values) = value else { return bug("show") };
                let record = &self.program.records[*index];
                let mut text = format!("(r{index}");

                for ((_, type_), value) in record.fields.iter().zip(values.iter()) {
                    text += " ";
                    text += &self.show(value, type_)?;
                }

                text + ")"
            }
            T::List(element) => {
                let V::List(_, seq) = value else { return bug("show") };
                let mut seq = seq.clone();
                let mut text = String::from("(l");

                while let Some((first, rest)) = seq.force(self)? {
                    text += " ";
                    text += &self.show(&first.force(self)?, element)?;
                    seq = rest;
                }

                text + ")"
            }
            T::Map(key_type, value_type) => {
                let V::Map(_, _, entries) = value else { return bug("show") };
                let strict = value_type.is_strict(&self.program.records);
                let mut items = vec![];

                for (key, value) in entries.iter() {
                    let value = if strict { self.show(value, value_type)? } else { "v".into() };
                    items.push(format!("({} {value})", self.show(key, key_type)?));
                }

                items.sort();
                let mut text = format!("(m {}", show_number(entries.len() as f64));

                for item in items {
                    text += " ";
                    text += &item;
                }

                text + ")"
            }
            T::Fn(arguments, result) => {
                if arguments.iter().all(T::is_simple) {
                    let arguments = arguments.iter().map(shown_argument).collect();
                    let value = self.call(value, arguments)?;
                    format!("(f {})", self.show(&value, result)?)
                } else {
                    "f".into()
                }
            }
            T::Err => {
                let V::Err(source) = value else { return bug("show") };
                format!("(e {})", self.show(source, &T::Any)?)
            }
        })
    }
}

/// What shown functions are called with.
pub fn shown_argument(type_: &T) -> V {
    match type_ {
        T::Num => V::Num(2.0),
        T::Bool => V::Bool(true),
        T::Str => V::Str(Rc::new(b"a".to_vec())),
        _ => V::None,
    }
}

pub fn lambda_type(lambda: &Lambda) -> T {
    T::Fn(lambda.arguments.iter().map(|(_, type_)| type_.clone()).collect(), Rc::new(lambda.result.clone()))
}

/// Sorts the entries of maps in a text that `show` or the generated functions made.
pub fn canonical(text: &str) -> String {
    fn parse(text: &mut &str) -> String {
        if let Some(rest) = text.strip_prefix('(') {
            *text = rest;
            let mut items = vec![];

            while !text.is_empty() && !text.starts_with(')') {
                items.push(parse(text));
                *text = text.trim_start_matches(' ');
            }

            *text = text.strip_prefix(')').unwrap_or(text);

            if items.first().is_some_and(|item| item == "m") && items.len() > 2 {
                items[2..].sort();
            }

            format!("({})", items.join(" "))
        } else {
            let end = text.find([' ', '(', ')']).unwrap_or(text.len()).max(1);
            let (item, rest) = text.split_at(end);
            *text = rest;
            item.into()
        }
    }

    let mut rest = text;
    parse(&mut rest) + rest
}

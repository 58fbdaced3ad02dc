//! Syntax trees of programs. Every node has a line of its own, so that positions tell nodes apart.

use super::*;
use position::Position;
use std::{cell::{Cell, RefCell}, collections::HashMap};

/// A record whose definition is left out, and an alias that refers to itself: mistakes.
pub const GONE: &str = "gone";
pub const LOOP: &str = "loop";

pub const PATH: &str = "Main.pen";

pub fn type_text(program: &Program, type_: &T) -> String {
    match type_ {
        T::Any => "any".into(),
        T::Bool => "boolean".into(),
        T::Err => "error".into(),
        T::Fn(arguments, result) => format!(
            "\\({}) {}",
            arguments.iter().map(|type_| type_text(program, type_)).collect::<Vec<_>>().join(", "),
            type_text(program, result)
        ),
        T::List(element) => format!("[{}]", type_text(program, element)),
        T::Map(key, value) => format!("{{{}: {}}}", type_text(program, key), type_text(program, value)),
        T::None => "none".into(),
        T::Num => "number".into(),
        T::Rec(index) => program.records[*index].name.to_string(),
        T::Str => "string".into(),
        T::Union(members) => {
            members.iter().map(|type_| type_text(program, type_)).collect::<Vec<_>>().join(" | ")
        }
    }
}

pub struct Emitter<'a> {
    program: &'a Program,
    line: Cell<usize>,
    types: Cell<usize>,
    /// Lines of the nodes of the mistake, and of the definition around it.
    pub mistake: Cell<Option<(usize, usize)>>,
    pub definition: Cell<Option<(usize, usize)>>,
}

pub fn probe_name(peek: bool, index: usize) -> String {
    format!("_pen_{}_{index}", if peek { "peek" } else { "probe" })
}

pub const SHOW_NUMBER: &str = "_pen_show_number";
pub const SHOW_STRING: &str = "_pen_show_string";

impl<'a> Emitter<'a> {
    pub fn new(program: &'a Program) -> Self {
        Self {
            program,
            line: Cell::new(1),
            types: Cell::new(0),
            mistake: Cell::new(None),
            definition: Cell::new(None),
        }
    }

    fn position(&self) -> Position {
        let line = self.line.get();
        self.line.set(line + 1);
        Position::new(PATH, line, 1, "")
    }

    pub fn type_(&self, type_: &T) -> ast::types::Type {
        let reference = |name: &str| ast::types::Reference::new(name, self.position()).into();

        // Under a name at every other place.
        let count = self.types.get();
        self.types.set(count + 1);

        if count % 2 == 0 {
            let names = self.program.aliases.iter().filter(|(_, other)| other == type_).collect::<Vec<_>>();

            if !names.is_empty() {
                return reference(&names[count / 2 % names.len()].0);
            }
        }

        self.plain_type(type_)
    }

    /// Not under a name of its own.
    pub fn plain_type(&self, type_: &T) -> ast::types::Type {
        let reference = |name: &str| ast::types::Reference::new(name, self.position()).into();

        match type_ {
            T::Any => reference("any"),
            T::Bool => reference("boolean"),
            T::Err => reference("error"),
            T::None => reference("none"),
            T::Num => reference("number"),
            T::Str => reference("string"),
            T::Rec(index) => reference(&self.program.records[*index].name),
            T::Fn(arguments, result) => ast::types::Function::new(
                arguments.iter().map(|type_| self.type_(type_)).collect(),
                self.type_(result),
                self.position(),
            )
            .into(),
            T::List(element) => ast::types::List::new(self.type_(element), self.position()).into(),
            T::Map(key, value) => ast::types::Map::new(self.type_(key), self.type_(value), self.position()).into(),
            T::Union(members) => {
                let count = self.types.get();
                let mut members = members.clone();
                // Members come in any order and may be repeated.
                let middle = count % members.len();
                members.rotate_left(middle);
                if count % 7 == 0 {
                    members.push(members[0].clone());
                }
                members
                    .iter()
                    .map(|type_| self.type_(type_))
                    .reduce(|lhs, rhs| ast::types::Union::new(lhs, rhs, self.position()).into())
                    .unwrap()
            }
        }
    }

    /// A type that is its own meaning.
    fn loop_type(&self) -> ast::types::Type {
        let own = ast::types::Reference::new(LOOP, self.position());

        match self.line.get() % 3 {
            0 => own.into(),
            1 => ast::types::List::new(own, self.position()).into(),
            _ => ast::types::Union::new(own, ast::types::Reference::new("none", self.position()), self.position())
                .into(),
        }
    }

    fn variable(&self, name: &str) -> ast::Expression {
        ast::Variable::new(name, self.position()).into()
    }

    fn block(&self, block: &Block) -> ast::Block {
        let position = self.position();
        let statements = block
            .statements
            .iter()
            .map(|(name, expression)| {
                let position = self.position();
                ast::Statement::new(
                    name.as_ref().map(|name| name.to_string()),
                    self.expression(expression),
                    position,
                )
            })
            .collect();

        ast::Block::new(statements, self.expression(&block.value), position)
    }

    fn lambda(&self, lambda: &Lambda) -> ast::Lambda {
        let position = self.position();

        ast::Lambda::new(
            lambda
                .arguments
                .iter()
                .map(|(name, type_)| {
                    let position = self.position();
                    ast::Argument::new(&**name, self.type_(type_), position)
                })
                .collect(),
            self.type_(&lambda.result),
            self.block(&lambda.body),
            position,
        )
    }

    fn expressions(&self, expressions: &[X]) -> Vec<ast::Expression> {
        expressions.iter().map(|expression| self.expression(expression)).collect()
    }

    pub fn expression(&self, expression: &E) -> ast::Expression {
        let position = self.position();

        match expression {
            E::Num(number) => {
                let text = if number.fract() == 0.0 && number.abs() < 1e15 && *number >= 0.0 && self.line.get() % 3 == 0 {
                    if self.line.get() % 2 == 0 {
                        ast::NumberRepresentation::Hexadecimal(format!("{:x}", *number as u64))
                    } else {
                        ast::NumberRepresentation::Binary(format!("{:b}", *number as u64))
                    }
                } else {
                    ast::NumberRepresentation::FloatingPoint(format!("{number}"))
                };
                ast::Number::new(text, position).into()
            }
            E::Bool(boolean) => ast::Variable::new(boolean.to_string(), position).into(),
            E::None => ast::Variable::new("none", position).into(),
            E::Str(bytes) => ast::ByteString::new(escape(bytes), position).into(),
            E::Var(name) => ast::Variable::new(&**name, position).into(),
            E::Binary(op, lhs, rhs) => {
                use ast::BinaryOperator::*;
                let operator = match op {
                    Op::Add => Add,
                    Op::Sub => Subtract,
                    Op::Mul => Multiply,
                    Op::Div => Divide,
                    Op::And => And,
                    Op::Or => Or,
                    Op::Eq => Equal,
                    Op::Ne => NotEqual,
                    Op::Lt => LessThan,
                    Op::Le => LessThanOrEqual,
                    Op::Gt => GreaterThan,
                    Op::Ge => GreaterThanOrEqual,
                };
                ast::BinaryOperation::new(operator, self.expression(lhs), self.expression(rhs), position).into()
            }
            E::Not(operand) => {
                ast::UnaryOperation::new(ast::UnaryOperator::Not, self.expression(operand), position).into()
            }
            E::Try(operand) => {
                ast::UnaryOperation::new(ast::UnaryOperator::Try, self.expression(operand), position).into()
            }
            E::Call(function, arguments) => {
                ast::Call::new(self.expression(function), self.expressions(arguments), position).into()
            }
            E::Probe(peek, number, type_, operand) => {
                let index = self.program.probes.iter().position(|other| *other == (*peek, type_.clone())).unwrap();
                ast::Call::new(
                    self.variable(&probe_name(*peek, index)),
                    vec![self.expression(&E::Num(*number as f64)), self.expression(operand)],
                    position,
                )
                .into()
            }
            E::BuiltIn(function, arguments) => {
                ast::Call::new(self.variable(function.name()), self.expressions(arguments), position).into()
            }
            E::If(branches, else_) => ast::If::new(
                branches
                    .iter()
                    .map(|(condition, block)| ast::IfBranch::new(self.expression(condition), self.block(block)))
                    .collect(),
                self.block(else_),
                position,
            )
            .into(),
            E::IfType(name, argument, branches, else_) => ast::IfType::new(
                &**name,
                self.expression(argument),
                branches
                    .iter()
                    .map(|(type_, block)| ast::IfTypeBranch::new(self.type_(type_), self.block(block)))
                    .collect(),
                else_.as_ref().map(|block| self.block(block)),
                position,
            )
            .into(),
            E::IfList(list, first, rest, then, else_) => ast::IfList::new(
                self.expression(list),
                &**first,
                &**rest,
                self.block(then),
                self.block(else_),
                position,
            )
            .into(),
            E::IfMap(name, map, key, then, else_) => ast::IfMap::new(
                &**name,
                self.expression(map),
                self.expression(key),
                self.block(then),
                self.block(else_),
                position,
            )
            .into(),
            E::Lambda(lambda) => self.lambda(lambda).into(),
            E::List(type_, elements) => ast::List::new(
                self.type_(type_),
                elements
                    .iter()
                    .map(|(spread, element)| {
                        let element = self.expression(element);
                        if *spread {
                            ast::ListElement::Multiple(element)
                        } else {
                            ast::ListElement::Single(element)
                        }
                    })
                    .collect(),
                position,
            )
            .into(),
            E::Comprehension(type_, element, branches) => ast::ListComprehension::new(
                self.type_(type_),
                self.expression(element),
                branches
                    .iter()
                    .map(|branch| {
                        let position = self.position();
                        ast::ListComprehensionBranch::new(
                            branch.names.iter().map(|name| name.to_string()).collect(),
                            self.expressions(&branch.iteratees),
                            branch.condition.as_ref().map(|condition| self.expression(condition)),
                            position,
                        )
                    })
                    .collect(),
                position,
            )
            .into(),
            E::Map(key, value, elements) => ast::Map::new(
                self.type_(key),
                self.type_(value),
                elements
                    .iter()
                    .map(|element| match element {
                        Entry::Single(key, value) => {
                            let position = self.position();
                            ast::MapElement::Single(ast::MapEntry::new(
                                self.expression(key),
                                self.expression(value),
                                position,
                            ))
                        }
                        Entry::Spread(map) => ast::MapElement::Multiple(self.expression(map)),
                    })
                    .collect(),
                position,
            )
            .into(),
            E::Record(index, old, fields) => {
                let record = &self.program.records[*index];
                self.record(
                    &record.name,
                    old,
                    fields.iter().map(|(field, value)| (&*record.fields[*field].0, value)),
                    position,
                )
            }
            E::RawRecord(name, old, fields) => {
                self.record(name, old, fields.iter().map(|(name, value)| (&**name, value)), position)
            }
            E::Field(operand, record, field) => ast::RecordDeconstruction::new(
                self.expression(operand),
                &*self.program.records[*record].fields[*field].0,
                position,
            )
            .into(),
            E::RawField(operand, name) => {
                ast::RecordDeconstruction::new(self.expression(operand), &**name, position).into()
            }
            E::Mark(operand) => {
                let start = self.line.get();
                let expression = self.expression(operand);
                self.mistake.set(Some((start, self.line.get())));
                expression
            }
        }
    }

    fn record<'b>(
        &self,
        name: &str,
        old: &Option<X>,
        fields: impl Iterator<Item = (&'b str, &'b X)>,
        position: Position,
    ) -> ast::Expression {
        ast::Record::new(
            name,
            old.as_ref().map(|old| self.expression(old)),
            fields
                .map(|(name, value)| {
                    let position = self.position();
                    ast::RecordField::new(name, self.expression(value), position)
                })
                .collect(),
            position,
        )
        .into()
    }

    pub fn function(&self, name: &str, lambda: &Lambda) -> ast::FunctionDefinition {
        let start = self.line.get();
        let position = self.position();
        let had = self.mistake.get();
        let definition = ast::FunctionDefinition::new(name, self.lambda(lambda), None, position);

        if self.mistake.get() != had {
            self.definition.set(Some((start, self.line.get())));
        }

        definition
    }

    pub fn module(&self, main: bool) -> ast::Module {
        let program = self.program;
        let function = |arguments: Vec<T>, result: T| self.plain_type(&T::Fn(arguments, Rc::new(result)));
        let import = |name: &str, type_: ast::types::Type| {
            ast::ForeignImport::new(name, ast::CallingConvention::Native, type_, self.position())
        };
        let mut imports = vec![
            import(SHOW_NUMBER, function(vec![T::Num], T::Str)),
            import(SHOW_STRING, function(vec![T::Str], T::Str)),
        ];

        for (index, (peek, type_)) in program.probes.iter().enumerate() {
            imports.push(import(&probe_name(*peek, index), function(vec![T::Num, type_.clone()], type_.clone())));
        }

        let mut types = program
            .records
            .iter()
            .filter(|record| &*record.name != GONE)
            .map(|record| {
                let position = self.position();
                ast::TypeDefinition::RecordDefinition(ast::RecordDefinition::new(
                    &*record.name,
                    record
                        .fields
                        .iter()
                        .map(|(name, type_)| {
                            let position = self.position();
                            ast::types::RecordField::new(&**name, self.type_(type_), position)
                        })
                        .collect(),
                    position,
                ))
            })
            .collect::<Vec<_>>();

        for (name, type_) in &program.aliases {
            let position = self.position();
            types.push(ast::TypeDefinition::TypeAlias(ast::TypeAlias::new(
                &**name,
                if &**name == LOOP { self.loop_type() } else { self.plain_type(type_) },
                position,
            )));
        }

        let mut functions = program
            .functions
            .iter()
            .map(|function| self.function(&function.name, &function.lambda))
            .collect::<Vec<_>>();

        if main {
            let shower = Shower { program, functions: Default::default(), names: Default::default() };
            let last = program.functions.last().unwrap();
            let value = shower.show(call(&last.name, vec![Rc::new(E::None)]), program.result.as_ref().unwrap());
            functions.push(self.function("Main", &lambda(vec![("_x", T::None)], T::Str, value)));

            for (name, lambda) in shower.functions.into_inner() {
                functions.push(self.function(&name, &lambda));
            }
        }

        ast::Module::new(vec![], imports, types, functions, self.position())
    }
}

fn var(name: &str) -> X {
    Rc::new(E::Var(name.into()))
}

fn call(name: &str, arguments: Vec<X>) -> X {
    Rc::new(E::Call(var(name), arguments))
}

fn text(text: &str) -> X {
    Rc::new(E::Str(text.as_bytes().to_vec()))
}

fn plus(parts: Vec<X>) -> X {
    parts.into_iter().reduce(|lhs, rhs| Rc::new(E::Binary(Op::Add, lhs, rhs))).unwrap()
}

fn block(value: X) -> Block {
    Block { statements: vec![], value }
}

fn lambda(arguments: Vec<(&str, T)>, result: T, value: X) -> Lambda {
    Lambda {
        arguments: arguments.into_iter().map(|(name, type_)| (name.into(), type_)).collect(),
        result,
        body: block(value),
    }
}

/// Functions that show values as strings.
struct Shower<'a> {
    program: &'a Program,
    functions: RefCell<Vec<(String, Lambda)>>,
    names: RefCell<HashMap<T, String>>,
}

impl Shower<'_> {
    fn show(&self, value: X, type_: &T) -> X {
        match type_ {
            T::Num => return call(SHOW_NUMBER, vec![value]),
            T::Str => return call(SHOW_STRING, vec![value]),
            _ => {}
        }

        if let Some(name) = self.names.borrow().get(type_) {
            return call(name, vec![value]);
        }

        let name = format!("_show_{}", self.names.borrow().len());
        self.names.borrow_mut().insert(type_.clone(), name.clone());

        let body = match type_ {
            T::Num | T::Str => unreachable!(),
            T::None => text("none"),
            T::Bool => Rc::new(E::If(vec![(var("_x"), block(text("true")))], block(text("false")))),
            T::Rec(index) => {
                let record = &self.program.records[*index];
                let mut parts = vec![text(&format!("(r{index}"))];
                for (field, (_, type_)) in record.fields.iter().enumerate() {
                    parts.push(text(" "));
                    parts.push(self.show(Rc::new(E::Field(var("_x"), *index, field)), type_));
                }
                parts.push(text(")"));
                plus(parts)
            }
            T::List(element) => {
                let items = format!("{name}_items");
                let item = plus(vec![
                    text(" "),
                    self.show(call("_y", vec![]), element),
                    call(&items, vec![var("_ys")]),
                ]);
                let body =
                    Rc::new(E::IfList(var("_x"), "_y".into(), "_ys".into(), block(item), block(text("")))) as X;
                self.functions.borrow_mut().push((items.clone(), lambda(vec![("_x", type_.clone())], T::Str, body)));
                plus(vec![text("(l"), call(&items, vec![var("_x")]), text(")")])
            }
            T::Map(key_type, value_type) => {
                let items = format!("{name}_items");
                let value = if value_type.is_strict(&self.program.records) {
                    Rc::new(E::IfMap(
                        "_v".into(),
                        var("_m"),
                        call("_y", vec![]),
                        block(self.show(var("_v"), value_type)),
                        block(text("missing")),
                    )) as X
                } else {
                    text("v")
                };
                let item = plus(vec![
                    text(" ("),
                    self.show(call("_y", vec![]), key_type),
                    text(" "),
                    value,
                    text(")"),
                    call(&items, vec![var("_m"), var("_ys")]),
                ]);
                let body =
                    Rc::new(E::IfList(var("_x"), "_y".into(), "_ys".into(), block(item), block(text("")))) as X;
                self.functions.borrow_mut().push((
                    items.clone(),
                    lambda(vec![("_m", type_.clone()), ("_x", T::List(key_type.clone()))], T::Str, body),
                ));
                plus(vec![
                    text("(m "),
                    call(SHOW_NUMBER, vec![Rc::new(E::BuiltIn(BuiltIn::Size, vec![var("_x")]))]),
                    call(&items, vec![var("_x"), Rc::new(E::BuiltIn(BuiltIn::Keys, vec![var("_x")]))]),
                    text(")"),
                ])
            }
            T::Fn(arguments, result) => {
                if arguments.iter().all(T::is_simple) {
                    let arguments = arguments
                        .iter()
                        .map(|type_| {
                            Rc::new(match type_ {
                                T::Num => E::Num(2.0),
                                T::Bool => E::Bool(true),
                                T::Str => E::Str(b"a".to_vec()),
                                _ => E::None,
                            })
                        })
                        .collect();
                    plus(vec![text("(f "), self.show(call("_x", arguments), result), text(")")])
                } else {
                    text("f")
                }
            }
            T::Err => plus(vec![
                text("(e "),
                self.show(Rc::new(E::BuiltIn(BuiltIn::Source, vec![var("_x")])), &T::Any),
                text(")"),
            ]),
            T::Any => self.dispatch(&self.program.dispatch, Some(text("(?)"))),
            T::Union(members) => self.dispatch(members, None),
        };

        self.functions.borrow_mut().push((name.clone(), lambda(vec![("_x", type_.clone())], T::Str, body)));
        call(&name, vec![value])
    }

    fn dispatch(&self, types: &[T], else_: Option<X>) -> X {
        let branches =
            types.iter().map(|type_| (type_.clone(), block(self.show(var("_x"), type_)))).collect::<Vec<_>>();
        Rc::new(E::IfType("_x".into(), var("_x"), branches, else_.map(block)))
    }
}

fn escape(bytes: &[u8]) -> String {
    let mut text = String::new();

    for (index, byte) in bytes.iter().enumerate() {
        match byte {
            b'"' => text += "\\\"",
            b'\\' => text += "\\\\",
            b'\n' if index % 2 == 0 => text += "\\n",
            b'\r' => text += "\\r",
            b'\t' if index % 2 == 0 => text += "\\t",
            32..=126 => text.push(*byte as char),
            byte => text += &format!("\\x{byte:02x}"),
        }
    }

    text
}

//! Generates well-typed programs, and, if asked to, programs with one mistake.

use super::{eval::lambda_type, *};
use pbt::Gen;

const NAMES: &[&str] = &["a", "b", "c", "x", "y", "xs", "f", "g0", "e"];
const FIELDS: &[&str] = &["a", "x", "size", "y", "foo"];

#[derive(Clone, Debug)]
struct Var {
    name: Name,
    type_: T,
    /// A thunk of an element, which may be called where nothing else that runs may be.
    thunk: bool,
}

#[derive(Clone, Default)]
struct Ctx {
    vars: Vec<Var>,
    /// Type of the result of the function, where an error may be passed on.
    result: Option<T>,
    pure_: bool,
    /// The function being defined, whose first argument counts down, and how many calls are left.
    recursive: Option<(Name, Vec<T>, T)>,
    /// Inside a list or comprehension, where the order of marks depends on demand.
    lazy: bool,
}

impl Ctx {
    fn with(&self, name: &Name, type_: T, thunk: bool) -> Self {
        let mut ctx = self.clone();
        ctx.vars.push(Var { name: name.clone(), type_, thunk });
        ctx
    }

    /// The variables that are not hidden by later ones.
    fn visible(&self) -> Vec<&Var> {
        let mut seen = vec![];
        let mut visible = vec![];

        for var in self.vars.iter().rev() {
            if !seen.contains(&&var.name) {
                seen.push(&var.name);
                visible.push(var);
            }
        }

        visible
    }

    fn sees(&self, name: &str) -> bool {
        !self.vars.iter().any(|var| &*var.name == name)
    }
}

pub struct Options {
    /// Number of nodes that programs have about.
    pub size: i32,
    pub probes: bool,
    pub mistake: Option<Mistake>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mistake {
    Type,
    UnknownVariable,
    UnknownField,
    MissingField,
    ExtraField,
    ArgumentCount,
    Condition,
    Operand,
    Callee,
    MissingElse,
    UnreachableElse,
    StrayTry,
    TryInList,
    UnusedError,
    Comparison,
    Uncomparable,
    BranchType,
    NotVariant,
    NotList,
    NotMap,
    NotCollection,
    BareBuiltIn,
    SpawnArguments,
    BuiltInCount,
    DuplicateFunction,
    DuplicateType,
    UnknownType,
    RecursiveAlias,
    ImpossibleRecord,
    BodyType,
    Iteratees,
}

pub const MISTAKES: &[Mistake] = &[
    Mistake::Type,
    Mistake::UnknownVariable,
    Mistake::UnknownField,
    Mistake::MissingField,
    Mistake::ExtraField,
    Mistake::ArgumentCount,
    Mistake::Condition,
    Mistake::Operand,
    Mistake::Callee,
    Mistake::MissingElse,
    Mistake::UnreachableElse,
    Mistake::StrayTry,
    Mistake::TryInList,
    Mistake::UnusedError,
    Mistake::Comparison,
    Mistake::Uncomparable,
    Mistake::BranchType,
    Mistake::NotVariant,
    Mistake::NotList,
    Mistake::NotMap,
    Mistake::NotCollection,
    Mistake::BareBuiltIn,
    Mistake::SpawnArguments,
    Mistake::BuiltInCount,
    Mistake::DuplicateFunction,
    Mistake::DuplicateType,
    Mistake::UnknownType,
    Mistake::RecursiveAlias,
    Mistake::ImpossibleRecord,
    Mistake::BodyType,
    Mistake::Iteratees,
];

pub struct Generator<'a> {
    g: &'a mut Gen,
    pub program: Program,
    pool: Vec<T>,
    budget: i32,
    marks: u32,
    options: Options,
    /// Places where the mistake could go that are left before it goes there.
    places: u32,
    pub made: bool,
}

type P = (X, T);

fn x(expression: E) -> X {
    Rc::new(expression)
}

fn name(text: &str) -> Name {
    text.into()
}

fn block(value: X) -> Block {
    Block { statements: vec![], value }
}

impl<'a> Generator<'a> {
    pub fn new(g: &'a mut Gen, options: Options) -> Self {
        let places = if options.mistake.is_some() { *g.pick(&[0u32, 0, 0, 1, 2, 4, 8]) } else { 0 };
        Self {
            g,
            program: Program::default(),
            pool: vec![],
            budget: 0,
            marks: 0,
            options,
            places,
            made: false,
        }
    }

    /// Whether the mistake goes here.
    fn mistake(&mut self, mistake: Mistake) -> bool {
        if self.made || self.options.mistake != Some(mistake) {
            return false;
        }

        if self.places > 0 {
            self.places -= 1;
            return false;
        }

        self.made = true;
        true
    }

    // Types

    fn key_type(&mut self, depth: u32) -> T {
        match self.g.below(if depth > 0 { 8 } else { 4 }) {
            0 => T::Str,
            1 => T::Num,
            2 => T::Bool,
            3 => T::None,
            4 | 5 => {
                let count = 2 + self.g.usize(2);
                T::union((0..count).map(|_| self.key_type(depth - 1)).collect::<Vec<_>>())
            }
            _ => {
                let records = (0..self.program.records.len())
                    .filter(|index| T::Rec(*index).is_strict(&self.program.records))
                    .collect::<Vec<_>>();
                if records.is_empty() {
                    T::Str
                } else {
                    T::Rec(*self.g.pick(&records))
                }
            }
        }
    }

    fn random_type(&mut self, depth: u32) -> T {
        let weights: &[u64] =
            if depth == 0 { &[6, 3, 2, 3, 2, 0, 0, 0, 0, 1, 1] } else { &[6, 3, 2, 3, 5, 4, 3, 3, 5, 2, 2] };

        match self.g.weighted(weights) {
            0 => T::Num,
            1 => T::Bool,
            2 => T::None,
            3 => T::Str,
            4 => {
                if self.program.records.is_empty() {
                    T::Num
                } else {
                    T::Rec(self.g.usize(self.program.records.len()))
                }
            }
            5 => T::List(Rc::new(self.random_type(depth - 1))),
            6 => T::Map(Rc::new(self.key_type(1)), Rc::new(self.random_type(depth - 1))),
            7 => {
                let count = self.g.usize(3);
                let arguments = (0..count).map(|_| self.random_type(depth - 1)).collect();
                T::Fn(arguments, Rc::new(self.random_type(depth - 1)))
            }
            8 => {
                let count = 2 + self.g.usize(3);
                T::union((0..count).map(|_| self.random_type(depth - 1)).collect::<Vec<_>>())
            }
            9 => T::Err,
            _ => T::Any,
        }
    }

    fn type_(&mut self) -> T {
        if self.g.chance(3, 4) {
            let index = self.g.usize(self.pool.len());
            self.pool[index].clone()
        } else {
            self.random_type(1)
        }
    }

    fn types(&mut self) {
        let count = self.g.usize(4);

        for index in 0..count {
            let fields = self.g.usize(4);
            let mut names = vec![];
            let mut list = vec![];

            for _ in 0..fields {
                let field = *self.g.pick(FIELDS);
                if names.contains(&field) {
                    continue;
                }
                names.push(field);
                let type_ = if self.g.chance(1, 6) {
                    // Records that contain themselves.
                    T::union([T::Rec(index), if self.g.bool() { T::None } else { T::Num }])
                } else if self.g.chance(1, 10) {
                    T::List(Rc::new(T::Rec(index)))
                } else {
                    self.random_type(2)
                };
                list.push((name(field), type_));
            }

            let text = ["r", "foo", "x", "point", "a"][index % 5];
            self.program.records.push(Record { name: name(text), fields: list });
        }

        let count = 4 + self.g.usize(5);
        for _ in 0..count {
            let type_ = self.random_type(2);
            self.pool.push(type_);
        }

        self.pool.push(T::Num);
        self.pool.push(T::List(Rc::new(T::Num)));
        self.pool.push(T::union([T::Num, T::None]));
        self.pool.push(T::union([T::Str, T::Err]));

        let count = self.g.usize(4);
        for index in 0..count {
            let type_ = self.pool[self.g.usize(self.pool.len())].clone();
            let text = ["t", "b", "y", "number1"][index];
            self.program.aliases.push((name(text), type_));
        }

        let mut dispatch = vec![T::Num, T::Bool, T::None, T::Str];
        for type_ in self.pool.clone() {
            for member in type_.members() {
                if member != T::Any && dispatch.len() < 10 && !dispatch.contains(&member) {
                    dispatch.push(member);
                }
            }
        }
        self.program.dispatch = dispatch;
    }

    // Programs

    pub fn program(mut self) -> (Program, bool) {
        self.types();
        let count = 1 + self.g.usize(4);
        let share = self.options.size / (count as i32 + 1);

        for index in 0..count {
            self.budget = share;
            self.function(index);
        }

        self.budget = share.max(20);
        let mut result = if self.g.chance(1, 3) { T::union([self.type_(), self.type_()]) } else { self.type_() };
        let lambda = if self.g.chance(3, 4) {
            let used = self.g.usize(count);
            if self.g.bool() {
                result = T::union([self.program.functions[used].lambda.result.clone(), self.type_()]);
            }
            self.calls(&result)
        } else {
            self.plain(vec![(name("start"), T::None)], result.clone(), false, None)
        };
        self.program.functions.push(Function { name: name("go_"), lambda, pure_: false, counted: false });
        self.program.result = Some(result);
        self.whole_mistakes();

        (self.program, self.made)
    }

    /// A function that calls the others.
    fn calls(&mut self, result: &T) -> Rc<Lambda> {
        let arguments = vec![(name("start"), T::None)];
        let mut ctx = Ctx {
            vars: vec![Var { name: name("start"), type_: T::None, thunk: false }],
            result: Some(result.clone()),
            ..Default::default()
        };
        let mut statements = vec![];

        for index in 0..self.program.functions.len() {
            for _ in 0..self.g.weighted(&[1, 3, 1]) {
                let function = self.program.functions[index].clone();
                let mut values = vec![];

                for (argument, (_, type_)) in function.lambda.arguments.iter().enumerate() {
                    self.budget = self.budget.max(8);
                    values.push(if function.counted && argument == 0 {
                        x(E::Num(self.g.below(5) as f64))
                    } else {
                        self.produce(type_, &ctx, 3).0
                    });
                }

                let call = x(E::Call(x(E::Var(function.name.clone())), values));
                let text = name(["first", "second", "third", "fourth"][self.g.usize(4)]);
                ctx = ctx.with(&text, function.lambda.result.clone(), false);
                statements.push((Some(text), call));
            }
        }

        self.budget = self.budget.max(12);
        let mut body = self.block(result, &ctx, 5);
        statements.append(&mut body.statements);
        Rc::new(Lambda { arguments, result: result.clone(), body: Block { statements, value: body.value } })
    }

    fn whole_mistakes(&mut self) {
        self.places = 0;
        let last = self.program.functions.len() - 1;

        if self.mistake(Mistake::DuplicateFunction) {
            let index = self.g.usize(last.max(1));
            let function = self.program.functions[index].clone();
            self.program.functions.insert(0, function);
        } else if self.mistake(Mistake::DuplicateType) {
            let text = match self.program.records.first() {
                Some(record) if self.g.bool() => record.name.clone(),
                _ => {
                    self.program.aliases.push((name("twice"), T::Num));
                    name("twice")
                }
            };
            self.program.aliases.push((text, T::Num));
        } else if self.mistake(Mistake::UnknownType) {
            self.program.records.push(Record { name: name("gone"), fields: vec![] });
            let index = self.program.records.len() - 1;
            let type_ = match self.g.below(4) {
                0 => T::Rec(index),
                1 => T::List(Rc::new(T::Rec(index))),
                2 => T::union([T::Rec(index), T::None]),
                _ => T::Fn(vec![T::Rec(index)], Rc::new(T::None)),
            };
            // `hide` takes the definition away.
            self.program.aliases.push((name("hide"), type_));
        } else if self.mistake(Mistake::ImpossibleRecord) {
            let index = self.program.records.len();
            let type_ = if self.g.bool() {
                self.program.records.push(Record { name: name("self1"), fields: vec![(name("next"), T::Rec(index))] });
                T::Rec(index)
            } else {
                self.program.records.push(Record {
                    name: name("self1"),
                    fields: vec![(name("a"), T::Num), (name("next"), T::Rec(index + 1))],
                });
                self.program.records.push(Record {
                    name: name("self2"),
                    fields: vec![(name("next"), T::union([T::Rec(index), T::Rec(index + 1)]))],
                });
                T::Rec(index)
            };
            let _ = type_;
        } else if self.mistake(Mistake::RecursiveAlias) {
            // `loop` is emitted as its own meaning.
            self.program.aliases.push((name("loop"), T::None));
        } else if self.mistake(Mistake::BodyType) {
            let function = &self.program.functions[last];
            let wrong = self.wrong_leaf(&function.lambda.result.clone());
            if let Some(wrong) = wrong {
                let mut lambda = (*self.program.functions[last].lambda).clone();
                lambda.body.value = x(E::Mark(wrong));
                self.program.functions[last].lambda = Rc::new(lambda);
            } else {
                self.made = false;
            }
        }
    }

    fn plain(
        &mut self,
        arguments: Vec<(Name, T)>,
        result: T,
        pure_: bool,
        recursive: Option<(Name, Vec<T>, T)>,
    ) -> Rc<Lambda> {
        let ctx = Ctx {
            vars: arguments
                .iter()
                .map(|(name, type_)| Var { name: name.clone(), type_: type_.clone(), thunk: false })
                .collect(),
            result: Some(result.clone()),
            pure_,
            recursive,
            lazy: false,
        };
        let body = self.block(&result, &ctx, 5);
        Rc::new(Lambda { arguments, result, body })
    }

    fn arguments(&mut self, count: usize, function: &str) -> Vec<(Name, T)> {
        let mut names = NAMES.to_vec();
        names.retain(|name| *name != function);
        (0..count)
            .map(|_| {
                let index = self.g.usize(names.len());
                (name(names.remove(index)), self.type_())
            })
            .collect()
    }

    fn function(&mut self, index: usize) {
        let text = name(["f", "g", "h0", "loop_", "y"][index % 5]);
        let pure_ = self.g.chance(1, 3);

        match self.g.weighted(&[6, 3, 3]) {
            0 => {
                let count = self.g.usize(4);
                let arguments = self.arguments(count, "");
                let result = self.type_();
                let pure_ = pure_ || arguments.is_empty();
                let lambda = self.plain(arguments, result, pure_, None);
                self.program.functions.push(Function { name: text, lambda, pure_, counted: false });
            }
            1 => {
                // Counts down.
                let count = self.g.usize(3);
                let mut arguments = vec![(name("n"), T::Num)];
                arguments.extend(self.arguments(count, &text));
                let result = self.type_();
                let types = arguments.iter().map(|(_, type_)| type_.clone()).collect::<Vec<_>>();
                let ctx = Ctx {
                    vars: arguments
                        .iter()
                        .map(|(name, type_)| Var { name: name.clone(), type_: type_.clone(), thunk: false })
                        .collect(),
                    result: Some(result.clone()),
                    pure_,
                    recursive: None,
                    lazy: false,
                };
                let end = self.block(&result, &ctx, 3);
                let mut again = ctx;
                again.recursive = Some((text.clone(), types, result.clone()));
                let next = if self.g.bool() {
                    block(self.recursive_call(&again).unwrap())
                } else {
                    self.block(&result, &again, 4)
                };
                let condition = x(E::Binary(Op::Lt, x(E::Var(name("n"))), x(E::Num(1.0))));
                let body = if self.g.bool() {
                    E::If(vec![(condition, end)], next)
                } else {
                    E::If(vec![(x(E::Not(condition)), next)], end)
                };
                self.program.functions.push(Function {
                    name: text,
                    lambda: Rc::new(Lambda { arguments, result, body: block(x(body)) }),
                    pure_,
                    counted: true,
                });
            }
            _ => {
                // Goes through a list.
                let element = self.type_();
                let list = T::List(Rc::new(element.clone()));
                let count = self.g.usize(2);
                let mut arguments = vec![(name("list"), list.clone())];
                arguments.extend(self.arguments(count, &text));
                let result = self.type_();
                let mut ctx = Ctx {
                    vars: arguments
                        .iter()
                        .map(|(name, type_)| Var { name: name.clone(), type_: type_.clone(), thunk: false })
                        .collect(),
                    result: Some(result.clone()),
                    pure_,
                    recursive: None,
                    lazy: false,
                };
                let end = self.block(&result, &ctx, 3);
                ctx = ctx.with(&name("first"), T::Fn(vec![], Rc::new(element)), true);
                ctx = ctx.with(&name("rest"), list, false);
                let mut call = vec![x(E::Var(name("rest")))];
                for (_, type_) in &arguments[1..] {
                    let (argument, _) = self.produce(type_, &ctx, 3);
                    call.push(argument);
                }
                let call = x(E::Call(x(E::Var(text.clone())), call));
                let then = if self.g.bool() {
                    block(call)
                } else {
                    // The rest first or later.
                    let inner = ctx.with(&name("later"), result.clone(), false);
                    let value = self.produce(&result, &inner, 3).0;
                    Block { statements: vec![(Some(name("later")), call)], value }
                };
                let body = E::IfList(x(E::Var(name("list"))), name("first"), name("rest"), then, end);
                self.program.functions.push(Function {
                    name: text,
                    lambda: Rc::new(Lambda { arguments, result, body: block(x(body)) }),
                    pure_,
                    counted: false,
                });
            }
        }
    }

    // Expressions

    fn fresh(&mut self) -> Name {
        name(*self.g.pick(NAMES))
    }

    /// Statements and a value.
    fn block(&mut self, want: &T, ctx: &Ctx, depth: u32) -> Block {
        let mut ctx = ctx.clone();
        let mut statements = vec![];
        let count = if self.budget > 0 { self.g.weighted(&[4, 3, 2, 1]) } else { 0 };

        for _ in 0..count {
            if self.budget <= 0 {
                break;
            }

            let type_ = self.type_();

            if self.mistake(Mistake::UnusedError) {
                let error = x(E::BuiltIn(BuiltIn::Error, vec![x(E::Num(1.0))]));
                statements.push((None, x(E::Mark(error))));
            }

            let (value, natural) = self.produce_free(&type_, &ctx, depth.saturating_sub(1));

            if self.g.chance(1, 5) && (natural == T::Any || !T::Err.le(&natural)) {
                statements.push((None, value));
            } else {
                let name = self.fresh();
                ctx = ctx.with(&name, natural, false);
                statements.push((Some(name), value));
            }
        }

        let (value, _) = self.produce(want, &ctx, depth);
        Block { statements, value }
    }

    /// Like a block, with the type that it has by itself.
    fn typed_block(&mut self, want: &T, ctx: &Ctx, depth: u32) -> (Block, T) {
        let mut ctx = ctx.clone();
        let mut statements = vec![];

        if self.budget > 0 && self.g.chance(1, 3) {
            let type_ = self.type_();
            let (value, natural) = self.produce_free(&type_, &ctx, depth.saturating_sub(1));
            let name = self.fresh();
            ctx = ctx.with(&name, natural, false);
            statements.push((Some(name), value));
        }

        let (value, natural) = self.produce_here(want, &ctx, depth);
        (Block { statements, value }, natural)
    }

    /// An expression where nothing is expected of its type.
    fn produce_free(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        self.produce_here(want, ctx, depth)
    }

    /// An expression where the type is expected: the place of mistakes of types.
    fn produce(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        if self.mistake(Mistake::Type) {
            if let Some(wrong) = self.wrong_leaf(want) {
                return (x(E::Mark(wrong)), want.clone());
            }
            self.made = false;
        }

        self.produce_here(want, ctx, depth)
    }

    fn wrong_leaf(&mut self, want: &T) -> Option<X> {
        let mut types = vec![T::Num, T::Str, T::Bool, T::None, T::List(Rc::new(T::None)), T::Fn(vec![T::None], Rc::new(T::Num))];
        types.extend(self.pool.iter().flat_map(|type_| type_.members()));
        types.retain(|type_| *type_ != T::Any && !type_.le(want));

        if types.is_empty() {
            return None;
        }

        let type_ = self.g.pick(&types).clone();
        Some(self.leaf(&type_, 0))
    }

    fn literal(&mut self, type_: &T) -> X {
        x(match type_ {
            T::Num => E::Num(match self.g.below(8) {
                0 | 1 => self.g.below(4) as f64,
                2 => self.g.below(1000) as f64,
                3 => -(self.g.below(4) as f64) - 1.0,
                4 => self.g.below(1000) as f64 / 8.0,
                5 => 0.1,
                6 => 1e21,
                _ => *self.g.pick(&[9007199254740993.0, 1.5e-7, 123456.789, 0.30000000000000004, 4294967296.0]),
            }),
            T::Bool => E::Bool(self.g.bool()),
            T::Str => E::Str(match self.g.below(6) {
                0 => vec![],
                1 => b"a".to_vec(),
                2 => b"b c".to_vec(),
                3 => self.g.pick(&[&b"\\n"[..], b"\"", b"\\x41", b"\n\t\r", b"\\\\", b"\xff\xc3\xa9", b"\\\"n"]).to_vec(),
                4 => {
                    let alphabet = b"ntrx\\\"\n\t01afAF\x00\x80\xff {}";
                    let count = self.g.usize(6);
                    (0..count).map(|_| *self.g.pick(alphabet)).collect()
                }
                _ => vec![b'a' + self.g.below(4) as u8],
            }),
            _ => E::None,
        })
    }

    /// A smallest expression of a type.
    fn leaf(&mut self, type_: &T, depth: u32) -> X {
        match type_ {
            T::Any => x(E::None),
            T::Num | T::Bool | T::Str | T::None => self.literal(type_),
            T::Err => x(E::BuiltIn(BuiltIn::Error, vec![x(E::Num(0.0))])),
            T::Fn(arguments, result) => {
                let body = block(self.leaf(result, depth + 1));
                let arguments = arguments
                    .iter()
                    .enumerate()
                    .map(|(index, type_)| (name(&format!("a{index}")), type_.clone()))
                    .collect();
                x(E::Lambda(Rc::new(Lambda { arguments, result: (**result).clone(), body })))
            }
            T::List(element) => x(E::List((**element).clone(), vec![])),
            T::Map(key, value) => x(E::Map((**key).clone(), (**value).clone(), vec![])),
            T::Rec(index) => {
                let fields = self.program.records[*index].fields.clone();
                let fields = fields
                    .iter()
                    .enumerate()
                    .map(|(field, (_, type_))| (field, self.leaf(type_, depth + 1)))
                    .collect();
                x(E::Record(*index, None, fields))
            }
            T::Union(members) => {
                // Not a record that contains itself.
                let mut simple = members
                    .iter()
                    .filter(|type_| !matches!(type_, T::Rec(_)))
                    .cloned()
                    .collect::<Vec<_>>();
                if simple.is_empty() {
                    let lowest = members
                        .iter()
                        .min_by_key(|type_| match type_ {
                            T::Rec(index) => *index,
                            _ => 0,
                        })
                        .unwrap();
                    simple.push(lowest.clone());
                }
                let type_ = self.g.pick(&simple).clone();
                self.leaf(&type_, depth)
            }
        }
    }

    fn place(&mut self, ctx: &Ctx, want: &T) -> Option<P> {
        let options = ctx
            .visible()
            .into_iter()
            .filter(|var| var.type_.le(want))
            .map(|var| (var.name.clone(), var.type_.clone()))
            .collect::<Vec<_>>();

        if options.is_empty() {
            None
        } else {
            let (name, type_) = self.g.pick(&options).clone();
            Some((x(E::Var(name)), type_))
        }
    }

    fn recursive_call(&mut self, ctx: &Ctx) -> Option<X> {
        let (text, types, _) = ctx.recursive.clone()?;

        if !ctx.sees(&text) || ctx.vars.iter().filter(|var| &*var.name == "n").count() != 1 {
            return None;
        }

        let mut inner = ctx.clone();
        inner.recursive = None;
        let mut arguments = vec![x(E::Binary(Op::Sub, x(E::Var(name("n"))), x(E::Num(1.0))))];
        for type_ in &types[1..] {
            arguments.push(self.produce(type_, &inner, 2).0);
        }
        Some(x(E::Call(x(E::Var(text)), arguments)))
    }

    fn produce_here(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        self.budget -= 1;

        if self.mistake(Mistake::UnknownVariable) {
            return (x(E::Mark(x(E::Var(name("unknown"))))), want.clone());
        }

        if self.mistake(Mistake::BareBuiltIn) {
            return (x(E::Mark(x(E::Var(name("size"))))), want.clone());
        }

        if depth == 0 || self.budget <= 0 {
            return self.small(want, ctx);
        }

        if ctx.recursive.as_ref().is_some_and(|(_, _, result)| result.le(want)) && self.g.chance(1, 3) {
            if let Some(call) = self.recursive_call(ctx) {
                let type_ = ctx.recursive.as_ref().unwrap().2.clone();
                return (call, type_);
            }
        }

        // Once used, not again, as calls multiply.
        let mut inner = ctx.clone();
        if ctx.recursive.is_some() && self.g.chance(1, 2) {
            inner.recursive = None;
        }
        let ctx = &inner;

        let choice = self.g.weighted(&[5, 10, 4, 3, 3, 2, 4, 3, 2, 3, 2, 2]);

        match choice {
            0 => self.small(want, ctx),
            1 => self.by_type(want, ctx, depth),
            2 => self.if_(want, ctx, depth),
            3 => self.if_type(want, ctx, depth),
            4 => self.if_list(want, ctx, depth),
            5 => self.if_map(want, ctx, depth),
            6 => self.call(want, ctx, depth),
            7 => self.field(want, ctx, depth),
            8 => self.try_(want, ctx, depth),
            9 => self.probe(want, ctx, depth),
            10 => self.immediate(want, ctx, depth),
            _ => self.go(want, ctx, depth),
        }
    }

    fn small(&mut self, want: &T, ctx: &Ctx) -> P {
        if self.g.chance(3, 4) {
            if let Some(place) = self.place(ctx, want) {
                return place;
            }
        }

        match want {
            T::Any => {
                let index = self.g.usize(self.pool.len());
                let type_ = self.pool[index].clone();
                if type_ == T::Any {
                    return (x(E::None), T::None);
                }
                self.small(&type_, ctx)
            }
            T::Union(members) => {
                let expression = self.leaf(want, 0);
                let type_ = self.leaf_type(&expression);
                debug_assert!(members.contains(&type_));
                (expression, type_)
            }
            _ => (self.leaf(want, 0), want.clone()),
        }
    }

    fn leaf_type(&self, expression: &E) -> T {
        match expression {
            E::Num(_) => T::Num,
            E::Bool(_) => T::Bool,
            E::Str(_) => T::Str,
            E::None => T::None,
            E::BuiltIn(..) => T::Err,
            E::Lambda(lambda) => lambda_type(lambda),
            E::List(type_, _) => T::List(Rc::new(type_.clone())),
            E::Map(key, value, _) => T::Map(Rc::new(key.clone()), Rc::new(value.clone())),
            E::Record(index, _, _) => T::Rec(*index),
            _ => unreachable!("HARNESS: leaf"),
        }
    }

    fn by_type(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        match want {
            T::Any => {
                let type_ = self.type_();
                if type_ == T::Any {
                    self.small(want, ctx)
                } else {
                    self.produce_here(&type_, ctx, depth - 1)
                }
            }
            T::Union(members) => {
                // Some of the members.
                let mut some = members.clone();
                if self.g.chance(3, 4) {
                    let type_ = self.g.pick(members).clone();
                    some = vec![type_];
                } else {
                    let index = self.g.usize(some.len());
                    some.remove(index);
                }
                self.produce_here(&T::union(some), ctx, depth - 1)
            }
            T::Num => (self.number(ctx, depth), T::Num),
            T::Bool => (self.boolean(ctx, depth), T::Bool),
            T::Str => {
                if self.mistake(Mistake::Operand) {
                    let lhs = self.literal(&T::Str);
                    return (x(E::Mark(x(E::Binary(Op::Add, lhs, x(E::Num(1.0)))))), T::Str);
                }
                let lhs = self.produce(&T::Str, ctx, depth - 1).0;
                let rhs = self.produce(&T::Str, ctx, depth - 1).0;
                (x(E::Binary(Op::Add, lhs, rhs)), T::Str)
            }
            T::None => {
                if !ctx.pure_ && self.options.probes && self.g.chance(1, 2) {
                    if let Some(type_) = self.debug_type() {
                        let value = self.produce_here(&type_, ctx, depth - 1).0;
                        return (x(E::BuiltIn(BuiltIn::Debug, vec![value])), T::None);
                    }
                }
                (x(E::None), T::None)
            }
            T::Err => {
                let value = self.produce(&T::Any, ctx, depth - 1).0;
                (x(E::BuiltIn(BuiltIn::Error, vec![value])), T::Err)
            }
            T::Rec(index) => (self.record(*index, ctx, depth), want.clone()),
            T::List(element) => (self.list(element, ctx, depth), want.clone()),
            T::Map(key, value) => (self.map(key, value, ctx, depth), want.clone()),
            T::Fn(arguments, result) => {
                let mut names = NAMES.to_vec();
                let arguments = arguments
                    .iter()
                    .map(|type_| {
                        let index = self.g.usize(names.len());
                        (name(names.remove(index)), type_.clone())
                    })
                    .collect::<Vec<_>>();
                let lambda = self.lambda(arguments, result, ctx, depth - 1);
                (x(E::Lambda(Rc::new(lambda))), want.clone())
            }
        }
    }

    fn lambda(&mut self, arguments: Vec<(Name, T)>, result: &T, ctx: &Ctx, depth: u32) -> Lambda {
        let mut inner = ctx.clone();
        inner.recursive = None;
        inner.result = Some(result.clone());
        for (name, type_) in &arguments {
            inner = inner.with(name, type_.clone(), false);
        }
        let body = self.block(result, &inner, depth);
        Lambda { arguments, result: result.clone(), body }
    }

    /// A type whose values print the same everywhere.
    fn debug_type(&mut self) -> Option<T> {
        let records = self.program.records.clone();
        let options = self
            .pool
            .iter()
            .filter(|type_| {
                !type_.any_part(&records, &mut |type_| {
                    matches!(type_, T::Any | T::Fn(_, _) | T::Map(_, _) | T::Err)
                        || matches!(type_, T::List(element) if element.is_variant())
                })
            })
            .cloned()
            .collect::<Vec<_>>();
        Some(self.g.pick(&options).clone())
    }

    fn number(&mut self, ctx: &Ctx, depth: u32) -> X {
        if self.mistake(Mistake::Operand) {
            let wrong = self.wrong_leaf(&T::Num).unwrap();
            let op = *self.g.pick(&[Op::Sub, Op::Mul, Op::Div]);
            let (lhs, rhs) = if self.g.bool() { (wrong, x(E::Num(1.0))) } else { (x(E::Num(1.0)), wrong) };
            return x(E::Mark(x(E::Binary(op, lhs, rhs))));
        }

        if self.mistake(Mistake::NotCollection) {
            return x(E::Mark(x(E::BuiltIn(BuiltIn::Size, vec![x(E::Num(1.0))]))));
        }

        if self.mistake(Mistake::BuiltInCount) {
            let list = x(E::List(T::Num, vec![]));
            let function = *self.g.pick(&[BuiltIn::Size, BuiltIn::Error, BuiltIn::Debug]);
            let arguments = if self.g.bool() { vec![] } else { vec![list.clone(), list] };
            return x(E::Mark(x(E::BuiltIn(function, arguments))));
        }

        match self.g.weighted(&[6, 3, 2]) {
            0 => {
                let op = *self.g.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div]);
                let lhs = self.produce(&T::Num, ctx, depth - 1).0;
                let rhs = self.produce(&T::Num, ctx, depth - 1).0;
                x(E::Binary(op, lhs, rhs))
            }
            1 => {
                let type_ = self.collection(ctx);
                // A list or map, whatever of.
                let (value, _) = self.produce_here(&type_, ctx, depth - 1);
                x(E::BuiltIn(BuiltIn::Size, vec![value]))
            }
            _ => {
                // The number of keys and values.
                let key = self.key_type(1);
                let value = self.type_();
                let type_ = T::Map(Rc::new(key), Rc::new(value));
                let (map, _) = self.produce_here(&type_, ctx, depth - 1);
                // Nothing that runs where maps are gone through on demand.
                let text = self.fresh();
                let function = if self.g.bool() { BuiltIn::Keys } else { BuiltIn::Values };
                let inner = x(E::BuiltIn(function, vec![x(E::Var(text.clone()))]));
                let size = x(E::BuiltIn(BuiltIn::Size, vec![inner]));
                let lambda = Lambda { arguments: vec![(text, type_)], result: T::Num, body: block(size) };
                x(E::Call(x(E::Lambda(Rc::new(lambda))), vec![map]))
            }
        }
    }

    /// A list or map type, rather one that variables have.
    fn collection(&mut self, ctx: &Ctx) -> T {
        let options = ctx
            .visible()
            .into_iter()
            .map(|var| var.type_.clone())
            .filter(|type_| matches!(type_, T::List(_) | T::Map(_, _)))
            .collect::<Vec<_>>();

        if !options.is_empty() && self.g.chance(1, 2) {
            return self.g.pick(&options).clone();
        }

        let options = self
            .pool
            .iter()
            .filter(|type_| matches!(type_, T::List(_) | T::Map(_, _)))
            .cloned()
            .collect::<Vec<_>>();
        self.g.pick(&options).clone()
    }

    fn boolean(&mut self, ctx: &Ctx, depth: u32) -> X {
        if self.mistake(Mistake::Operand) {
            let wrong = self.wrong_leaf(&T::Bool).unwrap();
            return x(E::Mark(if self.g.bool() {
                x(E::Not(wrong))
            } else {
                x(E::Binary(*self.g.pick(&[Op::And, Op::Or]), x(E::Bool(true)), wrong))
            }));
        }

        if self.mistake(Mistake::Comparison) {
            let wrong = self.wrong_leaf(&T::Num).unwrap();
            let op = *self.g.pick(&[Op::Lt, Op::Ge, Op::Eq, Op::Ne]);
            return x(E::Mark(x(E::Binary(op, x(E::Num(1.0)), wrong))));
        }

        if self.mistake(Mistake::Uncomparable) {
            let type_ = match self.g.below(4) {
                0 => T::Fn(vec![], Rc::new(T::Num)),
                1 => T::Err,
                2 => T::List(Rc::new(T::Any)),
                _ => T::Map(Rc::new(T::Num), Rc::new(T::Fn(vec![], Rc::new(T::None)))),
            };
            let lhs = self.leaf(&type_, 0);
            let rhs = self.leaf(&type_, 0);
            let op = *self.g.pick(&[Op::Eq, Op::Ne]);
            return x(E::Mark(x(E::Binary(op, lhs, rhs))));
        }

        match self.g.weighted(&[3, 3, 2, 5]) {
            0 => {
                let op = *self.g.pick(&[Op::And, Op::Or]);
                let lhs = self.produce(&T::Bool, ctx, depth - 1).0;
                let rhs = self.produce(&T::Bool, ctx, depth - 1).0;
                x(E::Binary(op, lhs, rhs))
            }
            1 => {
                let op = *self.g.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge]);
                let lhs = self.produce(&T::Num, ctx, depth - 1).0;
                let rhs = self.produce(&T::Num, ctx, depth - 1).0;
                x(E::Binary(op, lhs, rhs))
            }
            2 => {
                let operand = self.produce(&T::Bool, ctx, depth - 1).0;
                x(E::Not(operand))
            }
            _ => {
                let records = self.program.records.clone();
                let mut options = ctx
                    .visible()
                    .into_iter()
                    .map(|var| var.type_.clone())
                    .chain(self.pool.iter().cloned())
                    .filter(|type_| type_.is_comparable(&records))
                    .collect::<Vec<_>>();
                options.push(T::Num);
                let type_ = self.g.pick(&options).clone();
                let (lhs, left) = self.produce_here(&type_, ctx, depth - 1);
                let (rhs, right) = self.produce_here(&type_, ctx, depth - 1);
                let op = *self.g.pick(&[Op::Eq, Op::Ne]);

                if left.le(&right) || right.le(&left) {
                    x(E::Binary(op, lhs, rhs))
                } else {
                    // One of them as the wider type.
                    let text = name("x");
                    let lambda = Lambda {
                        arguments: vec![(text.clone(), type_.clone())],
                        result: type_,
                        body: block(x(E::Var(text))),
                    };
                    x(E::Binary(op, x(E::Call(x(E::Lambda(Rc::new(lambda))), vec![lhs])), rhs))
                }
            }
        }
    }

    fn record(&mut self, index: usize, ctx: &Ctx, depth: u32) -> X {
        let fields = self.program.records[index].fields.clone();
        let text = self.program.records[index].name.clone();
        let mut order = (0..fields.len()).collect::<Vec<_>>();
        for place in (1..order.len()).rev() {
            let other = self.g.usize(place + 1);
            order.swap(place, other);
        }

        if !fields.is_empty() && self.mistake(Mistake::MissingField) {
            let raw = order[1..]
                .iter()
                .map(|field| (fields[*field].0.clone(), self.leaf(&fields[*field].1, 0)))
                .collect();
            return x(E::Mark(x(E::RawRecord(text, None, raw))));
        }

        if self.mistake(Mistake::ExtraField) {
            let mut raw = order
                .iter()
                .map(|field| (fields[*field].0.clone(), self.leaf(&fields[*field].1, 0)))
                .collect::<Vec<_>>();
            let place = self.g.usize(raw.len() + 1);
            raw.insert(place, (name("extra"), x(E::None)));
            return x(E::Mark(x(E::RawRecord(text, None, raw))));
        }

        let old = if self.g.chance(1, 3) && !fields.is_empty() {
            let old = self.produce(&T::Rec(index), ctx, depth - 1).0;
            let count = 1 + self.g.usize(order.len());
            order.truncate(count);
            Some(old)
        } else {
            None
        };
        let values =
            order.iter().map(|field| (*field, self.produce(&fields[*field].1, ctx, depth - 1).0)).collect();
        x(E::Record(index, old, values))
    }

    fn list(&mut self, element: &T, ctx: &Ctx, depth: u32) -> X {
        // Only where it is the list that is wrong.
        if ctx.result.as_ref().is_none_or(|result| T::Err.le(result)) && self.mistake(Mistake::TryInList) {
            return x(E::Mark(self.try_in_list(element)));
        }

        let mut inner = ctx.clone();
        inner.result = None;
        inner.lazy = true;
        inner.recursive = None;

        match self.g.weighted(&[5, 4, 1]) {
            0 => {
                let count = self.g.weighted(&[1, 4, 4, 3, 1]);
                let elements = (0..count)
                    .map(|_| {
                        if self.g.chance(1, 3) {
                            // A list of a type that fits.
                            let type_ = if element.is_variant() && self.g.bool() {
                                match element {
                                    T::Union(members) => self.g.pick(members).clone(),
                                    _ => self.type_(),
                                }
                            } else {
                                element.clone()
                            };
                            let mut ctx = inner.clone();
                            ctx.pure_ = true;
                            let list = T::List(Rc::new(type_));
                            (true, self.produce_here(&list, &ctx, depth - 1).0)
                        } else {
                            (false, self.produce(element, &inner, depth - 1).0)
                        }
                    })
                    .collect();
                x(E::List(element.clone(), elements))
            }
            1 => self.comprehension(element, &inner, depth),
            _ => {
                // What is there, in front.
                let first = self.produce(element, &inner, depth - 1).0;
                let mut ctx = inner.clone();
                ctx.pure_ = true;
                let list = T::List(Rc::new(element.clone()));
                let rest = self.produce_here(&list, &ctx, depth - 1).0;
                x(E::List(element.clone(), vec![(false, first), (true, rest)]))
            }
        }
    }

    /// A list with an operator of propagation in one of the parts that are evaluated late
    fn try_in_list(&mut self, element: &T) -> X {
        let failing = |type_: T, value: X| {
            // Something is left after propagation, and what it is fits.
            let type_ = if matches!(type_, T::Bool | T::List(_)) { type_ } else { T::union([type_, T::None]) };

            x(E::Try(x(E::Call(
                x(E::Lambda(Rc::new(Lambda {
                    arguments: vec![],
                    result: T::union([type_, T::Err]),
                    body: block(value),
                }))),
                vec![],
            ))))
        };
        let list = T::List(Rc::new(T::Num));
        let numbers = || x(E::List(T::Num, vec![(false, x(E::Num(1.0)))]));

        match self.g.usize(6) {
            0 => x(E::List(T::Any, vec![(false, failing(element.clone(), x(E::None)))])),
            1 => {
                let value = self.leaf(element, 0);
                x(E::List(T::Any, vec![(false, value), (true, failing(list, numbers()))]))
            }
            kind => {
                let value = self.leaf(element, 0);
                let (iteratee, condition, value) = match kind {
                    2 => (failing(list, numbers()), None, value),
                    3 => (numbers(), Some(failing(T::Bool, x(E::Bool(true)))), value),
                    4 => (numbers(), None, failing(T::Any, value)),
                    _ => {
                        let inner = x(E::List(T::Any, vec![(false, failing(T::Any, value))]));
                        (numbers(), None, inner)
                    }
                };
                let branch = Branch { names: vec![name("one")], iteratees: vec![iteratee], condition };
                x(E::Comprehension(T::Any, value, Rc::new(vec![branch])))
            }
        }
    }

    fn comprehension(&mut self, element: &T, ctx: &Ctx, depth: u32) -> X {
        let mut inner = ctx.clone();
        inner.pure_ = true;
        let count = 1 + self.g.weighted(&[4, 2, 1]);
        let mut branches = vec![];

        for _ in 0..count {
            let width = 1 + self.g.weighted(&[4, 1, 1]);
            let mut names = vec![];
            let mut iteratees = vec![];
            let mut types = vec![];

            for _ in 0..width {
                let type_ = match self.collection(&inner) {
                    T::List(type_) => (*type_).clone(),
                    _ => self.type_(),
                };
                let list = T::List(Rc::new(type_.clone()));
                iteratees.push(self.produce_here(&list, &inner, depth - 1).0);
                let mut text = self.fresh();
                if names.contains(&text) {
                    text = name(["one", "other", "third"][names.len()]);
                }
                names.push(text);
                types.push(type_);
            }

            if self.mistake(Mistake::Iteratees) {
                let mut branch = Branch { names: names.clone(), iteratees: iteratees.clone(), condition: None };
                branch.names.push(name("extra"));
                return x(E::Mark(x(E::Comprehension(element.clone(), self.leaf(element, 0), Rc::new(vec![branch])))));
            }

            for (name, type_) in names.iter().zip(types) {
                inner = inner.with(name, T::Fn(vec![], Rc::new(type_)), true);
            }

            let condition =
                if self.g.chance(1, 3) { Some(self.produce(&T::Bool, &inner, depth.min(2) - 1).0) } else { None };
            branches.push(Branch { names, iteratees, condition });
        }

        let value = self.produce(element, &inner, depth - 1).0;
        branches.reverse();
        x(E::Comprehension(element.clone(), value, Rc::new(branches)))
    }

    /// An expression of a key: no not-a-number, no sign of zero, and nothing that is looked at on demand.
    fn key(&mut self, type_: &T, ctx: &Ctx, depth: u32) -> X {
        match type_ {
            T::Num => {
                let value = x(E::Num(self.g.below(6) as f64));
                self.marked(value, &T::Num, ctx)
            }
            T::Rec(index) => {
                let fields = self.program.records[*index].fields.clone();
                let values = fields
                    .iter()
                    .enumerate()
                    .map(|(field, (_, type_))| (field, self.key(type_, ctx, depth.saturating_sub(1))))
                    .collect();
                x(E::Record(*index, None, values))
            }
            T::Map(key_type, value_type) => {
                let key = self.key(key_type, ctx, depth.saturating_sub(1));
                let value = self.key(value_type, ctx, depth.saturating_sub(1));
                x(E::Map((**key_type).clone(), (**value_type).clone(), vec![Entry::Single(key, value)]))
            }
            T::Union(members) => {
                let simple = members.iter().filter(|type_| !matches!(type_, T::Rec(_))).cloned().collect::<Vec<_>>();
                let type_ = if depth == 0 && !simple.is_empty() {
                    self.g.pick(&simple).clone()
                } else if depth == 0 {
                    return self.leaf(type_, 0);
                } else {
                    self.g.pick(members).clone()
                };
                self.key(&type_, ctx, depth.saturating_sub(1))
            }
            T::Str | T::Bool | T::None if depth > 0 && self.budget > 0 && self.g.chance(1, 3) => {
                self.produce_here(type_, ctx, depth - 1).0
            }
            _ => {
                let value = self.leaf(type_, 0);
                self.marked(value, type_, ctx)
            }
        }
    }

    fn map(&mut self, key: &T, value: &T, ctx: &Ctx, depth: u32) -> X {
        match self.g.weighted(&[6, 3]) {
            0 => {
                let mut entries = vec![];

                let type_ = T::Map(Rc::new(key.clone()), Rc::new(value.clone()));

                if self.g.chance(1, 3) {
                    entries.push(Entry::Spread(self.produce_here(&type_, ctx, depth - 1).0));
                }

                for _ in 0..self.g.usize(5) {
                    if self.g.chance(1, 10) {
                        entries.push(Entry::Spread(self.produce_here(&type_, ctx, depth - 1).0));
                    } else {
                        let key = self.key(key, ctx, 2);
                        entries.push(Entry::Single(key, self.produce(value, ctx, depth - 1).0));
                    }
                }

                x(E::Map(key.clone(), value.clone(), entries))
            }
            _ => {
                let type_ = T::Map(Rc::new(key.clone()), Rc::new(value.clone()));
                let map = self.produce_here(&type_, ctx, depth - 1).0;
                let key = self.key(key, ctx, 2);
                x(E::BuiltIn(BuiltIn::Delete, vec![map, key]))
            }
        }
    }

    fn if_(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        let count = 1 + self.g.weighted(&[4, 1, 1]);
        let mut types = vec![];
        let mut branches = vec![];

        for _ in 0..count {
            let condition = if self.mistake(Mistake::Condition) {
                x(E::Mark(self.wrong_leaf(&T::Bool).unwrap()))
            } else {
                self.produce(&T::Bool, ctx, depth - 1).0
            };
            let (then, type_) = self.typed_block(want, ctx, depth - 1);
            types.push(type_);
            branches.push((condition, then));
        }

        let (else_, type_) = self.typed_block(want, ctx, depth - 1);
        types.push(type_);
        (x(E::If(branches, else_)), T::union(types))
    }

    fn if_type(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        // What to look at: a variable if there is one.
        let options = ctx
            .visible()
            .into_iter()
            .filter(|var| var.type_.is_variant())
            .map(|var| (x(E::Var(var.name.clone())), var.type_.clone()))
            .collect::<Vec<_>>();
        let (argument, type_) = if !options.is_empty() && self.g.chance(3, 4) {
            self.g.pick(&options).clone()
        } else {
            let options = self.pool.iter().filter(|type_| type_.is_variant()).cloned().collect::<Vec<_>>();
            let type_ = self.g.pick(&options).clone();
            // With exactly that type.
            let value = self.produce(&type_, ctx, depth - 1).0;
            let text = self.fresh();
            let lambda = Lambda {
                arguments: vec![(text.clone(), type_.clone())],
                result: type_.clone(),
                body: block(x(E::Var(text))),
            };
            (x(E::Call(x(E::Lambda(Rc::new(lambda))), vec![value])), type_)
        };
        let text = self.fresh();

        if self.mistake(Mistake::NotVariant) {
            let value = self.leaf(want, 0);
            return (
                x(E::Mark(x(E::IfType(text, x(E::Num(1.0)), vec![(T::Num, block(value.clone()))], Some(block(value)))))),
                want.clone(),
            );
        }

        let mut members = match &type_ {
            T::Any => {
                let mut members = vec![T::Num, T::Str, T::None];
                members.extend(self.pool.iter().flat_map(|type_| type_.members()).filter(|type_| *type_ != T::Any));
                members.sort();
                members.dedup();
                members
            }
            type_ => type_.members(),
        };

        for place in (1..members.len()).rev() {
            let other = self.g.usize(place + 1);
            members.swap(place, other);
        }

        if type_ == T::Any {
            let count = 1 + self.g.usize(4);
            members.truncate(count);
        }

        let mut branches = vec![];
        let mut types = vec![];

        while !members.is_empty() {
            if !branches.is_empty() && self.g.chance(1, 3) {
                break;
            }

            let count = 1 + self.g.weighted(&[3, 1, 1]);
            let count = count.min(members.len());
            let branch = T::union(members.drain(..count));
            let (then, natural) = self.typed_block(want, &ctx.with(&text, branch.clone(), false), depth - 1);
            types.push(natural);
            branches.push((branch, then));
        }

        if type_ != T::Any && self.mistake(Mistake::BranchType) {
            let wrong = if T::Bool.le(&type_) {
                T::List(Rc::new(T::List(Rc::new(T::Bool))))
            } else {
                T::Bool
            };
            let value = self.leaf(want, 0);
            branches.push((wrong, block(value.clone())));
            return (x(E::Mark(x(E::IfType(text, argument, branches, Some(block(value)))))), want.clone());
        }

        let rest = if type_ == T::Any {
            Some(T::Any)
        } else if members.is_empty() {
            None
        } else {
            Some(T::union(members))
        };

        if rest.is_some() && self.mistake(Mistake::MissingElse) {
            return (x(E::Mark(x(E::IfType(text, argument, branches, None)))), want.clone());
        }

        if rest.is_none() && self.mistake(Mistake::UnreachableElse) {
            let value = self.leaf(want, 0);
            return (x(E::Mark(x(E::IfType(text, argument, branches, Some(block(value)))))), want.clone());
        }

        let else_ = rest.map(|rest| {
            let (block, natural) = self.typed_block(want, &ctx.with(&text, rest, false), depth - 1);
            types.push(natural);
            block
        });

        (x(E::IfType(text, argument, branches, else_)), T::union(types))
    }

    fn if_list(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        if self.mistake(Mistake::NotList) {
            let value = self.leaf(want, 0);
            let wrong = x(E::Num(1.0));
            return (
                x(E::Mark(x(E::IfList(wrong, name("a"), name("b"), block(value.clone()), block(value))))),
                want.clone(),
            );
        }

        let element = match self.collection(ctx) {
            T::List(element) => (*element).clone(),
            _ => self.type_(),
        };
        let type_ = T::List(Rc::new(element.clone()));
        let list = self.produce_here(&type_, ctx, depth - 1).0;
        let first = self.fresh();
        let mut rest = self.fresh();
        while rest == first {
            rest = name("rest");
        }
        let inner = ctx
            .with(&first, T::Fn(vec![], Rc::new(element)), true)
            .with(&rest, type_, false);
        let (then, one) = self.typed_block(want, &inner, depth - 1);
        let (else_, other) = self.typed_block(want, ctx, depth - 1);
        (x(E::IfList(list, first, rest, then, else_)), T::union([one, other]))
    }

    fn if_map(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        if self.mistake(Mistake::NotMap) {
            let value = self.leaf(want, 0);
            return (
                x(E::Mark(x(E::IfMap(name("a"), x(E::None), x(E::None), block(value.clone()), block(value))))),
                want.clone(),
            );
        }

        let (key_type, value_type) = match self.collection(ctx) {
            T::Map(key, value) => ((*key).clone(), (*value).clone()),
            _ => (self.key_type(1), self.type_()),
        };
        let type_ = T::Map(Rc::new(key_type.clone()), Rc::new(value_type.clone()));
        let map = self.produce_here(&type_, ctx, depth - 1).0;
        let key = self.key(&key_type, ctx, 2);
        let text = self.fresh();
        let (then, one) = self.typed_block(want, &ctx.with(&text, value_type, false), depth - 1);
        let (else_, other) = self.typed_block(want, ctx, depth - 1);
        (x(E::IfMap(text, map, key, then, else_)), T::union([one, other]))
    }

    fn call(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        if self.mistake(Mistake::Callee) {
            let wrong = x(E::Num(1.0));
            return (x(E::Mark(x(E::Call(wrong, vec![])))), want.clone());
        }

        let mut options: Vec<(Name, Vec<T>, T, bool)> = vec![];

        for function in &self.program.functions {
            if ctx.sees(&function.name) && (function.pure_ || !ctx.pure_) && function.lambda.result.le(want) {
                if let T::Fn(arguments, result) = lambda_type(&function.lambda) {
                    options.push((function.name.clone(), arguments, (*result).clone(), function.counted));
                }
            }
        }

        for var in ctx.visible() {
            if let T::Fn(arguments, result) = &var.type_ {
                if (**result).le(want) && (var.thunk || !ctx.pure_) {
                    options.push((var.name.clone(), arguments.clone(), (**result).clone(), false));
                }
            }
        }

        if options.is_empty() {
            return self.by_type(want, ctx, depth);
        }

        let (text, types, result, counted) = self.g.pick(&options).clone();
        let mut arguments = vec![];

        for (index, type_) in types.iter().enumerate() {
            arguments.push(if counted && index == 0 {
                x(E::Num(self.g.below(5) as f64))
            } else {
                self.produce(type_, ctx, depth - 1).0
            });
        }

        let mut call = E::Call(x(E::Var(text)), arguments.clone());

        if self.mistake(Mistake::ArgumentCount) {
            if let E::Call(function, arguments) = &mut call {
                let mut count = arguments.clone();
                if count.is_empty() || self.g.bool() {
                    count.push(x(E::None));
                } else {
                    count.pop();
                }
                call = E::Mark(x(E::Call(function.clone(), count)));
            }
        }

        (x(call), result)
    }

    fn field(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        if self.mistake(Mistake::UnknownField) {
            let operand = match self.program.records.len() {
                0 => x(E::Num(1.0)),
                count => {
                    let index = self.g.usize(count);
                    self.leaf(&T::Rec(index), 0)
                }
            };
            return (x(E::Mark(x(E::RawField(operand, name("unknown"))))), want.clone());
        }

        let mut options = vec![];

        for (index, record) in self.program.records.iter().enumerate() {
            for (field, (_, type_)) in record.fields.iter().enumerate() {
                if type_.le(want) {
                    options.push((index, field, type_.clone()));
                }
            }
        }

        if options.is_empty() {
            return self.by_type(want, ctx, depth);
        }

        let (index, field, type_) = self.g.pick(&options).clone();
        let record = self.produce_here(&T::Rec(index), ctx, depth - 1).0;
        (x(E::Field(record, index, field)), type_)
    }

    fn try_(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        // Functions whose result is just an error are a known finding.
        let allowed = ctx.result.as_ref().is_some_and(|result| T::Err.le(result) && *result != T::Err);

        if ctx.result.as_ref().is_some_and(|result| !T::Err.le(result)) && self.mistake(Mistake::StrayTry) {
            let value = self.exact(&T::union([T::Err, T::None]), x(E::None));
            return (x(E::Mark(x(E::Try(value)))), want.clone());
        }

        if !allowed || *want == T::Any {
            return self.by_type(want, ctx, depth);
        }

        // Without the error, something is left.
        let members = want.members().into_iter().filter(|type_| *type_ != T::Err).collect::<Vec<_>>();

        if members.is_empty() {
            return self.by_type(want, ctx, depth);
        }

        let success = T::union(members);
        let type_ = T::union([success.clone(), T::Err]);
        let (value, natural) = self.produce_here(&type_, ctx, depth - 1);

        if natural == type_ {
            return (x(E::Try(value)), success);
        }

        // With exactly that type.
        (x(E::Try(self.exact(&type_, value))), success)
    }

    /// The value through a function, as a value of exactly the type.
    fn exact(&mut self, type_: &T, value: X) -> X {
        let text = self.fresh();
        let lambda = Lambda {
            arguments: vec![(text.clone(), type_.clone())],
            result: type_.clone(),
            body: block(x(E::Var(text))),
        };
        x(E::Call(x(E::Lambda(Rc::new(lambda))), vec![value]))
    }

    fn marked(&mut self, value: X, type_: &T, ctx: &Ctx) -> X {
        if !self.options.probes || !self.g.chance(1, 4) {
            return value;
        }

        let probe = (ctx.pure_, type_.clone());

        if !self.program.probes.contains(&probe) {
            if self.program.probes.len() > 12 {
                return value;
            }
            self.program.probes.push(probe);
        }

        self.marks += 1;
        x(E::Probe(ctx.pure_, self.marks, type_.clone(), value))
    }

    fn probe(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        let probe = (ctx.pure_, want.clone());

        if !self.options.probes || (!self.program.probes.contains(&probe) && self.program.probes.len() > 12) {
            return self.by_type(want, ctx, depth);
        }

        if !self.program.probes.contains(&probe) {
            self.program.probes.push(probe);
        }

        self.marks += 1;
        let mark = self.marks;
        let value = self.produce(want, ctx, depth - 1).0;
        (x(E::Probe(ctx.pure_, mark, want.clone(), value)), want.clone())
    }

    /// A function that is called at once.
    fn immediate(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        let count = self.g.usize(3);
        let mut names = NAMES.to_vec();
        let arguments = (0..count)
            .map(|_| {
                let index = self.g.usize(names.len());
                (name(names.remove(index)), self.type_())
            })
            .collect::<Vec<_>>();
        let values =
            arguments.iter().map(|(_, type_)| self.produce(type_, ctx, depth - 1).0).collect();
        // Errors may end it early.
        let result = if *want != T::Any && self.g.chance(1, 4) { T::union([want.clone(), T::Err]) } else { want.clone() };
        let lambda = self.lambda(arguments, &result, ctx, depth - 1);
        let call = x(E::Call(x(E::Lambda(Rc::new(lambda))), values));

        if result == *want {
            return (call, want.clone());
        }

        // What to give for an error.
        let text = self.fresh();
        let inner = ctx.with(&text, T::Err, false);
        let (recovered, natural) = self.typed_block(want, &inner, depth - 1);
        (
            x(E::IfType(text.clone(), call, vec![(T::Err, recovered)], Some(block(x(E::Var(text)))))),
            T::union([natural, want.clone()]),
        )
    }

    fn go(&mut self, want: &T, ctx: &Ctx, depth: u32) -> P {
        if self.mistake(Mistake::SpawnArguments) {
            let lambda = Lambda { arguments: vec![(name("x"), T::Num)], result: want.clone(), body: block(self.leaf(want, 0)) };
            return (
                x(E::Mark(x(E::BuiltIn(BuiltIn::Go, vec![x(E::Lambda(Rc::new(lambda)))])))),
                want.clone(),
            );
        }

        let mut inner = ctx.clone();
        inner.pure_ = true;
        let lambda = self.lambda(vec![], want, &inner, depth - 1);
        let future = x(E::BuiltIn(BuiltIn::Go, vec![x(E::Lambda(Rc::new(lambda)))]));
        (x(E::Call(future, vec![])), want.clone())
    }
}

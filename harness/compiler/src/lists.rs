//! L02: generated programs that build lists from lists, against lazy sequences.

use crate::{
    machine::{number, Stop, Value},
    pipeline::{self, LAST},
};
use pbt::{ensure, ensure_eq, CaseResult, Failure, Gen};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fmt::Write,
    rc::Rc,
};

const FUEL: u64 = 6_000_000;
/// Steps of the model.
const STEPS: u64 = 20_000;

// Generated programs

/// A number made of elements that are in scope.
#[derive(Clone, Debug)]
enum N {
    Number(u32),
    /// The element with the number in scope.
    Element(usize),
    Add(Rc<N>, Rc<N>),
    Times(Rc<N>, u32),
}

#[derive(Clone, Debug)]
enum Item {
    /// An element with a mark.
    Single(u32, N),
    Spread(Rc<List>),
}

#[derive(Clone, Debug)]
struct Branch {
    iteratees: Vec<List>,
    /// The value of a number is less than another.
    condition: Option<(N, u32)>,
}

#[derive(Clone, Debug)]
enum List {
    Variable(usize),
    Literal(Vec<Item>),
    Comprehension(u32, Rc<N>, Rc<Vec<Branch>>),
    /// Without the first elements.
    Skip(Rc<List>, u32),
    /// The first element again in front of the rest, and as it is.
    Again(Rc<List>),
    /// One or another by the number of elements.
    If(Rc<List>, u32, Rc<List>, Rc<List>),
}

#[derive(Clone, Copy, Debug)]
enum Query {
    Size(usize),
    Element(usize, u32),
    Sum(usize),
    Equal(usize, usize),
    /// The elements up to one, and the size of the rest.
    Rest(usize, u32),
    Debug(usize),
    /// How many different lists there are, as keys of a map.
    Keys(usize, usize),
}

// The model

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Count {
    /// At most.
    times: u32,
    /// Surely at least once.
    sure: bool,
}

struct World {
    steps: Cell<u64>,
    counts: RefCell<BTreeMap<u32, Count>>,
    sure: Cell<bool>,
}

struct TooLong;
type R<T> = Result<T, TooLong>;

impl World {
    fn step(&self) -> R<()> {
        let steps = self.steps.get();
        if steps == 0 {
            return Err(TooLong);
        }
        self.steps.set(steps - 1);
        Ok(())
    }
}

struct Thunk {
    value: Cell<Option<f64>>,
    /// What was evaluated although that was not sure to be needed has to be seen again when it is.
    mark: u32,
    compute: Box<dyn Fn() -> R<f64>>,
    world: Rc<World>,
}

impl Thunk {
    fn force(&self) -> R<f64> {
        self.world.step()?;

        if self.world.sure.get() {
            self.world.counts.borrow_mut().entry(self.mark).or_default().sure = true;
        }

        if let Some(value) = self.value.get() {
            return Ok(value);
        }

        let value = (self.compute)()?;
        self.world.counts.borrow_mut().entry(self.mark).or_default().times += 1;
        self.value.set(Some(value));
        Ok(value)
    }
}

type Node = Option<(Rc<Thunk>, Seq)>;

#[derive(Clone)]
struct Seq(Rc<dyn Fn() -> R<Node>>);

impl Seq {
    fn node(&self) -> R<Node> {
        (self.0)()
    }

    fn empty() -> Self {
        Self(Rc::new(|| Ok(None)))
    }

    fn prepend(first: Rc<Thunk>, rest: Seq) -> Self {
        Self(Rc::new(move || Ok(Some((first.clone(), rest.clone())))))
    }

    fn concatenate(one: Seq, other: Seq) -> Self {
        Self(Rc::new(move || {
            Ok(match one.node()? {
                Some((first, rest)) => Some((first, Self::concatenate(rest, other.clone()))),
                None => other.node()?,
            })
        }))
    }
}

type Scope = Vec<Rc<Thunk>>;

fn value(n: &N, scope: &Scope) -> R<f64> {
    Ok(match n {
        N::Number(number) => *number as f64,
        N::Element(index) => scope[*index].force()?,
        N::Add(one, other) => value(one, scope)? + value(other, scope)?,
        N::Times(one, by) => value(one, scope)? * *by as f64,
    })
}

struct Model {
    world: Rc<World>,
    variables: Rc<RefCell<Vec<Seq>>>,
}

impl Model {
    fn thunk(&self, mark: u32, n: &N, scope: &Scope) -> Rc<Thunk> {
        let (n, scope) = (n.clone(), scope.clone());
        Rc::new(Thunk {
            value: Cell::new(None),
            mark,
            compute: Box::new(move || value(&n, &scope)),
            world: self.world.clone(),
        })
    }

    fn share(&self) -> Self {
        Self { world: self.world.clone(), variables: self.variables.clone() }
    }

    fn list(&self, list: &List, scope: &Scope) -> R<Seq> {
        self.world.step()?;

        Ok(match list {
            List::Variable(index) => self.variables.borrow()[*index].clone(),
            List::Literal(items) => {
                let mut result = Seq::empty();

                for item in items.iter().rev() {
                    result = match item {
                        Item::Single(mark, n) => Seq::prepend(self.thunk(*mark, n, scope), result),
                        Item::Spread(list) => Seq::concatenate(self.lazy(list, scope), result),
                    };
                }

                result
            }
            List::Comprehension(mark, n, branches) => self.comprehension(*mark, n, branches.clone(), 0, scope),
            List::Skip(list, count) => {
                let mut list = self.list(list, scope)?;

                for _ in 0..*count {
                    list = match list.node()? {
                        Some((_, rest)) => rest,
                        None => return Ok(Seq::empty()),
                    };
                }

                list
            }
            List::Again(list) => match self.list(list, scope)?.node()? {
                Some((first, rest)) => {
                    // An element that gives the element.
                    Seq::prepend(first.clone(), Seq::prepend(first, rest))
                }
                None => Seq::empty(),
            },
            List::If(list, size, then, else_) => {
                let size_of = self.size(&self.list(list, scope)?)?;
                self.list(if size_of < *size as f64 { then } else { else_ }, scope)?
            }
        })
    }

    /// A list that is made when it is looked at.
    fn lazy(&self, list: &Rc<List>, scope: &Scope) -> Seq {
        let (model, list, scope) = (self.share(), list.clone(), scope.clone());
        Seq(Rc::new(move || model.list(&list, &scope)?.node()))
    }

    fn comprehension(&self, mark: u32, n: &Rc<N>, branches: Rc<Vec<Branch>>, depth: usize, scope: &Scope) -> Seq {
        let (model, n, scope) = (self.share(), n.clone(), scope.clone());

        Seq(Rc::new(move || {
            let branch = &branches[depth];
            let mut lists = vec![];
            for list in &branch.iteratees {
                lists.push(model.list(list, &scope)?);
            }
            model.through(mark, &n, &branches, depth, &scope, lists)
        }))
    }

    fn through(
        &self,
        mark: u32,
        n: &Rc<N>,
        branches: &Rc<Vec<Branch>>,
        depth: usize,
        scope: &Scope,
        mut lists: Vec<Seq>,
    ) -> R<Node> {
        let branch = &branches[depth];

        loop {
            self.world.step()?;

            let mut inner = scope.clone();
            let mut rests = vec![];

            for list in &lists {
                match list.node()? {
                    Some((first, rest)) => {
                        inner.push(first);
                        rests.push(rest);
                    }
                    None => return Ok(None),
                }
            }

            if let Some((n, limit)) = &branch.condition {
                if value(n, &inner)? >= *limit as f64 {
                    lists = rests;
                    continue;
                }
            }

            let rest = {
                let (model, n, branches, scope) = (self.share(), n.clone(), branches.clone(), scope.clone());
                Seq(Rc::new(move || model.through(mark, &n, &branches, depth, &scope, rests.clone())))
            };

            if depth + 1 == branches.len() {
                return Ok(Some((self.thunk(mark, n, &inner), rest)));
            }

            return Seq::concatenate(self.comprehension(mark, n, branches.clone(), depth + 1, &inner), rest).node();
        }
    }

    fn size(&self, list: &Seq) -> R<f64> {
        let mut list = list.clone();
        let mut size = 0.0;
        while let Some((_, rest)) = list.node()? {
            self.world.step()?;
            size += 1.0;
            list = rest;
        }
        Ok(size)
    }

    fn elements(&self, list: &Seq, limit: usize) -> R<Vec<f64>> {
        let mut list = list.clone();
        let mut elements = vec![];
        while elements.len() < limit {
            let Some((first, rest)) = list.node()? else { break };
            elements.push(first.force()?);
            list = rest;
        }
        Ok(elements)
    }

    fn ask(&self, query: Query) -> R<String> {
        let list = |index: usize| self.variables.borrow()[index].clone();

        Ok(match query {
            Query::Size(l) => format!("{}", self.size(&list(l))?),
            Query::Element(l, index) => {
                let mut list = list(l);
                for _ in 0..index {
                    match list.node()? {
                        Some((_, rest)) => list = rest,
                        None => return Ok("none".into()),
                    }
                }
                match list.node()? {
                    Some((first, _)) => format!("{}", first.force()?),
                    None => "none".into(),
                }
            }
            Query::Sum(l) => format!("{}", self.elements(&list(l), usize::MAX)?.iter().fold(0.0, |one, other| one * 3.0 % 1009.0 + other)),
            Query::Rest(l, index) => {
                // From the start each time.
                let elements = self.elements(&list(l), index as usize)?;
                let mut rest = list(l);
                for _ in 0..index {
                    match rest.node()? {
                        Some((_, next)) => rest = next,
                        None => {
                            rest = Seq::empty();
                            break;
                        }
                    }
                }
                format!("{} {}", elements.iter().fold(0.0, |one, other| one * 3.0 % 1009.0 + other), self.size(&rest)?)
            }
            Query::Debug(l) => {
                let text = self.elements(&list(l), usize::MAX)?.iter().map(|n| format!("{n}")).collect::<Vec<_>>();
                if text.is_empty() { "[number]".into() } else { format!("[number {}]", text.join(", ")) }
            }
            Query::Equal(one, other) => {
                // Elements are needed up to the first difference, but which of them is not said.
                self.world.sure.set(false);
                let (mut one, mut other) = (list(one), list(other));
                let result = loop {
                    match (one.node()?, other.node()?) {
                        (Some((a, rest)), Some((b, other_rest))) => {
                            if a.force()? != b.force()? {
                                break false;
                            }
                            (one, other) = (rest, other_rest);
                        }
                        (None, None) => break true,
                        _ => break false,
                    }
                };
                self.world.sure.set(true);
                result.to_string()
            }
            Query::Keys(one, other) => {
                self.world.sure.set(false);
                let one = list(one);
                let other = list(other);
                // Hashing, and comparing on the way, may look at elements any number of times.
                let mut lists = vec![];
                for _ in 0..12 {
                    lists = vec![self.elements(&one, usize::MAX)?, self.elements(&other, usize::MAX)?];
                }
                self.world.sure.set(true);
                format!("{} {}", if lists[0] == lists[1] { 1 } else { 2 }, if lists[0] == lists[1] { 2 } else { 1 })
            }
        })
    }
}

// Text

const NAMES: [&str; 8] = ["x", "y", "z", "u", "v", "w", "p", "q"];

fn number_text(n: &N) -> String {
    match n {
        N::Number(number) => number.to_string(),
        N::Element(index) => format!("{}()", NAMES[*index]),
        N::Add(one, other) => format!("({} + {})", number_text(one), number_text(other)),
        N::Times(one, by) => format!("{} * {by}", number_text(one)),
    }
}

fn list_text(list: &List, scope: usize) -> String {
    match list {
        List::Variable(index) => format!("l{index}"),
        List::Literal(items) => {
            let items = items
                .iter()
                .map(|item| match item {
                    Item::Single(mark, n) => format!("_mark({mark}, {})", number_text(n)),
                    Item::Spread(list) => format!("...{}", list_text(list, scope)),
                })
                .collect::<Vec<_>>();
            format!("[number {}]", items.join(", "))
        }
        List::Comprehension(mark, n, branches) => {
            let mut text = format!("[number _mark({mark}, {})", number_text(n));
            let mut depths = vec![];
            let mut depth = scope;
            for branch in branches.iter() {
                depths.push(depth);
                depth += branch.iteratees.len();
            }
            // The first branch of the text is the innermost one.
            for (branch, depth) in branches.iter().zip(depths).rev() {
                let names = (0..branch.iteratees.len()).map(|index| NAMES[depth + index]).collect::<Vec<_>>();
                let lists = branch.iteratees.iter().map(|list| list_text(list, depth)).collect::<Vec<_>>();
                write!(text, " for {} in {}", names.join(", "), lists.join(", ")).unwrap();
                if let Some((n, limit)) = &branch.condition {
                    write!(text, " if {} < {limit}", number_text(n)).unwrap();
                }
            }
            text + "]"
        }
        List::Skip(list, count) => format!("skip({}, {count})", list_text(list, scope)),
        List::Again(list) => format!("again({})", list_text(list, scope)),
        List::If(list, size, then, else_) => format!(
            "if size({}) < {size} {{ {} }} else {{ {} }}",
            list_text(list, scope),
            list_text(then, scope),
            list_text(else_, scope)
        ),
    }
}

const HEAD: &str = "import foreign _mark \\(number, number) number
import foreign _query \\(number) none
import foreign _number \\(number) none
import foreign _text \\(string) none

skip = \\(l [number], n number) [number] {
  if n < 1 {
    l
  } else {
    if [first, ...rest] = l {
      skip(rest, n - 1)
    } else {
      [number]
    }
  }
}

again = \\(l [number]) [number] {
  if [first, ...rest] = l {
    [number first(), first(), ...rest]
  } else {
    [number]
  }
}

sum = \\(l [number], s number, n number) number {
  if n < 1 {
    s
  } else {
    if [first, ...rest] = l {
      sum(rest, fold(s, first()), n - 1)
    } else {
      s
    }
  }
}

fold = \\(s number, x number) number {
  modulo(s * 3) + x
}

modulo = \\(x number) number {
  if x < 1009 { x } else { modulo(x - 1009) }
}

element = \\(l [number], n number) number | none {
  if [first, ...rest] = l {
    if n < 1 { first() } else { element(rest, n - 1) }
  } else {
    none
  }
}

tell = \\(x number | none) none {
  if x = x as number {
    _number(x)
  } else if none {
    _text(\"none\")
  }
}

";

fn query_text(query: Query, index: usize) -> String {
    match query {
        Query::Size(l) => format!("  _number(size(l{l}))\n"),
        Query::Element(l, at) => format!("  tell(element(l{l}, {at}))\n"),
        Query::Sum(l) => format!("  _number(sum(l{l}, 0, 1000000))\n"),
        Query::Rest(l, at) => format!("  _number(sum(l{l}, 0, {at}))\n  _number(size(skip(l{l}, {at})))\n"),
        Query::Debug(l) => format!("  debug(l{l})\n"),
        Query::Equal(one, other) => format!("  _text(if l{one} == l{other} {{ \"true\" }} else {{ \"false\" }})\n"),
        Query::Keys(one, other) => format!(
            "  m{index} = {{[number]: number l{one}: 1, l{other}: 2}}\n  _number(size(m{index}))\n  \
             tell(if x = m{index}[l{one}] {{ x }} else {{ none }})\n"
        ),
    }
}

// Generation

struct Made<'a> {
    g: &'a mut Gen,
    marks: u32,
    /// Marks of elements of literals outside of anything that is made more than once.
    once: Vec<u32>,
    variables: usize,
    size: u32,
}

impl Made<'_> {
    fn mark(&mut self) -> u32 {
        self.marks += 1;
        self.marks
    }

    fn number(&mut self, scope: usize, depth: u32) -> N {
        if depth == 0 || self.g.chance(1, 3) {
            if scope > 0 && self.g.chance(3, 4) {
                return N::Element(self.g.usize(scope));
            }
            return N::Number(self.g.below(10) as u32);
        }
        if self.g.bool() {
            N::Add(Rc::new(self.number(scope, depth - 1)), Rc::new(self.number(scope, depth - 1)))
        } else {
            N::Times(Rc::new(self.number(scope, 0)), 1 + self.g.below(4) as u32)
        }
    }

    fn list(&mut self, scope: usize, depth: u32, top: bool) -> List {
        if depth == 0 {
            return if self.variables > 0 && self.g.chance(3, 4) {
                List::Variable(self.g.usize(self.variables))
            } else {
                self.literal(scope, 0, top)
            };
        }

        match self.g.weighted(&[3, 5, 5, 2, 2, 1]) {
            0 if self.variables > 0 => List::Variable(self.g.usize(self.variables)),
            0 | 1 => self.literal(scope, depth, top),
            2 if scope < 4 => self.comprehension(scope, depth),
            3 => List::Skip(Rc::new(self.list(scope, depth - 1, top)), self.g.below(5) as u32),
            4 => List::Again(Rc::new(self.list(scope, depth - 1, top))),
            5 => List::If(
                Rc::new(self.list(scope, depth - 1, top)),
                self.g.below(6) as u32,
                Rc::new(self.list(scope, depth - 1, top)),
                Rc::new(self.list(scope, depth - 1, top)),
            ),
            _ => self.literal(scope, depth, top),
        }
    }

    fn literal(&mut self, scope: usize, depth: u32, top: bool) -> List {
        let count = if top && self.g.chance(1, 6) { self.g.usize(self.size as usize + 1) } else { self.g.usize(5) };
        let items = (0..count)
            .map(|_| {
                if depth > 0 && self.g.chance(1, 4) {
                    Item::Spread(Rc::new(self.list(scope, depth - 1, false)))
                } else {
                    let mark = self.mark();
                    if top {
                        self.once.push(mark);
                    }
                    Item::Single(mark, self.number(scope, 1))
                }
            })
            .collect();
        List::Literal(items)
    }

    fn comprehension(&mut self, scope: usize, depth: u32) -> List {
        let count = 1 + self.g.weighted(&[5, 2]);
        let mut inner = scope;
        let mut branches = vec![];

        for _ in 0..count {
            let width = 1 + self.g.weighted(&[5, 2]);
            let iteratees = (0..width).map(|_| self.list(inner, depth - 1, false)).collect();
            inner += width;
            let condition =
                if self.g.chance(1, 3) { Some((self.number(inner, 1), self.g.below(30) as u32)) } else { None };
            branches.push(Branch { iteratees, condition });
        }

        let mark = self.mark();
        let n = self.number(inner, 2);
        List::Comprehension(mark, Rc::new(n), Rc::new(branches))
    }
}

pub fn lists(g: &mut Gen) -> CaseResult {
    run(g, 8)
}

pub fn long_lists(g: &mut Gen) -> CaseResult {
    run(g, 120)
}

fn run(g: &mut Gen, size: u32) -> CaseResult {
    let count = 1 + g.usize(6);
    let mut made = Made { g, marks: 0, once: vec![], variables: 0, size };
    let mut lists = vec![];

    for _ in 0..count {
        lists.push(made.list(0, 3, true));
        made.variables += 1;
    }

    let once = made.once;
    let queries = (0..2 + g.usize(8))
        .map(|_| {
            let l = g.usize(count);
            match g.weighted(&[3, 5, 3, 3, 3, 1, 1]) {
                0 => Query::Size(l),
                1 => Query::Element(l, g.below(10) as u32),
                2 => Query::Sum(l),
                3 => Query::Equal(l, g.usize(count)),
                4 => Query::Rest(l, g.below(8) as u32),
                5 => Query::Debug(l),
                _ => Query::Keys(l, g.usize(count)),
            }
        })
        .collect::<Vec<_>>();

    let mut source = HEAD.to_string();
    source += "Main = \\() none {\n";
    for (index, list) in lists.iter().enumerate() {
        writeln!(source, "  l{index} = {}", list_text(list, 0)).unwrap();
    }
    for (index, query) in queries.iter().enumerate() {
        writeln!(source, "  _query({index})").unwrap();
        source += &query_text(*query, index);
    }
    source += "  none\n}\n";
    g.describe(|| source.clone());

    // The model.
    let world = Rc::new(World { steps: Cell::new(STEPS), counts: Default::default(), sure: Cell::new(true) });
    let model = Model { world: world.clone(), variables: Default::default() };
    let expected = (|| {
        for list in &lists {
            let list = model.list(list, &vec![])?;
            model.variables.borrow_mut().push(list);
        }
        let mut expected = vec![("".to_string(), world.counts.borrow().clone())];
        for query in &queries {
            let answer = model.ask(*query)?;
            expected.push((answer, world.counts.borrow().clone()));
        }
        Ok::<_, TooLong>(expected)
    })();
    model.variables.borrow_mut().clear();
    let Ok(expected) = expected else {
        g.discard();
        return Ok(());
    };

    let compiled = match pipeline::compile_source(&source) {
        Ok(compiled) => compiled,
        Err(error) => return Err(Failure::new("refused", format!("{error:?} for\n{source}"))),
    };
    let stage = if g.bool() { LAST } else { 0 };
    let stages = pipeline::stages(&compiled.mir, stage).map_err(|error| Failure::new("pass fails", format!("{error:?}\n{source}")))?;
    let machine = pipeline::machine(&[&stages[stage]], stage, FUEL).map_err(|stop| crate::failure(&stop, &source))?;

    machine.define_foreign("_mark", 2, |machine, arguments| {
        let mark = number(arguments[0].clone())?;
        machine.trace.borrow_mut().push(format!("mark {mark}"));
        Ok(arguments[1].clone())
    });
    machine.define_foreign("_number", 1, |machine, arguments| {
        let text = format!("tell {}", number(arguments[0].clone())?);
        machine.trace.borrow_mut().push(text);
        Ok(Value::None)
    });
    machine.define_foreign("_query", 1, |machine, arguments| {
        let text = format!("query {}", number(arguments[0].clone())?);
        machine.trace.borrow_mut().push(text);
        Ok(Value::None)
    });
    machine.define_foreign("_text", 1, |machine, arguments| {
        let text = format!("tell {}", String::from_utf8_lossy(machine.bytes(&arguments[0])?));
        machine.drop_value(&arguments[0])?;
        machine.trace.borrow_mut().push(text);
        Ok(Value::None)
    });

    match machine.call_name("Main.pen:Main", vec![]) {
        Ok(_) => {}
        Err(Stop::Fuel) => {
            g.discard();
            return Ok(());
        }
        Err(stop) => return Err(crate::failure(&stop, &source)),
    }

    // What was told and marked by each query.
    let trace = machine.trace.take();
    let mut got = vec![(vec![], BTreeMap::new())];
    let mut counts = BTreeMap::<u32, u32>::new();

    for text in trace {
        if let Some(mark) = text.strip_prefix("mark ") {
            *counts.entry(mark.parse().unwrap()).or_default() += 1;
        } else if text.starts_with("query ") {
            got.last_mut().unwrap().1 = counts.clone();
            got.push((vec![], BTreeMap::new()));
        } else {
            let text = text.strip_prefix("tell ").or(text.strip_prefix("debug ")).unwrap().to_string();
            got.last_mut().unwrap().0.push(text);
        }
    }
    got.last_mut().unwrap().1 = counts;

    ensure_eq!(got.len(), expected.len(), "answers", "number of answers of\n{source}");

    for (index, ((told, counts), (answer, wanted))) in got.iter().zip(&expected).enumerate() {
        let what = if index == 0 { "construction".into() } else { format!("query {} ({:?})", index - 1, queries[index - 1]) };

        ensure_eq!(told.join(" "), *answer, "answer", "answer of {what} of\n{source}");

        for (mark, count) in counts {
            let limit = wanted.get(mark).map(|count| count.times).unwrap_or(0);
            ensure!(
                *count <= limit,
                if limit == 0 { "element not needed" } else { "element evaluated again" },
                "element {mark} was evaluated {count} times up to {what}, at most {limit} expected, in\n{source}"
            );
            if once.contains(mark) {
                ensure!(*count <= 1, "element evaluated again", "element {mark} was evaluated {count} times up to {what} in\n{source}");
            }
        }

        for (mark, count) in wanted {
            ensure!(
                !count.sure || counts.contains_key(mark),
                "element not evaluated",
                "element {mark} was not evaluated up to {what} in\n{source}"
            );
        }
    }

    if stage == LAST {
        machine.drop_globals().map_err(|stop| crate::failure(&stop, &source))?;
        ensure_eq!(machine.live(), 0, "leak", "blocks left by\n{source}");
    }

    let (_, last) = expected.last().unwrap();
    let evaluated = last.values().filter(|count| count.times > 0).count();

    g.label_if(last.values().any(|count| count.times > 1), "elements of a comprehension evaluated for each traversal");
    g.label_if(queries.iter().any(|query| matches!(query, Query::Keys(..))), "lists as keys");

    if evaluated > 1 && made_marks(&source) > evaluated {
        g.nontrivial(&source);
    }

    Ok(())
}

fn made_marks(source: &str) -> usize {
    source.matches("_mark(").count()
}

//! A model of the language's grammar: random syntax trees, written out as token lists together with the tree the
//! parser is expected to build. Written from doc/docs/references/language and the grammar of lib/parse.

use pbt::Gen;

/// A labelled tree; the position of a node is the index of a token (expected) or a real position (parsed).
#[derive(Clone, Debug, PartialEq)]
pub struct D<P> {
    pub label: String,
    pub position: Option<P>,
    pub kids: Vec<D<P>>,
}

impl<P> D<P> {
    pub fn new(label: impl Into<String>, position: impl Into<Option<P>>, kids: Vec<D<P>>) -> Self {
        D { label: label.into(), position: position.into(), kids }
    }
    pub fn leaf(label: impl Into<String>) -> Self {
        D { label: label.into(), position: None, kids: vec![] }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, s: &mut String) {
        if self.kids.is_empty() {
            s.push_str(&self.label);
        } else {
            s.push('(');
            s.push_str(&self.label);
            for k in &self.kids {
                s.push(' ');
                k.write(s);
            }
            s.push(')');
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn each<'a>(&'a self, f: &mut impl FnMut(&'a D<P>)) {
        f(self);
        for k in &self.kids {
            k.each(f);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Glue {
    /// Anything, or nothing, may come before the token.
    Free,
    /// Some white space or a comment must come before the token.
    Space,
    /// Nothing may come before the token.
    Tight,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub s: String,
    pub glue: Glue,
    /// Starts a line in the conventional layout (definitions, statements, fields, closing braces of blocks).
    pub line_start: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Name(String),
    Fun(Vec<T>, Box<T>),
    List(Box<T>),
    Map(Box<T>, Box<T>),
    /// Left-associated.
    Union(Box<T>, Box<T>),
}

#[derive(Clone, Debug)]
pub enum E {
    Bin(&'static str, Box<E>, Box<E>),
    Not(Box<E>),
    Try(Box<E>),
    Call(Box<E>, Vec<E>),
    Field(Box<E>, String),
    If(Vec<(E, B)>, Box<B>),
    IfList(String, String, Box<E>, Box<B>, Box<B>),
    IfMap(String, Box<E>, Box<E>, Box<B>, Box<B>),
    IfType(String, Box<E>, Vec<(T, B)>, Option<Box<B>>),
    Lambda(L),
    List(T, Vec<(bool, E)>),
    Comprehension(T, Box<E>, Vec<(Vec<String>, Vec<E>, Option<E>)>),
    Map(T, T, Vec<(E, Option<E>)>),
    Num(String),
    Rec(String, Option<Box<E>>, Vec<(String, E)>),
    Str(String),
    Var(String),
}

#[derive(Clone, Debug)]
pub struct L {
    pub arguments: Vec<(String, T)>,
    pub result: T,
    pub body: Box<B>,
}

#[derive(Clone, Debug)]
pub struct B {
    pub statements: Vec<(Option<String>, E)>,
    pub last: Box<E>,
}

#[derive(Clone, Debug)]
pub struct Import {
    pub package: Option<String>,
    pub components: Vec<String>,
    pub prefix: Option<String>,
    pub names: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum TypeDef {
    Alias(String, T),
    Record(String, Vec<(String, T)>),
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub export: Option<bool>,
    pub lambda: L,
}

#[derive(Clone, Debug)]
pub struct M {
    pub imports: Vec<Import>,
    pub foreign: Vec<(String, bool, T)>,
    pub types: Vec<TypeDef>,
    pub functions: Vec<Fun>,
}

pub const OPERATORS: &[(&str, u8)] = &[
    ("|", 1),
    ("&", 2),
    ("==", 3),
    ("!=", 3),
    ("<", 3),
    ("<=", 3),
    (">", 3),
    (">=", 3),
    ("+", 4),
    ("-", 4),
    ("*", 5),
    ("/", 5),
];

pub fn priority(operator: &str) -> u8 {
    OPERATORS.iter().find(|(o, _)| *o == operator).unwrap().1
}

// ------------------------------------------------------------------------------------------------ generation

#[derive(Clone, Copy)]
pub struct Limits {
    /// Remaining expression nodes.
    pub nodes: i32,
    /// Remaining list literals, comprehensions and name-binding ifs, whose parsing backtracks.
    pub backtracking: i32,
}

pub struct Maker<'a> {
    pub g: &'a mut Gen,
    pub limits: Limits,
}

const LOWER: &[&str] = &[
    "x", "y", "foo", "iffy", "format", "importer", "as_", "in1", "elsewhere", "type_", "foreign1", "exported", "_", "_a",
    "a1b2", "forE", "none", "true", "number", "typename", "e5", "x0b1",
];
const UPPER: &[&str] = &["Foo", "B", "Type", "If", "X1", "As_b", "ZZ", "In"];

impl Maker<'_> {
    pub fn name(&mut self) -> String {
        match self.g.weighted(&[8, 3, 1]) {
            0 => self.g.pick(LOWER).to_string(),
            1 => self.g.pick(UPPER).to_string(),
            _ => loop {
                let mut s = String::new();
                s.push(*self.g.pick(&['a', 'z', 'A', 'Z', '_', 'q']));
                let n = self.g.len(12);
                for _ in 0..n {
                    s.push(*self.g.pick(&['a', 'b', 'i', 'f', 'n', 'Z', '0', '9', '_', 's', 'o', 'r']));
                }
                if !["as", "else", "export", "for", "foreign", "if", "in", "import", "type"].contains(&s.as_str()) {
                    break s;
                }
            },
        }
    }

    pub fn upper(&mut self) -> String {
        self.g.pick(UPPER).to_string()
    }

    pub fn qualified(&mut self) -> String {
        if self.g.chance(1, 6) {
            format!("{}'{}", self.name(), self.name())
        } else {
            self.name()
        }
    }

    pub fn type_(&mut self, depth: u32) -> T {
        if depth == 0 {
            return T::Name(self.qualified());
        }
        match self.g.weighted(&[10, 2, 2, 2, 3]) {
            0 => T::Name(self.qualified()),
            1 => {
                let n = self.g.usize(4);
                T::Fun((0..n).map(|_| self.type_(depth - 1)).collect(), Box::new(self.type_(depth - 1)))
            }
            2 => T::List(Box::new(self.type_(depth - 1))),
            3 => T::Map(Box::new(self.type_(depth - 1)), Box::new(self.type_(depth - 1))),
            _ => {
                let mut t = self.type_(depth - 1);
                for _ in 0..=self.g.usize(3) {
                    t = T::Union(Box::new(t), Box::new(self.type_(depth - 1)));
                }
                t
            }
        }
    }

    pub fn string(&mut self) -> String {
        let n = self.g.len(10);
        let mut s = String::new();
        for _ in 0..n {
            let piece = *self.g.pick(&[
                "a", "b c", " ", "#", "'", "é", "あ", "😀", "\\n", "\\\\", "\\\"", "\\x0f", "\\xFF", "\\r", "\\t", "\n", "\t",
                "# x", "{", ")", "0", "\u{301}", "//",
            ]);
            s.push_str(piece);
        }
        s
    }

    pub fn number(&mut self) -> String {
        match self.g.weighted(&[6, 2, 2, 3, 1, 1]) {
            0 => self.g.below(100).to_string(),
            1 => {
                let n = 1 + self.g.usize(8);
                let mut s = String::from("0b");
                for _ in 0..n {
                    s.push(*self.g.pick(&['0', '1']));
                }
                s
            }
            2 => {
                let n = 1 + self.g.usize(8);
                let mut s = String::from("0x");
                for _ in 0..n {
                    s.push(*self.g.pick(&['0', '1', 'a', 'F', 'c', '9', 'E', 'b']));
                }
                s
            }
            3 => format!("{}.{}", self.g.below(1000), self.g.below(1000)),
            4 => format!(
                "{}{}{}{}",
                self.g.below(20),
                self.g.pick(&["e", "E"]),
                self.g.pick(&["", "-", "+"]),
                self.g.below(300)
            ),
            _ => format!("{}{}.{}", self.g.pick(&["-", "+"]), self.g.below(30), self.g.below(30)),
        }
    }

    pub fn leaf(&mut self) -> E {
        match self.g.weighted(&[5, 3, 2]) {
            0 => E::Var(self.qualified()),
            1 => E::Num(self.number()),
            _ => E::Str(self.string()),
        }
    }

    fn many<X>(&mut self, max: u64, mut f: impl FnMut(&mut Self) -> X) -> Vec<X> {
        let n = self.g.below(max + 1);
        (0..n).map(|_| f(self)).collect()
    }

    pub fn expr(&mut self, depth: u32) -> E {
        self.limits.nodes -= 1;
        if depth == 0 || self.limits.nodes <= 0 {
            return self.leaf();
        }
        let d = depth - 1;
        let back = if self.limits.backtracking > 0 { 1 } else { 0 };
        match self.g.weighted(&[
            10,
            14,
            4,
            4,
            7,
            5,
            3,
            2 * back,
            2 * back,
            2 * back,
            3,
            3 * back,
            3 * back,
            3,
            3,
        ]) {
            0 => self.leaf(),
            1 => {
                let (o, _) = *self.g.pick(OPERATORS);
                E::Bin(o, Box::new(self.expr(d)), Box::new(self.expr(d)))
            }
            2 => E::Not(Box::new(self.expr(d))),
            3 => E::Try(Box::new(self.expr(d))),
            4 => {
                let f = self.expr(d);
                E::Call(Box::new(f), self.many(3, |s| s.expr(d)))
            }
            5 => {
                let e = self.expr(d);
                E::Field(Box::new(e), self.name())
            }
            6 => {
                let n = 1 + self.g.usize(3);
                let branches = (0..n).map(|_| (self.expr(d), self.block(d))).collect();
                E::If(branches, Box::new(self.block(d)))
            }
            7 => {
                self.limits.backtracking -= 1;
                E::IfList(
                    self.name(),
                    self.name(),
                    Box::new(self.expr(d)),
                    Box::new(self.block(d)),
                    Box::new(self.block(d)),
                )
            }
            8 => {
                self.limits.backtracking -= 1;
                E::IfMap(
                    self.name(),
                    Box::new(self.expr(d)),
                    Box::new(self.expr(d)),
                    Box::new(self.block(d)),
                    Box::new(self.block(d)),
                )
            }
            9 => {
                self.limits.backtracking -= 1;
                let name = self.name();
                let argument = self.expr(d);
                let n = 1 + self.g.usize(3);
                let branches = (0..n).map(|_| (self.type_(2), self.block(d))).collect();
                let else_ = if self.g.bool() { Some(Box::new(self.block(d))) } else { None };
                E::IfType(name, Box::new(argument), branches, else_)
            }
            10 => E::Lambda(self.lambda(d)),
            11 => {
                self.limits.backtracking -= 1;
                let t = self.type_(2);
                E::List(t, self.many(3, |s| (s.g.chance(1, 4), s.expr(d))))
            }
            12 => {
                self.limits.backtracking -= 1;
                let t = self.type_(2);
                let element = self.expr(d);
                let n = 1 + self.g.usize(2);
                let branches = (0..n)
                    .map(|_| {
                        let n = 1 + self.g.usize(2);
                        let names = (0..n).map(|_| self.name()).collect();
                        let n = 1 + self.g.usize(2);
                        let iteratees = (0..n).map(|_| self.expr(d)).collect();
                        let condition = if self.g.chance(1, 3) { Some(self.expr(d)) } else { None };
                        (names, iteratees, condition)
                    })
                    .collect();
                E::Comprehension(t, Box::new(element), branches)
            }
            13 => {
                let k = self.type_(2);
                let v = self.type_(2);
                E::Map(
                    k,
                    v,
                    self.many(3, |s| {
                        let e = s.expr(d);
                        if s.g.chance(1, 4) {
                            (e, None)
                        } else {
                            let v = s.expr(d);
                            (e, Some(v))
                        }
                    }),
                )
            }
            _ => {
                let name = self.qualified();
                let base = if self.g.chance(1, 3) { Some(Box::new(self.expr(d))) } else { None };
                let mut fields: Vec<(String, E)> = vec![];
                let n = self.g.usize(4).max(base.is_some() as usize);
                for _ in 0..n {
                    let name = self.name();
                    if fields.iter().all(|(n, _)| *n != name) {
                        fields.push((name, self.expr(d)));
                    }
                }
                E::Rec(name, base, fields)
            }
        }
    }

    pub fn block(&mut self, depth: u32) -> B {
        let n = match self.g.weighted(&[6, 3, 1]) {
            0 => 0,
            1 => 1,
            _ => 1 + self.g.usize(3),
        };
        let statements = (0..n)
            .map(|_| {
                let name = if self.g.chance(2, 3) { Some(self.name()) } else { None };
                (name, self.expr(depth))
            })
            .collect();
        B { statements, last: Box::new(self.expr(depth)) }
    }

    pub fn lambda(&mut self, depth: u32) -> L {
        let arguments = self.many(3, |s| (s.name(), s.type_(2)));
        L { arguments, result: self.type_(2), body: Box::new(self.block(depth)) }
    }

    pub fn import(&mut self) -> Import {
        let package = if self.g.bool() { Some(self.name()) } else { None };
        let n = 1 + self.g.usize(3);
        let components =
            (0..n).map(|_| if package.is_some() || self.g.bool() { self.upper() } else { self.name() }).collect();
        let prefix = if self.g.chance(1, 3) { Some(self.name()) } else { None };
        let names = if self.g.chance(1, 3) {
            let n = 1 + self.g.usize(3);
            (0..n).map(|_| self.name()).collect()
        } else {
            vec![]
        };
        Import { package, components, prefix, names }
    }

    pub fn module(&mut self, depth: u32) -> M {
        let imports = if self.g.chance(1, 2) { self.many(4, |s| s.import()) } else { vec![] };
        let foreign =
            if self.g.chance(1, 3) { self.many(3, |s| (s.name(), s.g.bool(), s.type_(3))) } else { vec![] };
        let types = if self.g.chance(1, 2) {
            self.many(3, |s| {
                if s.g.bool() {
                    TypeDef::Alias(s.name(), s.type_(3))
                } else {
                    TypeDef::Record(s.name(), s.many(4, |s| (s.name(), s.type_(2))))
                }
            })
        } else {
            vec![]
        };
        let functions = if self.g.chance(9, 10) {
            let n = 1 + self.g.below(3);
            (0..n)
                .map(|_| Fun {
                    name: self.name(),
                    export: if self.g.chance(1, 5) { Some(self.g.bool()) } else { None },
                    lambda: self.lambda(depth),
                })
                .collect()
        } else {
            vec![]
        };
        M { imports, foreign, types, functions }
    }
}

// ------------------------------------------------------------------------------------------------ writing

pub struct Writer<'a, 'b> {
    pub g: &'a mut Gen,
    pub toks: &'b mut Vec<Tok>,
    /// Redundant parentheses, trailing separators.
    pub noise: bool,
    line_start: bool,
}

type Tree = D<usize>;

fn word(s: &str) -> bool {
    s.chars().next().is_some_and(|c| c.is_ascii_alphanumeric() || c == '_')
}

impl<'a, 'b> Writer<'a, 'b> {
    pub fn new(g: &'a mut Gen, toks: &'b mut Vec<Tok>, noise: bool) -> Self {
        Self { g, toks, noise, line_start: false }
    }

    /// Adds a token with the weakest glue that keeps it apart from its neighbour.
    fn tok(&mut self, s: impl Into<String>) -> usize {
        let s = s.into();
        let glue = match self.toks.last() {
            None => Glue::Free,
            Some(last) => {
                let open = |s: &str| matches!(s, "(" | "[" | "{" | "," | "\\(");
                let punct = |s: &str| matches!(s, "(" | ")" | "{" | "}" | "[" | "]" | "," | "\\(" | ":" | "...");
                if s == "..." && open(&last.s) {
                    Glue::Free
                } else if (punct(&last.s) && s != "(" && s != "...") || (punct(&s) && s != "(" && s != "...") {
                    Glue::Free
                } else if s == "(" && matches!(last.s.as_str(), "(" | "[" | "{" | "," | "\\(" | ":" | "=" | "!") {
                    Glue::Free
                } else if last.s == "!" && (word(&s) || s == "!" || s.starts_with('"')) {
                    Glue::Free
                } else if last.s == "=" && (word(&s) || s.starts_with('"') || s == "!") {
                    Glue::Free
                } else if s == "=" && word(&last.s) {
                    Glue::Free
                } else if (s.starts_with('"') || last.s.starts_with('"')) && s != "(" && s != "..." && s != "." {
                    Glue::Free
                } else if word(&last.s) && OPERATORS.iter().any(|(o, _)| *o == s) {
                    Glue::Free
                } else if OPERATORS.iter().any(|(o, _)| *o == last.s) && word(&s) {
                    Glue::Free
                } else if (s == "?" || s == ".") && !last.s.starts_with(|c: char| c.is_ascii_digit() || "+-.".contains(c)) {
                    Glue::Free
                } else if last.s == "." {
                    Glue::Free
                } else {
                    Glue::Space
                }
            }
        };
        // `?` must not be followed by `=`, nor an operator by `=`.
        let glue = match self.toks.last() {
            Some(last) if last.s == "?" && (s == "==" || s == "=") => Glue::Space,
            _ => glue,
        };
        self.push(s, glue)
    }

    fn tight(&mut self, s: &str) -> usize {
        self.push(s.into(), Glue::Tight)
    }

    fn spaced(&mut self, s: &str) -> usize {
        self.push(s.into(), Glue::Space)
    }

    fn push(&mut self, s: String, glue: Glue) -> usize {
        let line_start = std::mem::take(&mut self.line_start);
        self.toks.push(Tok { s, glue, line_start });
        self.toks.len() - 1
    }

    fn start_line(&mut self) {
        self.line_start = true;
    }

    fn separators<X>(&mut self, xs: &[X], f: impl FnMut(&mut Self, &X)) {
        self.separated(xs, true, f)
    }

    fn separated<X>(&mut self, xs: &[X], trailing: bool, mut f: impl FnMut(&mut Self, &X)) {
        for (i, x) in xs.iter().enumerate() {
            f(self, x);
            if i + 1 < xs.len() || trailing && self.noise && self.g.chance(1, 4) {
                self.tok(",");
            }
        }
    }

    // ---- types

    pub fn type_(&mut self, t: &T) -> Tree {
        if self.noise && self.g.chance(1, 12) {
            return self.parenthesized(|s| s.type_(t));
        }
        match t {
            T::Union(l, r) => {
                let left = if matches!(**l, T::Union(..)) { self.type_inner_union(l) } else { self.atomic_type(l) };
                self.tok("|");
                let right = self.atomic_type(r);
                // The parser gives a union the position of its left type.
                D::new("union", left.position, vec![left, right])
            }
            _ => self.plain_type(t),
        }
    }

    fn type_inner_union(&mut self, t: &T) -> Tree {
        match t {
            T::Union(l, r) => {
                let left = if matches!(**l, T::Union(..)) { self.type_inner_union(l) } else { self.atomic_type(l) };
                self.tok("|");
                let right = self.atomic_type(r);
                D::new("union", left.position, vec![left, right])
            }
            _ => unreachable!(),
        }
    }

    fn parenthesized(&mut self, f: impl FnOnce(&mut Self) -> Tree) -> Tree {
        self.tok("(");
        let tree = f(self);
        self.tok(")");
        tree
    }

    fn atomic_type(&mut self, t: &T) -> Tree {
        match t {
            T::Union(..) | T::Fun(..) => self.parenthesized(|s| s.type_(t)),
            _ => {
                if self.noise && self.g.chance(1, 12) {
                    self.parenthesized(|s| s.type_(t))
                } else {
                    self.plain_type(t)
                }
            }
        }
    }

    fn plain_type(&mut self, t: &T) -> Tree {
        match t {
            T::Name(n) => {
                let p = self.tok(n);
                D::new("ref", p, vec![D::leaf(n)])
            }
            T::Fun(arguments, result) => {
                let p = self.tok("\\(");
                let mut kids = vec![];
                self.separators(arguments, |s, t| kids.push(s.type_(t)));
                self.tok(")");
                let mut all = vec![D::new("args", None, kids)];
                all.push(self.type_(result));
                D::new("fun", p, all)
            }
            T::List(t) => {
                let p = self.tok("[");
                let k = self.type_(t);
                self.tok("]");
                D::new("listT", p, vec![k])
            }
            T::Map(k, v) => {
                let p = self.tok("{");
                let k = self.type_(k);
                self.tok(":");
                let v = self.type_(v);
                self.tok("}");
                D::new("mapT", p, vec![k, v])
            }
            T::Union(..) => unreachable!(),
        }
    }

    // ---- expressions

    /// Binding strength: binary operators 1..=5, prefix 6, suffix 7, atoms 8.
    fn strength(e: &E) -> u8 {
        match e {
            E::Bin(o, ..) => priority(o),
            E::Not(_) => 6,
            E::Try(_) | E::Call(..) | E::Field(..) => 7,
            _ => 8,
        }
    }

    pub fn expr(&mut self, e: &E) -> Tree {
        self.expr_at(e, 0)
    }

    /// Writes `e` where the context needs at least the given strength.
    fn expr_at(&mut self, e: &E, strength: u8) -> Tree {
        if Self::strength(e) < strength || self.noise && self.g.chance(1, 14) {
            self.parenthesized(|s| s.expr_at(e, 0))
        } else {
            self.bare(e)
        }
    }

    fn bare(&mut self, e: &E) -> Tree {
        match e {
            E::Bin(o, l, r) => {
                let p = priority(o);
                let l = self.expr_at(l, p);
                let at = self.tok(*o);
                let r = self.expr_at(r, p + 1);
                D::new(format!("bin{o}"), at, vec![l, r])
            }
            E::Not(x) => {
                let at = self.tok("!");
                let x = self.expr_at(x, 6);
                D::new("not", at, vec![x])
            }
            E::Try(x) => {
                let x = self.expr_at(x, 7);
                let at = self.tok("?");
                D::new("try", at, vec![x])
            }
            E::Call(f, arguments) => {
                let f = self.expr_at(f, 7);
                let at = self.tight("(");
                let mut kids = vec![f];
                self.separators(arguments, |s, a| kids.push(s.expr(a)));
                self.tok(")");
                D::new("call", at, kids)
            }
            E::Field(x, name) => {
                let x = if matches!(**x, E::Num(_)) {
                    self.parenthesized(|s| s.expr_at(x, 0))
                } else {
                    self.expr_at(x, 7)
                };
                let at = self.tok(".");
                self.tok(name);
                D::new("field", at, vec![x, D::leaf(name)])
            }
            E::If(branches, else_) => {
                let at = self.tok("if");
                let mut kids = vec![];
                for (i, (c, b)) in branches.iter().enumerate() {
                    if i > 0 {
                        self.tok("else");
                        self.tok("if");
                    }
                    // A condition must not begin like a list pattern.
                    let c = if i == 0 && begins_with_list(c) {
                        self.parenthesized(|s| s.expr_at(c, 0))
                    } else {
                        self.expr(c)
                    };
                    kids.push(c);
                    kids.push(self.block(b));
                }
                self.tok("else");
                kids.push(self.block(else_));
                D::new("if", at, kids)
            }
            E::IfList(first, rest, list, then, else_) => {
                let at = self.tok("if");
                self.tok("[");
                self.tok(first);
                self.tok(",");
                self.tok("...");
                self.tok(rest);
                self.tok("]");
                self.tok("=");
                let list = self.expr(list);
                let then = self.block(then);
                self.tok("else");
                let else_ = self.block(else_);
                D::new("iflist", at, vec![D::leaf(first), D::leaf(rest), list, then, else_])
            }
            E::IfMap(name, map, key, then, else_) => {
                let at = self.tok("if");
                self.tok(name);
                self.tok("=");
                let map = self.expr(map);
                self.tok("[");
                let key = self.expr(key);
                self.tok("]");
                let then = self.block(then);
                self.tok("else");
                let else_ = self.block(else_);
                D::new("ifmap", at, vec![D::leaf(name), map, key, then, else_])
            }
            E::IfType(name, argument, branches, else_) => {
                let at = self.tok("if");
                self.tok(name);
                self.tok("=");
                let mut kids = vec![D::leaf(name), self.expr(argument)];
                self.tok("as");
                for (i, (t, b)) in branches.iter().enumerate() {
                    if i > 0 {
                        self.tok("else");
                        self.tok("if");
                    }
                    kids.push(self.type_(t));
                    kids.push(self.block(b));
                }
                if let Some(b) = else_ {
                    self.tok("else");
                    let b = self.block(b);
                    kids.push(D::new("else", None, vec![b]));
                }
                D::new("iftype", at, kids)
            }
            E::Lambda(l) => self.lambda(l),
            E::List(t, elements) => {
                let at = self.tok("[");
                let mut kids = vec![self.type_(t)];
                self.separators(elements, |s, (spread, e)| {
                    if *spread {
                        s.tok("...");
                    }
                    let e = s.expr(e);
                    kids.push(D::new(if *spread { "spread" } else { "single" }, None, vec![e]));
                });
                self.tok("]");
                D::new("list", at, kids)
            }
            E::Comprehension(t, element, branches) => {
                let at = self.tok("[");
                let mut kids = vec![self.type_(t), self.expr(element)];
                for (names, iteratees, condition) in branches {
                    let at = self.tok("for");
                    let mut inner: Vec<Tree> = names.iter().map(|n| D::leaf(n.as_str())).collect();
                    self.separators(names, |s, n| {
                        s.tok(n);
                    });
                    self.tok("in");
                    // A trailing separator would make the condition an iteratee.
                    self.separated(iteratees, condition.is_none(), |s, e| inner.push(s.expr(e)));
                    if let Some(c) = condition {
                        self.tok("if");
                        let c = self.expr(c);
                        inner.push(D::new("cond", None, vec![c]));
                    }
                    kids.push(D::new("for", at, inner));
                }
                self.tok("]");
                D::new("comprehension", at, kids)
            }
            E::Map(k, v, elements) => {
                let at = self.tok("{");
                let k = self.type_(k);
                self.tok(":");
                let mut kids = vec![k, self.type_(v)];
                self.separators(elements, |s, (k, v)| {
                    if let Some(v) = v {
                        let start = s.toks.len();
                        let k = s.expr(k);
                        s.tok(":");
                        let v = s.expr(v);
                        kids.push(D::new("entry", start, vec![k, v]));
                    } else {
                        s.tok("...");
                        let k = s.expr(k);
                        kids.push(D::new("spread", None, vec![k]));
                    }
                });
                self.tok("}");
                D::new("map", at, kids)
            }
            E::Num(n) => {
                // A sign would be taken for an operator after an operand.
                let at = self.tok(n);
                D::new("num", at, vec![D::leaf(canonical_number(n))])
            }
            E::Rec(name, base, fields) => {
                let at = self.tok(name);
                self.tok("{");
                let mut kids = vec![D::leaf(name)];
                if let Some(base) = base {
                    self.tok("...");
                    let base = self.expr(base);
                    self.tok(",");
                    kids.push(D::new("base", None, vec![base]));
                }
                self.separators(fields, |s, (name, e)| {
                    let at = s.tok(name);
                    s.tok(":");
                    let e = s.expr(e);
                    kids.push(D::new("f", at, vec![D::leaf(name), e]));
                });
                self.tok("}");
                D::new("record", at, kids)
            }
            E::Str(s) => {
                let at = self.tok(format!("\"{s}\""));
                D::new("str", at, vec![D::leaf(format!("{s:?}"))])
            }
            E::Var(n) => {
                let at = self.tok(n);
                D::new("var", at, vec![D::leaf(n)])
            }
        }
    }

    pub fn lambda(&mut self, l: &L) -> Tree {
        let at = self.tok("\\(");
        let mut kids = vec![];
        self.separators(&l.arguments, |s, (name, t)| {
            let at = s.tok(name);
            let t = s.type_(t);
            kids.push(D::new("arg", at, vec![D::leaf(name), t]));
        });
        self.tok(")");
        let result = self.type_(&l.result);
        let body = self.block(&l.body);
        D::new("lambda", at, vec![D::new("args", None, kids), result, body])
    }

    pub fn block(&mut self, b: &B) -> Tree {
        let at = self.tok("{");
        let mut kids = vec![];
        let mut previous_unnamed = false;
        for (name, e) in &b.statements {
            self.start_line();
            let start = self.toks.len();
            // An unnamed statement must not read as a continuation of the previous one.
            let named;
            let name = match name {
                None if previous_unnamed && continues(e) => {
                    named = "z".to_string();
                    Some(&named)
                }
                n => n.as_ref(),
            };
            let e = if let Some(name) = name {
                self.spaced(name);
                self.tok("=");
                self.expr(e)
            } else {
                self.statement_expression(e, previous_unnamed)
            };
            previous_unnamed = true;
            kids.push(D::new("stmt", start, vec![D::leaf(name.cloned().unwrap_or("-".into())), e]));
        }
        self.start_line();
        let last = self.statement_expression(&b.last, previous_unnamed);
        kids.push(last);
        self.start_line();
        self.tok("}");
        D::new("block", at, kids)
    }

    /// Expression in statement position after another statement: its first token must be apart from the previous one
    /// and must not continue it.
    fn statement_expression(&mut self, e: &E, after: bool) -> Tree {
        if after && continues(e) {
            return self.parenthesized_spaced(|s| s.expr_at(e, 0));
        }
        let start = self.toks.len();
        let tree = self.expr_at(e, 0);
        if after && self.toks[start].glue == Glue::Free {
            self.toks[start].glue = Glue::Space;
        }
        tree
    }

    fn parenthesized_spaced(&mut self, f: impl FnOnce(&mut Self) -> Tree) -> Tree {
        self.spaced("(");
        let tree = f(self);
        self.tok(")");
        tree
    }

    // ---- modules

    pub fn module(&mut self, m: &M) -> Tree {
        let mut imports = vec![];
        for i in &m.imports {
            self.start_line();
            imports.push(self.import(i));
        }
        let mut foreign = vec![];
        for (name, c, t) in &m.foreign {
            self.start_line();
            let at = self.spaced("import");
            self.spaced("foreign");
            if *c {
                self.tok("\"c\"");
            }
            self.tok(name);
            let t = self.type_(t);
            foreign.push(D::new("foreign", at, vec![D::leaf(if *c { "C" } else { "Native" }), D::leaf(name), t]));
        }
        let mut types = vec![];
        for t in &m.types {
            self.start_line();
            types.push(self.type_definition(t));
        }
        let mut functions = vec![];
        for f in &m.functions {
            self.start_line();
            functions.push(self.function(f));
        }
        D::new(
            "module",
            // The first token, or the end of the text.
            0,
            vec![
                D::new("imports", None, imports),
                D::new("foreigns", None, foreign),
                D::new("types", None, types),
                D::new("functions", None, functions),
            ],
        )
    }

    pub fn import(&mut self, i: &Import) -> Tree {
        let at = self.spaced("import");
        let mut path = i.package.clone().unwrap_or_default();
        for c in &i.components {
            path.push('\'');
            path.push_str(c);
        }
        self.spaced(&path);
        let mut kids = vec![D::leaf(path)];
        if let Some(prefix) = &i.prefix {
            self.tok("as");
            self.tok(prefix);
            kids.push(D::new("as", None, vec![D::leaf(prefix)]));
        }
        if !i.names.is_empty() {
            self.tok("{");
            self.separators(&i.names, |s, n| {
                let at = s.tok(n);
                kids.push(D::new("name", at, vec![D::leaf(n)]));
            });
            self.tok("}");
        }
        D::new("import", at, kids)
    }

    pub fn type_definition(&mut self, t: &TypeDef) -> Tree {
        match t {
            TypeDef::Alias(name, t) => {
                let at = self.spaced("type");
                self.tok(name);
                self.tok("=");
                let t = self.type_(t);
                D::new("alias", at, vec![D::leaf(name), t])
            }
            TypeDef::Record(name, fields) => {
                let at = self.spaced("type");
                self.tok(name);
                self.tok("{");
                let mut kids = vec![D::leaf(name)];
                for (name, t) in fields {
                    self.start_line();
                    let at = self.tok(name);
                    let t = self.type_(t);
                    kids.push(D::new("field", at, vec![D::leaf(name), t]));
                }
                self.start_line();
                self.tok("}");
                D::new("recordT", at, kids)
            }
        }
    }

    pub fn function(&mut self, f: &Fun) -> Tree {
        let start = self.toks.len();
        let mut kids = vec![];
        if let Some(c) = f.export {
            self.spaced("foreign");
            if c {
                self.tok("\"c\"");
            }
            kids.push(D::new("export", None, vec![D::leaf(if c { "C" } else { "Native" })]));
        }
        if f.export.is_some() {
            self.tok(&f.name);
        } else {
            self.spaced(&f.name);
        }
        kids.push(D::leaf(&*f.name));
        self.tok("=");
        let at = self.lambda(&f.lambda);
        kids.push(at);
        D::new("def", start, kids)
    }
}

fn canonical_number(n: &str) -> String {
    if let Some(d) = n.strip_prefix("0b") {
        format!("b:{d}")
    } else if let Some(d) = n.strip_prefix("0x") {
        format!("x:{}", d.to_lowercase())
    } else {
        format!("d:{n}")
    }
}

/// The leftmost sub-expression that is written first without parentheses.
fn leftmost(e: &E) -> &E {
    match e {
        E::Bin(_, l, _) => leftmost(l),
        E::Try(x) | E::Call(x, _) | E::Field(x, _) => leftmost(x),
        e => e,
    }
}

pub fn begins_with_list(e: &E) -> bool {
    matches!(leftmost(e), E::List(..) | E::Comprehension(..))
}

/// Whether an expression, written after another expression, could be read as part of that one.
pub fn continues(e: &E) -> bool {
    match leftmost(e) {
        E::Num(n) => n.starts_with(['+', '-']),
        E::Map(..) => true,
        _ => false,
    }
}

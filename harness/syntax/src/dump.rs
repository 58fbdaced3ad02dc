//! The parsed tree as a labelled tree with positions, for comparison with the expected one.

use crate::model::D;
use ast::types::Type;
use ast::*;
use position::Position;

type Tree = D<Position>;

fn at(p: &Position) -> Option<Position> {
    Some(p.clone())
}

pub fn module(m: &Module) -> Tree {
    D::new(
        "module",
        at(m.position()),
        vec![
            D::new("imports", None, m.imports().iter().map(import).collect()),
            D::new("foreigns", None, m.foreign_imports().iter().map(foreign).collect()),
            D::new("types", None, m.type_definitions().iter().map(type_definition).collect()),
            D::new("functions", None, m.function_definitions().iter().map(function).collect()),
        ],
    )
}

fn convention(c: CallingConvention) -> &'static str {
    match c {
        CallingConvention::C => "C",
        CallingConvention::Native => "Native",
    }
}

pub fn path(p: &ModulePath) -> String {
    let (mut s, components) = match p {
        ModulePath::External(p) => (p.package().to_string(), p.components()),
        ModulePath::Internal(p) => (String::new(), p.components()),
    };
    for c in components {
        s.push('\'');
        s.push_str(c);
    }
    s
}

pub fn import(i: &Import) -> Tree {
    let mut kids = vec![D::leaf(path(i.module_path()))];
    if let Some(p) = i.prefix() {
        kids.push(D::new("as", None, vec![D::leaf(p)]));
    }
    for n in i.unqualified_names() {
        kids.push(D::new("name", at(n.position()), vec![D::leaf(n.name())]));
    }
    D::new("import", at(i.position()), kids)
}

fn foreign(i: &ForeignImport) -> Tree {
    D::new(
        "foreign",
        at(i.position()),
        vec![D::leaf(convention(i.calling_convention())), D::leaf(i.name()), type_(i.type_())],
    )
}

pub fn type_definition(t: &TypeDefinition) -> Tree {
    match t {
        TypeDefinition::TypeAlias(a) => {
            D::new("alias", at(a.position()), vec![D::leaf(a.name()), type_(a.type_())])
        }
        TypeDefinition::RecordDefinition(r) => {
            let mut kids = vec![D::leaf(r.name())];
            for f in r.fields() {
                kids.push(D::new("field", at(f.position()), vec![D::leaf(f.name()), type_(f.type_())]));
            }
            D::new("recordT", at(r.position()), kids)
        }
    }
}

pub fn function(f: &FunctionDefinition) -> Tree {
    let mut kids = vec![];
    if let Some(e) = f.foreign_export() {
        kids.push(D::new("export", None, vec![D::leaf(convention(e.calling_convention()))]));
    }
    kids.push(D::leaf(f.name()));
    kids.push(lambda(f.lambda()));
    D::new("def", at(f.position()), kids)
}

pub fn type_(t: &Type) -> Tree {
    match t {
        Type::Reference(r) => D::new("ref", at(r.position()), vec![D::leaf(r.name())]),
        Type::Function(f) => D::new(
            "fun",
            at(f.position()),
            vec![D::new("args", None, f.arguments().iter().map(type_).collect()), type_(f.result())],
        ),
        Type::List(l) => D::new("listT", at(l.position()), vec![type_(l.element())]),
        Type::Map(m) => D::new("mapT", at(m.position()), vec![type_(m.key()), type_(m.value())]),
        Type::Union(u) => D::new("union", at(u.position()), vec![type_(u.lhs()), type_(u.rhs())]),
        Type::Record(r) => D::new("record-type", at(r.position()), vec![D::leaf(r.name())]),
    }
}

pub fn lambda(l: &Lambda) -> Tree {
    D::new(
        "lambda",
        at(l.position()),
        vec![
            D::new(
                "args",
                None,
                l.arguments()
                    .iter()
                    .map(|a| D::new("arg", at(a.position()), vec![D::leaf(a.name()), type_(a.type_())]))
                    .collect(),
            ),
            type_(l.result_type()),
            block(l.body()),
        ],
    )
}

fn block(b: &Block) -> Tree {
    let mut kids = vec![];
    for s in b.statements() {
        kids.push(D::new(
            "stmt",
            at(s.position()),
            vec![D::leaf(s.name().unwrap_or("-")), expression(s.expression())],
        ));
    }
    kids.push(expression(b.expression()));
    D::new("block", at(b.position()), kids)
}

fn operator(o: BinaryOperator) -> &'static str {
    match o {
        BinaryOperator::Add => "+",
        BinaryOperator::Subtract => "-",
        BinaryOperator::Multiply => "*",
        BinaryOperator::Divide => "/",
        BinaryOperator::And => "&",
        BinaryOperator::Or => "|",
        BinaryOperator::Equal => "==",
        BinaryOperator::NotEqual => "!=",
        BinaryOperator::LessThan => "<",
        BinaryOperator::LessThanOrEqual => "<=",
        BinaryOperator::GreaterThan => ">",
        BinaryOperator::GreaterThanOrEqual => ">=",
    }
}

pub fn expression(e: &Expression) -> Tree {
    match e {
        Expression::BinaryOperation(o) => D::new(
            format!("bin{}", operator(o.operator())),
            at(o.position()),
            vec![expression(o.lhs()), expression(o.rhs())],
        ),
        Expression::Call(c) => D::new(
            "call",
            at(c.position()),
            [c.function()].into_iter().chain(c.arguments()).map(expression).collect(),
        ),
        Expression::If(i) => {
            let mut kids = vec![];
            for b in i.branches() {
                kids.push(expression(b.condition()));
                kids.push(block(b.block()));
            }
            kids.push(block(i.else_()));
            D::new("if", at(i.position()), kids)
        }
        Expression::IfList(i) => D::new(
            "iflist",
            at(i.position()),
            vec![D::leaf(i.first_name()), D::leaf(i.rest_name()), expression(i.list()), block(i.then()), block(i.else_())],
        ),
        Expression::IfMap(i) => D::new(
            "ifmap",
            at(i.position()),
            vec![D::leaf(i.name()), expression(i.map()), expression(i.key()), block(i.then()), block(i.else_())],
        ),
        Expression::IfType(i) => {
            let mut kids = vec![D::leaf(i.name()), expression(i.argument())];
            for b in i.branches() {
                kids.push(type_(b.type_()));
                kids.push(block(b.block()));
            }
            if let Some(b) = i.else_() {
                kids.push(D::new("else", None, vec![block(b)]));
            }
            D::new("iftype", at(i.position()), kids)
        }
        Expression::Lambda(l) => lambda(l),
        Expression::List(l) => {
            let mut kids = vec![type_(l.type_())];
            for e in l.elements() {
                kids.push(match e {
                    ListElement::Multiple(e) => D::new("spread", None, vec![expression(e)]),
                    ListElement::Single(e) => D::new("single", None, vec![expression(e)]),
                });
            }
            D::new("list", at(l.position()), kids)
        }
        Expression::ListComprehension(c) => {
            let mut kids = vec![type_(c.type_()), expression(c.element())];
            for b in c.branches() {
                let mut inner: Vec<Tree> = b.names().iter().map(|n| D::leaf(n.as_str())).collect();
                inner.extend(b.iteratees().iter().map(expression));
                if let Some(c) = b.condition() {
                    inner.push(D::new("cond", None, vec![expression(c)]));
                }
                kids.push(D::new("for", at(b.position()), inner));
            }
            D::new("comprehension", at(c.position()), kids)
        }
        Expression::Map(m) => {
            let mut kids = vec![type_(m.key_type()), type_(m.value_type())];
            for e in m.elements() {
                kids.push(match e {
                    MapElement::Multiple(e) => D::new("spread", None, vec![expression(e)]),
                    MapElement::Single(e) => {
                        D::new("entry", at(e.position()), vec![expression(e.key()), expression(e.value())])
                    }
                });
            }
            D::new("map", at(m.position()), kids)
        }
        Expression::Number(n) => D::new(
            "num",
            at(n.position()),
            vec![D::leaf(match n.value() {
                NumberRepresentation::Binary(s) => format!("b:{s}"),
                NumberRepresentation::Hexadecimal(s) => format!("x:{}", s.to_lowercase()),
                NumberRepresentation::FloatingPoint(s) => format!("d:{s}"),
            })],
        ),
        Expression::Record(r) => {
            let mut kids = vec![D::leaf(r.type_name())];
            if let Some(b) = r.record() {
                kids.push(D::new("base", None, vec![expression(b)]));
            }
            for f in r.fields() {
                kids.push(D::new("f", at(f.position()), vec![D::leaf(f.name()), expression(f.expression())]));
            }
            D::new("record", at(r.position()), kids)
        }
        Expression::RecordDeconstruction(d) => {
            D::new("field", at(d.position()), vec![expression(d.expression()), D::leaf(d.name())])
        }
        Expression::String(s) => D::new("str", at(s.position()), vec![D::leaf(format!("{:?}", s.value()))]),
        Expression::UnaryOperation(o) => D::new(
            match o.operator() {
                UnaryOperator::Not => "not",
                UnaryOperator::Try => "try",
            },
            at(o.position()),
            vec![expression(o.expression())],
        ),
        Expression::Variable(v) => D::new("var", at(v.position()), vec![D::leaf(v.name())]),
    }
}

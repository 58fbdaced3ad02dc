//! S08 documentation lists exactly the public interface.

use crate::dump;
use crate::formatter::canonical;
use crate::front::LIMITS;
use crate::layout::{render, Options, Style, Text};
use crate::model::{Maker, TypeDef, Writer, D, M};
use pbt::{ensure, ensure_eq, fail, Campaign, CaseResult, Gen, Property};
use std::collections::{BTreeMap, HashSet};

struct ModuleCase {
    components: Vec<String>,
    text: Text,
    tree: D<usize>,
    model: M,
}

fn public(name: &str) -> bool {
    name.starts_with(|c: char| c.is_ascii_uppercase())
}

fn make_module(g: &mut Gen) -> ModuleCase {
    let depth = 1 + g.below(2) as u32;
    let mut model = Maker { g, limits: LIMITS }.module(depth);
    let raise = |g: &mut Gen, name: &mut String| {
        if g.chance(2, 3) {
            *name = g.pick(&["Foo", "Bar", "X", "Type", "Zed", "Foo_2", "If"]).to_string();
        }
    };
    for t in &mut model.types {
        match t {
            TypeDef::Alias(n, _) => raise(g, n),
            TypeDef::Record(n, fields) => {
                raise(g, n);
                for (f, _) in fields {
                    if g.chance(3, 4) {
                        *f = g.pick(&["A", "B", "C"]).to_string();
                    }
                }
            }
        }
    }
    for f in &mut model.functions {
        raise(g, &mut f.name);
    }
    let mut toks = vec![];
    let noise = g.chance(1, 3);
    let tree = Writer::new(g, &mut toks, noise).module(&model);
    let mut text =
        render(g, &toks, &Options { style: Style::Conventional, comments: 40, carriage_returns: false, top_level: true });
    // No headings in comments.
    for (offset, content) in &mut text.comments {
        if content.starts_with('#') {
            text.text.replace_range(*offset + 1..*offset + 2, ";");
            content.replace_range(..1, ";");
        }
    }
    let components = (0..1 + g.usize(2)).map(|_| g.pick(&["Foo", "Bar", "Core'", "Foo_1", "Z", "Baz1", "Foo", "bar", "_x"]).replace('\'', "")).collect();
    ModuleCase { components, text, tree, model }
}

#[derive(Debug, PartialEq, Clone)]
enum Paragraph {
    Text(String),
    Code(String, String),
}

#[derive(Debug, PartialEq, Clone)]
struct Section {
    level: usize,
    title: String,
    body: Vec<Paragraph>,
}

/// Reads headings, fenced code and paragraphs of a Markdown text.
fn read(text: &str) -> Result<Vec<Section>, String> {
    let mut sections: Vec<Section> = vec![];
    let mut lines = text.lines().peekable();
    let mut paragraph: Option<String> = None;
    macro_rules! flush {
        () => {
            if let Some(p) = paragraph.take() {
                sections.last_mut().ok_or("text before the first heading")?.body.push(Paragraph::Text(p));
            }
        };
    }
    let mut blank = true;
    while let Some(line) = lines.next() {
        if line.starts_with('#') {
            if !blank {
                return Err(format!("heading without an empty line before it: {line:?}"));
            }
            flush!();
            let level = line.chars().take_while(|&c| c == '#').count();
            let title = line[level..].strip_prefix(' ').ok_or("heading without a space")?.to_string();
            sections.push(Section { level, title, body: vec![] });
        } else if let Some(language) = line.strip_prefix("```") {
            if !blank {
                return Err(format!("code without an empty line before it: {line:?}"));
            }
            flush!();
            let mut code = vec![];
            loop {
                match lines.next() {
                    Some("```") => break,
                    Some(l) => code.push(l),
                    None => return Err("code is not closed".into()),
                }
            }
            sections.last_mut().ok_or("code before the first heading")?.body.push(Paragraph::Code(language.into(), code.join("\n")));
        } else if line.is_empty() {
            flush!();
        } else {
            match &mut paragraph {
                Some(p) => {
                    p.push('\n');
                    p.push_str(line);
                }
                None => paragraph = Some(line.into()),
            }
        }
        blank = line.is_empty();
    }
    flush!();
    Ok(sections)
}

/// The text of the lines of comments that end right above a line, as paragraphs: comment lines without text separate them.
fn block_above(lines: &[&str], line: usize) -> Vec<Paragraph> {
    let mut start = line - 1;
    while start > 0 && lines[start - 1].trim_start().starts_with('#') {
        start -= 1;
    }
    paragraphs(&lines[start..line - 1])
}

fn paragraphs(lines: &[&str]) -> Vec<Paragraph> {
    let mut all = vec![];
    let mut current = vec![];
    for l in lines.iter().map(|l| l.trim_start()[1..].trim()).chain([""]) {
        if l.is_empty() {
            if !current.is_empty() {
                all.push(Paragraph::Text(current.join("\n")));
                current.clear();
            }
        } else {
            current.push(l);
        }
    }
    all
}

struct Entry {
    name: String,
    comments: Vec<Paragraph>,
    /// Expected definition; none for records with a private field.
    definition: Option<D<()>>,
    function: bool,
}

fn entries(case: &ModuleCase, hidden: &HashSet<String>) -> (Vec<Entry>, Vec<Entry>, Vec<Paragraph>) {
    let lines: Vec<&str> = case.text.text.lines().collect();
    let line_of = |d: &D<usize>| case.text.line_column(case.text.offsets[d.position.unwrap()]).0;
    let kids = |label: &str| &case.tree.kids.iter().find(|k| k.label == label).unwrap().kids;
    let shown = |name: &str| public(name) && !hidden.contains(name);
    let mut types = vec![];
    for (d, t) in kids("types").iter().zip(&case.model.types) {
        let (name, open) = match t {
            TypeDef::Alias(n, _) => (n, true),
            TypeDef::Record(n, fields) => (n, fields.iter().all(|(f, _)| public(f))),
        };
        if shown(name) {
            types.push(Entry {
                name: name.clone(),
                comments: block_above(&lines, line_of(d)),
                definition: open.then(|| canonical(d)),
                function: false,
            });
        }
    }
    let mut functions = vec![];
    for (d, f) in kids("functions").iter().zip(&case.model.functions) {
        if shown(&f.name) {
            functions.push(Entry {
                name: f.name.clone(),
                comments: block_above(&lines, line_of(d)),
                definition: Some(canonical(d)),
                function: true,
            });
        }
    }
    let first = ["imports", "foreigns", "types", "functions"].iter().flat_map(|l| kids(l).first()).map(line_of).next();
    let top = lines.iter().take_while(|l| l.starts_with('#')).count();
    let module = if top == 0 || first == Some(top + 1) { vec![] } else { paragraphs(&lines[..top]) };
    (types, functions, module)
}

/// Arguments and result of the function of a definition.
fn signature(d: &D<()>) -> Option<Vec<String>> {
    let mut found = None;
    d.each(&mut |k| {
        if found.is_none() && k.label == "lambda" {
            found = Some(k.kids.iter().filter(|k| k.label != "block").map(|k| k.text()).collect());
        }
    });
    found
}

fn check_entry(language: &str, section: &Section, entry: &Entry) -> CaseResult {
    ensure_eq!(section.title, format!("`{}`", entry.name), "wrong entry", "");
    ensure_eq!(section.level, 4, "wrong level", "of {}", entry.name);
    let Some((Paragraph::Code(l, code), comments)) = section.body.split_last() else {
        fail!("no code block", "{section:?}");
    };
    ensure_eq!(l, language, "wrong language", "of {}", entry.name);
    ensure_eq!(comments, &entry.comments[..], "wrong comments", "of {}", entry.name);
    match &entry.definition {
        None => ensure_eq!(code, &format!("type {} {{\n  # ...\n}}", entry.name), "private fields", ""),
        Some(expected) => {
            let source = if entry.function { format!("f = {code} {{ x }}") } else { code.clone() };
            let module = match parse::parse(&source, "p") {
                Ok(m) => canonical(&dump::module(&m)),
                Err(e) => fail!("code does not parse", "{e}\n{source}"),
            };
            let group = if entry.function { "functions" } else { "types" };
            let kids = &module.kids.iter().find(|k| k.label == group).unwrap().kids;
            ensure_eq!(kids.len(), 1, "wrong code", "{source}");
            if entry.function {
                ensure_eq!(signature(&kids[0]), signature(expected), "wrong signature", "{code}");
                assert!(signature(expected).is_some(), "HARNESS: no signature");
            } else {
                ensure_eq!(kids[0].text(), expected.text(), "wrong type", "{code}");
            }
        }
    }
    Ok(())
}

fn documentation(g: &mut Gen) -> CaseResult {
    let n = 1 + g.usize(2);
    let mut cases: BTreeMap<Vec<String>, ModuleCase> = BTreeMap::new();
    for _ in 0..n {
        let c = make_module(g);
        cases.insert(c.components.clone(), c);
    }
    let hidden: HashSet<String> =
        if g.chance(1, 3) { g.pick(&[vec!["Foo"], vec!["X", "Zed"]]).iter().map(|s| s.to_string()).collect() } else { HashSet::new() };
    let package = doc::Package {
        name: g.pick(&["Core", "Foo", "My_pkg"]).to_string(),
        url: "https://example.com/x".into(),
        description: g.pick(&["A package.", "Some *text*", "多"]).to_string(),
        type_: g.pick(&["library", "application", "system"]).to_string(),
    };
    let language = g.pick(&["pen", "text"]).to_string();
    let mut modules = BTreeMap::new();
    for (components, c) in &cases {
        let (Ok(m), Ok(comments)) = (parse::parse(&c.text.text, "p"), parse::parse_comments(&c.text.text, "p")) else {
            g.discard();
            return Ok(());
        };
        let path: ast::ModulePath = ast::ExternalModulePath::new(package.name.clone(), components.clone()).into();
        modules.insert(path, (m, comments));
    }
    let configuration = doc::Configuration { language: language.clone(), private_names: hidden.clone() };
    let out = doc::generate(&package, &modules, &configuration);
    g.describe(|| {
        let texts: Vec<String> = cases.values().map(|c| format!("---- {}\n{}", c.components.join("'"), c.text.text)).collect();
        format!("{}\n---- documentation\n{out}", texts.join("\n"))
    });

    let sections = match read(&out) {
        Ok(s) => s,
        Err(e) => fail!("malformed", "{e}\n{out}"),
    };
    let mut sections = sections.iter();
    let mut next = |what: &str| sections.next().ok_or_else(|| pbt::Failure::new("section missing", format!("{what} is missing in\n{out}")));
    let head = next("package")?;
    ensure_eq!((head.level, head.title.as_str()), (1, format!("`{}` package", package.name).as_str()), "wrong package", "");
    ensure_eq!(head.body.first(), Some(&Paragraph::Text(package.description.clone())), "wrong description", "");
    ensure!(
        matches!(&head.body[1..], [Paragraph::Code(l, c)] if l == "json" && c.contains(&format!("\"type\": \"{}\"", package.type_))),
        "wrong package type",
        "{head:?}"
    );
    let install = next("install")?;
    ensure!(
        install.level == 2
            && matches!(&install.body[..], [Paragraph::Code(l, c)]
                if l == "json" && c.contains(&format!("\"{}\": \"{}\"", package.name, package.url))),
        "wrong install section",
        "{install:?}"
    );
    let mut entry_count = 0;
    let mut comment_count = 0;
    for (components, case) in &cases {
        if !components.iter().all(|c| public(c)) {
            g.label("private module");
            continue;
        }
        let (types, functions, comment) = entries(case, &hidden);
        g.label_if(!comment.is_empty(), "module comment");
        let s = next("module")?;
        let title = format!("`{}'{}` module", package.name, components.join("'"));
        ensure_eq!((s.level, &s.title, &s.body), (2, &title, &comment), "wrong module", "");
        for (title, group, empty) in
            [("Types", &types, "No types are defined."), ("Functions", &functions, "No functions are defined.")]
        {
            let s = next(title)?;
            ensure_eq!((s.level, s.title.as_str()), (3, title), "wrong group", "");
            let expected = if group.is_empty() { vec![Paragraph::Text(empty.into())] } else { vec![] };
            ensure_eq!(s.body, expected, "wrong group text", "");
            for entry in group.iter() {
                entry_count += 1;
                comment_count += entry.comments.len();
                check_entry(&language, next(&entry.name)?, entry)?;
            }
        }
    }
    if let Some(s) = sections.next() {
        fail!("extra section", "{s:?} in\n{out}");
    }
    g.label_if(comment_count > 0, "commented entries");
    if entry_count >= 2 {
        g.nontrivial(&out);
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "S08",
        level: "exploration",
        rule: "Packages of one to three modules, drawn from the model of the grammar, with comment lines between definitions, public and \
            private names, hidden names and private fields. Non-trivial: at least two entries are documented.",
        assumptions: &[
            "Comments hold no Markdown headings or code fences; they stand on lines of their own between definitions.",
            "Signatures and type definitions are compared by parsing them again.",
        ],
        campaigns: vec![Campaign::new("packages", 100_000, 3_000_000, documentation)],
    }]
}

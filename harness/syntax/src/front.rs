//! S01 totality, S02 structure, S03 positions, S04 comments.

use crate::dump;
use crate::layout::{render, Options, Style, Text};
use crate::model::{Limits, Maker, Tok, Writer, D, M};
use pbt::{ensure, ensure_eq, fail, Campaign, CaseResult, Gen, Property};
use position::Position;

pub const LIMITS: Limits = Limits { nodes: 40, backtracking: 4 };

pub struct Case {
    pub text: Text,
    pub toks: Vec<Tok>,
    pub tree: D<usize>,
    pub model: M,
}

pub fn options(g: &mut Gen, comments: bool) -> Options {
    let style = match g.weighted(&[2, 3, 4]) {
        0 => Style::Compact,
        1 => Style::Conventional,
        _ => Style::Wild,
    };
    Options {
        style,
        comments: if comments && style != Style::Compact && g.chance(2, 3) { *g.pick(&[5, 15, 30]) } else { 0 },
        carriage_returns: style == Style::Wild && g.chance(1, 5),
        top_level: false,
    }
}

pub fn module_case(g: &mut Gen, comments: bool, noise: bool) -> Case {
    let depth = 1 + g.below(4) as u32;
    let model = Maker { g, limits: LIMITS }.module(depth);
    let options = options(g, comments);
    let mut toks = vec![];
    let noise = noise && g.bool();
    let tree = Writer::new(g, &mut toks, noise).module(&model);
    let text = render(g, &toks, &options);
    g.label(format!("style {:?}", options.style));
    g.label_if(!text.comments.is_empty(), "has comments");
    g.label_if(tree.count() > 60, "more than 60 nodes");
    Case { text, toks, tree, model }
}

fn compare(expected: &D<usize>, actual: &D<Position>) -> Option<String> {
    if expected.label != actual.label || expected.kids.len() != actual.kids.len() {
        return Some(format!("expected {}\n  got      {}", expected.text(), actual.text()));
    }
    expected.kids.iter().zip(&actual.kids).find_map(|(e, a)| compare(e, a))
}

pub fn structure(g: &mut Gen) -> CaseResult {
    let case = module_case(g, true, true);
    g.describe(|| case.text.text.clone());
    if case.tree.count() > 15 {
        g.nontrivial(&case.text.text);
    }
    labels(g, &case.tree);
    match parse::parse(&case.text.text, "p") {
        Err(e) => fail!("module rejected", "a module of the grammar is rejected: {e}"),
        Ok(m) => {
            if let Some(difference) = compare(&case.tree, &dump::module(&m)) {
                fail!("structure differs", "{difference}");
            }
        }
    }
    Ok(())
}

fn labels(g: &mut Gen, tree: &D<usize>) {
    let mut seen = std::collections::BTreeSet::new();
    tree.each(&mut |d| {
        if !d.kids.is_empty() {
            seen.insert(d.label.split_whitespace().next().unwrap_or("").to_string());
        }
    });
    for s in seen {
        g.label(format!("with {s}"));
    }
}

/// Dense operator expressions: precedence and associativity.
pub fn operators(g: &mut Gen) -> CaseResult {
    use crate::model::{E, B, Fun, L, T, OPERATORS};
    fn tree(g: &mut Gen, n: u64) -> E {
        if n == 0 {
            return match g.weighted(&[4, 1, 1, 1, 1]) {
                0 => E::Var(g.pick(&["x", "y", "z"]).to_string()),
                1 => E::Num(g.below(10).to_string()),
                2 => E::Not(Box::new(E::Var("x".into()))),
                3 => E::Try(Box::new(E::Var("x".into()))),
                _ => E::Call(Box::new(E::Var("x".into())), vec![E::Num("-1".into())]),
            };
        }
        match g.weighted(&[12, 1, 1]) {
            0 => {
                let left = g.below(n);
                let o = g.pick(OPERATORS).0;
                E::Bin(o, Box::new(tree(g, left)), Box::new(tree(g, n - 1 - left)))
            }
            1 => E::Not(Box::new(tree(g, n - 1))),
            _ => E::Try(Box::new(tree(g, n - 1))),
        }
    }
    let n = 2 + g.below(9);
    let e = tree(g, n);
    let model = M {
        imports: vec![],
        foreign: vec![],
        types: vec![],
        functions: vec![Fun {
            name: "f".into(),
            export: None,
            lambda: L {
                arguments: vec![],
                result: T::Name("t".into()),
                body: Box::new(B { statements: vec![], last: Box::new(e) }),
            },
        }],
    };
    let mut toks = vec![];
    let noise = g.bool();
    let tree = Writer::new(g, &mut toks, noise).module(&model);
    let options = options(g, false);
    let text = render(g, &toks, &options);
    g.describe(|| text.text.clone());
    if n >= 3 {
        g.nontrivial(&text.text);
    }
    match parse::parse(&text.text, "p") {
        Err(e) => fail!("operators rejected", "an operator expression is rejected: {e}"),
        Ok(m) => {
            if let Some(difference) = compare(&tree, &dump::module(&m)) {
                fail!("grouping differs", "{difference}");
            }
        }
    }
    Ok(())
}

pub fn positions(g: &mut Gen) -> CaseResult {
    let case = module_case(g, true, true);
    g.describe(|| case.text.text.clone());
    let lines = case.text.text.lines().count();
    if lines > 3 {
        g.nontrivial(&case.text.text);
    }
    g.label_if(!case.text.text.is_ascii(), "multi-byte");
    g.label_if(lines > 10, "more than 10 lines");
    let path = g.pick(&["p", "dir/Foo.pen", "", "é x"]).to_string();
    let Ok(m) = parse::parse(&case.text.text, &path) else {
        // S02 decides acceptance.
        g.discard();
        return Ok(());
    };
    let actual = dump::module(&m);
    if compare(&case.tree, &actual).is_some() {
        g.discard();
        return Ok(());
    }
    check_positions(&case.text, &path, &case.tree, &actual)
}

fn check_positions(text: &Text, path: &str, expected: &D<usize>, actual: &D<Position>) -> CaseResult {
    match (&expected.position, &actual.position) {
        (None, None) => {}
        (Some(e), Some(a)) => {
            let offset = text.offsets[*e];
            let (line, column, quoted) = text.line_column(offset);
            let got = (a.line_number(), a.column_number(), a.line().to_string());
            ensure_eq!(got, (line, column, quoted.clone()), format!("position of {}", expected.label), "{}", expected.text());
            ensure_eq!(a.path(), path, "position path", "{}", expected.text());
            let prefix = format!("{line}:{column}:");
            let display =
                format!("{path}\n{prefix}\t{quoted}\n{}\t{}^", " ".repeat(prefix.len()), " ".repeat(column - 1));
            ensure_eq!(a.to_string(), display, "position display", "rendering of a position");
            let message = position::format_message(a, "some message");
            ensure_eq!(
                message,
                format!("{display}\n{}\t{}some message", " ".repeat(prefix.len()), " ".repeat(column - 1)),
                "position message",
                "rendering of a position with a message"
            );
        }
        _ => fail!("HARNESS", "harness: position presence differs"),
    }
    for (e, a) in expected.kids.iter().zip(&actual.kids) {
        check_positions(text, path, e, a)?;
    }
    Ok(())
}

pub fn comments(g: &mut Gen) -> CaseResult {
    let case = module_case(g, true, true);
    check_comments(g, &case.text)
}

/// Comment extraction over bare sequences of comments, strings and white space.
pub fn comment_soup(g: &mut Gen) -> CaseResult {
    let mut t = Text { text: String::new(), offsets: vec![], comments: vec![] };
    for _ in 0..g.len(14) {
        match g.weighted(&[4, 4, 3, 3]) {
            0 => {
                crate::layout::comment(g, &mut t);
                t.text.push_str(*g.pick(&["\n", "\r\n", "\r"]));
            }
            1 => {
                let s = Maker { g, limits: LIMITS }.string();
                t.text.push_str(&format!("\"{s}\""));
            }
            2 => t.text.push_str(g.pick(&[" ", "\n", "\t", "\n\n", "\r\n"])),
            _ => t.text.push_str(g.pick(&["x", "(", "}", "=", "é", "'", "\\", "1.5", "..."])),
        }
    }
    if g.bool() {
        crate::layout::comment(g, &mut t);
    }
    check_comments(g, &t)
}

fn check_comments(g: &mut Gen, text: &Text) -> CaseResult {
    g.describe(|| text.text.clone());
    if !text.comments.is_empty() {
        g.nontrivial(&text.text);
    }
    g.label_if(text.text.contains('"') && !text.comments.is_empty(), "strings and comments");
    let got = match parse::parse_comments(&text.text, "p") {
        Ok(c) => c,
        Err(e) => {
            fail!("comments rejected", "comment extraction fails on a text of valid tokens: {e}")
        }
    };
    let expected: Vec<_> = text
        .comments
        .iter()
        .map(|(o, c)| {
            let (line, column, quoted) = text.line_column(*o);
            (c.clone(), line, column, quoted)
        })
        .collect();
    let got: Vec<_> = got
        .iter()
        .map(|c| {
            let p = c.position();
            (c.line().to_string(), p.line_number(), p.column_number(), p.line().to_string())
        })
        .collect();
    ensure_eq!(got, expected, "comments differ", "extracted comments");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ totality

const SOUP: &[&str] = &[
    "import", "foreign", "type", "if", "else", "for", "in", "as", "export", "x", "y", "Foo'Bar", "'Foo", "foo'", "'", "=", "==",
    "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "&", "|", "!", "?", ".", "...", ",", ":", "(", ")", "{", "}", "\\(", "\\",
    "\"", "\"a\"", "\"\\x0\"", "\"\\", "#", "# c\n", "\n", "\r\n", " ", "1", "0b", "0b2", "0x", "0xG", "1.", ".5", "1e", "1e+", "-1", "é",
    "😀", "\u{0}", "_", "\t", "\"c\"", "x = \\() t { x }", "type a = ", "type b {", "nan", "inf", "infinity", "NaN", "0b1", "1_0",
];

/// Backtracking makes deeply nested brackets and ifs slow to reject; the inputs keep them few.
fn tame(s: &str) -> bool {
    s.matches('[').count() <= 7 && s.matches("if").count() <= 7 && s.matches('(').count() <= 120
}

pub fn soup(g: &mut Gen) -> CaseResult {
    let mut s = String::new();
    if g.chance(2, 3) {
        s.push_str("f = \\() t { ");
    }
    let mut brackets = 0;
    for _ in 0..g.len(60) {
        if g.chance(1, 16) && brackets < 6 {
            brackets += 1;
            s.push_str(*g.pick(&["[", "[t ", "if [", "if x = "]));
        }
        if g.chance(1, 12) {
            s.push(']');
        }
        let piece = *g.pick(SOUP);
        s.push_str(piece);
        if g.chance(2, 3) {
            s.push(' ');
        }
    }
    total(g, s)
}

pub fn random_text(g: &mut Gen) -> CaseResult {
    let n = g.len(80);
    let s: String = (0..n)
        .map(|_| match g.weighted(&[6, 2, 1]) {
            0 => (g.below(95) as u8 + 32) as char,
            1 => *g.pick(&['\n', '\r', '\t', '"', '#', '\\', '\'', '{', '}', '\u{85}', '\u{2028}', '\u{feff}']),
            _ => char::from_u32(g.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
        })
        .collect();
    total(g, s)
}

pub fn mutated(g: &mut Gen) -> CaseResult {
    let case = module_case(g, true, true);
    let mut chars: Vec<char> = case.text.text.chars().collect();
    for _ in 0..1 + g.usize(4) {
        let n = chars.len();
        let at = g.usize(n + 1);
        match g.weighted(&[3, 3, 2, 2, 2, 2]) {
            0 if n > 0 => {
                chars.remove(at.min(n - 1));
            }
            1 => {
                let piece: Vec<char> = g.pick(SOUP).chars().collect();
                chars.splice(at..at, piece);
            }
            2 => chars.truncate(at),
            3 => {
                let end = (at + g.usize(20)).min(n);
                chars.drain(at..end);
            }
            4 => {
                let end = (at + g.usize(20)).min(n);
                let piece = chars[at..end].to_vec();
                let to = g.usize(n + 1);
                chars.splice(to..to, piece);
            }
            _ if n > 1 => {
                let other = g.usize(n);
                chars.swap(at.min(n - 1), other);
            }
            _ => {}
        }
    }
    total(g, chars.into_iter().collect())
}

/// The language's own sources, cut at every length: a fixed slice of them per case.
pub fn truncated_sources(g: &mut Gen) -> CaseResult {
    let index = g.below(u64::MAX) as usize;
    let sources = sources();
    let (_, source) = &sources[index % sources.len()];
    let chars: Vec<char> = source.chars().collect();
    let cut = ((index / sources.len()).wrapping_mul(7919)) % (chars.len() + 1);
    total(g, chars[..cut].iter().collect())
}

pub fn sources() -> &'static Vec<(String, String)> {
    static SOURCES: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    SOURCES.get_or_init(|| {
        let mut paths = vec![];
        let root = pbt::repo_root();
        for d in ["packages", "examples", "test", "cmd", "lib", "benchmark"] {
            walk(&root.join(d), &mut paths);
        }
        paths.sort();
        paths
            .into_iter()
            .filter_map(|p| Some((p.strip_prefix(&root).unwrap().display().to_string(), std::fs::read_to_string(p).ok()?)))
            .collect()
    })
}

fn walk(d: &std::path::Path, paths: &mut Vec<std::path::PathBuf>) {
    let Ok(entries) = std::fs::read_dir(d) else { return };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() {
            if !p.ends_with("target") && !p.ends_with(".git") {
                walk(&p, paths);
            }
        } else if p.extension().is_some_and(|x| x == "pen") {
            paths.push(p);
        }
    }
}

fn total(g: &mut Gen, s: String) -> CaseResult {
    if !tame(&s) {
        g.discard();
        return Ok(());
    }
    g.describe(|| format!("{s:?}"));
    let path = "some path";
    let parsed = parse::parse(&s, path);
    let comments = parse::parse_comments(&s, path);
    g.label(if parsed.is_ok() { "accepted" } else { "rejected" });
    if parsed.is_err() && s.len() > 10 {
        g.nontrivial(&s);
    }
    if let Err(e) = &parsed {
        g.label_if(e.to_string().contains("expected"), "expected-character error");
        error_in_input(&s, path, &e.to_string())?;
    }
    if let Err(e) = &comments {
        error_in_input(&s, path, &e.to_string())?;
    }
    if parsed.is_ok() && s.contains(|c: char| !c.is_whitespace()) {
        ensure!(comments.is_ok(), "comments of a module rejected", "the module parses but its comments do not: {:?}", comments);
    }
    // The same text gives the same answer.
    let again = parse::parse(&s, path);
    ensure!(
        match (&parsed, &again) {
            (Ok(a), Ok(b)) => dump::module(a).text() == dump::module(b).text(),
            (Err(a), Err(b)) => a == b,
            _ => false,
        },
        "nondeterministic",
        "parsing the same text twice differs"
    );
    Ok(())
}

/// The rendered error ends with: path, line:column: TAB line, caret line.
fn error_in_input(s: &str, path: &str, message: &str) -> CaseResult {
    let lines: Vec<&str> = s.split('\n').collect();
    let Some((first, rest)) = message.split_once(&format!("\n{path}\n")) else {
        fail!("error format", "an error does not name its path: {message:?}")
    };
    ensure!(!first.is_empty(), "error format", "an error has no message: {message:?}");
    let mut numbers = rest.splitn(3, ':');
    let line: usize = numbers.next().unwrap_or("").parse().unwrap_or(0);
    let column: usize = numbers.next().unwrap_or("").parse().unwrap_or(0);
    ensure!((1..=lines.len()).contains(&line), "error line", "line {line} of {} lines: {message:?}", lines.len());
    let quoted = lines[line - 1];
    ensure!((1..=quoted.len() + 1).contains(&column), "error column", "column {column} in {quoted:?}: {message:?}");
    ensure!(quoted.is_char_boundary(column - 1), "error column", "column {column} splits a character of {quoted:?}");
    let prefix = format!("{line}:{column}:");
    let expected = format!("{prefix}\t{quoted}\n{}\t{}^", " ".repeat(prefix.len()), " ".repeat(column - 1));
    ensure_eq!(rest, expected, "error quote", "the quoted line of an error");
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "S01",
            level: "exploration",
            rule: "A case is a text: token soups, random Unicode text, valid modules with 1..4 random edits, and the \
                   repository's own .pen files cut at scattered lengths. Non-trivial: longer than 10 bytes and rejected, \
                   so that an error location is checked; distinct by text.",
            assumptions: &[
                "At most 7 '[' and 7 'if' per text: the grammar backtracks over these, so deeper nesting is slow by design",
                "Text nested deeper than about a hundred brackets is not generated (recursive descent)",
            ],
            campaigns: vec![
                Campaign::new("soup", 200_000, 2_000_000, soup),
                Campaign::new("random", 200_000, 1_500_000, random_text),
                Campaign::new("mutated", 120_000, 1_500_000, mutated),
                Campaign::new("truncated sources", 4_000, 60_000, truncated_sources),
            ],
        },
        Property {
            id: "S02",
            level: "exploration",
            rule: "A case is a random syntax tree (imports, foreign imports, type definitions, functions over every \
                   expression form) written out in a random layout with redundant parentheses, trailing separators and \
                   comments. Non-trivial: more than 15 tree nodes, or an operator tree of at least 3 operators; \
                   distinct by text.",
            assumptions: &[
                "The written layout keeps apart tokens whose adjacency the grammar reads differently (a sign after an \
                 operand, a map literal after a name)",
            ],
            campaigns: vec![
                Campaign::new("modules", 130_000, 1_200_000, structure),
                Campaign::new("operators", 130_000, 1_000_000, operators),
            ],
        },
        Property {
            id: "S03",
            level: "exploration",
            rule: "A case is a module as in S02; every position of its parsed tree is compared with the offset its token \
                   was written at. Non-trivial: more than 3 lines; distinct by text.",
            assumptions: &["Columns count bytes, as the quoted examples in the tests do for ASCII text"],
            campaigns: vec![Campaign::new("modules", 120_000, 1_200_000, positions)],
        },
        Property {
            id: "S04",
            level: "exploration",
            rule: "A case is a module as in S02, or a sequence of comments, string literals, blanks and other tokens. \
                   Non-trivial: has a comment; distinct by text.",
            assumptions: &[],
            campaigns: vec![
                Campaign::new("modules", 200_000, 800_000, comments),
                Campaign::new("soup", 250_000, 1_000_000, comment_soup),
            ],
        },
    ]
}

//! S05 formatting preserves the program, S06 keeps comments, S07 is stable.

use crate::dump;
use crate::front::{module_case, Case, LIMITS};
use crate::layout::{render, Options, Style};
use crate::model::{Glue, Maker, Writer, D};
use pbt::{ensure, fail, Campaign, CaseResult, Failure, Gen, Property};

/// The program up to what formatting may change: import order, order of unqualified names, nesting of unions.
pub fn canonical<P: Clone>(tree: &D<P>) -> D<()> {
    let mut kids: Vec<D<()>> = tree.kids.iter().map(canonical).collect();
    match tree.label.as_str() {
        "imports" => kids.sort_by_key(|k| k.text()),
        "import" => kids.sort_by_key(|k| (k.label == "name", k.text())),
        "union" => {
            kids = kids.into_iter().flat_map(|k| if k.label == "union" { k.kids } else { vec![k] }).collect();
        }
        _ => {}
    }
    D { label: tree.label.clone(), position: None, kids }
}

fn difference(a: &D<()>, b: &D<()>) -> Option<String> {
    if a.label != b.label || a.kids.len() != b.kids.len() {
        return Some(format!("before: {}\n  after:  {}", a.text(), b.text()));
    }
    a.kids.iter().zip(&b.kids).find_map(|(a, b)| difference(a, b))
}

pub struct Formatted {
    pub before: D<()>,
    pub comments: Vec<ast::Comment>,
    pub text: String,
}

pub fn format(text: &str) -> Result<Option<Formatted>, Failure> {
    let (Ok(m), Ok(c)) = (parse::parse(text, "p"), parse::parse_comments(text, "p")) else { return Ok(None) };
    let out = ::format::format(&m, &c);
    Ok(Some(Formatted { before: canonical(&dump::module(&m)), comments: c, text: out }))
}

fn preserves(g: &mut Gen, text: &str) -> CaseResult {
    let Some(f) = format(text)? else {
        g.discard();
        return Ok(());
    };
    g.describe(|| format!("{text}\n-------- formatted:\n{}", f.text));
    match parse::parse(&f.text, "p") {
        Err(e) => fail!("formatted text rejected", "the formatted text does not parse: {e}\n{}", f.text),
        Ok(m) => {
            if let Some(d) = difference(&f.before, &canonical(&dump::module(&m))) {
                fail!("program changed", "{d}\nformatted:\n{}", f.text);
            }
        }
    }
    Ok(())
}

fn stable(g: &mut Gen, text: &str) -> CaseResult {
    let Some(f) = format(text)? else {
        g.discard();
        return Ok(());
    };
    let Some(twice) = format(&f.text)? else {
        g.discard();
        return Ok(());
    };
    g.describe(|| format!("{text}\n-------- formatted:\n{}\n-------- twice:\n{}", f.text, twice.text));
    if multi_line(&f.text) {
        g.label("excluded: an operation or string over several lines");
        g.discard();
        return Ok(());
    }
    ensure!(twice.text == f.text, "not idempotent", "formatting twice differs\nonce:\n{}\ntwice:\n{}", f.text, twice.text);
    shape(&f.text)
}

/// The known causes of instability: strings over several lines and operations whose operator is not on the line
/// where they begin.
fn multi_line(formatted: &str) -> bool {
    fn check(d: &D<position::Position>) -> bool {
        let line = |d: &D<position::Position>| d.position.as_ref().map(|p| p.line_number());
        fn first(d: &D<position::Position>) -> &D<position::Position> {
            if (d.label.starts_with("bin") || matches!(d.label.as_str(), "try" | "call" | "field")) && !d.kids.is_empty() {
                first(&d.kids[0])
            } else {
                d
            }
        }
        line(d) != line(first(d)) || d.label == "str" && d.kids[0].label.contains("\\n") || d.kids.iter().any(check)
    }
    parse::parse(formatted, "p").is_ok_and(|m| check(&dump::module(&m)))
}

fn shape(text: &str) -> CaseResult {
    if !text.is_empty() {
        ensure!(text.ends_with('\n') && !text.ends_with("\n\n"), "final newline", "{text:?}");
        ensure!(!text.starts_with('\n'), "leading newline", "{text:?}");
        // Strings over several lines are left out already.
        for line in text.lines() {
            ensure!(!line.ends_with([' ', '\t']), "trailing blank", "{line:?} in\n{text}");
        }
    }
    Ok(())
}

/// Whether `got` is `expected` where consecutive line-end comments may share a line.
fn joins(expected: &[String], got: &[String]) -> bool {
    let Some((first, rest)) = got.split_first() else { return expected.is_empty() };
    let mut text = String::new();
    for (i, e) in expected.iter().enumerate() {
        if i > 0 {
            text.push_str(" #");
        }
        text.push_str(e);
        if text.len() > first.len() {
            return false;
        }
        if &text == first && joins(&expected[i + 1..], rest) {
            return true;
        }
    }
    false
}

fn keeps_comments(g: &mut Gen, text: &str) -> CaseResult {
    let Some(f) = format(text)? else {
        g.discard();
        return Ok(());
    };
    g.describe(|| format!("{text}\n-------- formatted:\n{}", f.text));
    let expected: Vec<String> = f.comments.iter().map(|c| c.line().trim_end().to_string()).collect();
    let got = match parse::parse_comments(&f.text, "p") {
        Ok(c) => c.iter().map(|c| c.line().to_string()).collect::<Vec<_>>(),
        Err(e) => fail!("comments of formatted text rejected", "{e}\n{}", f.text),
    };
    if !joins(&expected, &got) {
        let (mut a, mut b) = (expected.clone(), got.clone());
        a.sort();
        b.sort();
        let signature = if a == b { "comments reordered" } else { "comments changed" };
        fail!(signature, "expected {expected:?}\ngot      {got:?}\nbefore\n{text}\nformatted:\n{}\n", f.text);
    }
    Ok(())
}

fn note(g: &mut Gen, case: &Case) {
    if case.tree.count() > 20 && case.text.text.lines().count() > 2 {
        g.nontrivial(&case.text.text);
    }
}

fn plain(g: &mut Gen) -> Case {
    let c = module_case(g, false, true);
    note(g, &c);
    c
}

fn wild_comments(g: &mut Gen) -> Case {
    let c = module_case(g, true, true);
    note(g, &c);
    c
}

/// Comments on lines of their own and at line ends, as people write them.
fn conventional(g: &mut Gen) -> Case {
    conventional_with(g, false)
}

fn conventional_with(g: &mut Gen, top_level: bool) -> Case {
    let depth = 1 + g.below(4) as u32;
    let model = Maker { g, limits: LIMITS }.module(depth);
    let mut toks = vec![];
    let tree = Writer::new(g, &mut toks, false).module(&model);
    let text = render(g, &toks, &Options { style: Style::Conventional, comments: 20, carriage_returns: false, top_level });
    let c = Case { text, toks, tree, model };
    note(g, &c);
    c
}

fn s05_plain(g: &mut Gen) -> CaseResult {
    let c = plain(g);
    preserves(g, &c.text.text)
}
fn s05_conventional(g: &mut Gen) -> CaseResult {
    let c = conventional(g);
    preserves(g, &c.text.text)
}
fn s05_wild(g: &mut Gen) -> CaseResult {
    let c = wild_comments(g);
    preserves(g, &c.text.text)
}
fn s06_conventional(g: &mut Gen) -> CaseResult {
    let c = conventional(g);
    keeps_comments(g, &c.text.text)
}
fn s06_wild(g: &mut Gen) -> CaseResult {
    let c = wild_comments(g);
    keeps_comments(g, &c.text.text)
}
fn s07_plain(g: &mut Gen) -> CaseResult {
    let c = plain(g);
    stable(g, &c.text.text)
}
fn s07_conventional(g: &mut Gen) -> CaseResult {
    let c = conventional_with(g, true);
    stable(g, &c.text.text)
}


/// Two layouts of one program that differ only in the blanks between tokens of a line.
fn s07_blanks(g: &mut Gen) -> CaseResult {
    let c = conventional_with(g, false);
    let text = &c.text.text;
    let mut varied = String::new();
    let mut last = 0;
    for (tok, &offset) in c.toks.iter().zip(&c.text.offsets) {
        varied.push_str(&text[last..offset]);
        last = offset;
        if tok.glue != Glue::Tight && g.chance(1, 3) {
            varied.push_str(g.pick(&[" ", "  ", "\t", "      "]));
        }
    }
    varied.push_str(&text[last..]);
    let Some(a) = format(text)? else {
        g.discard();
        return Ok(());
    };
    let Some(b) = format(&varied)? else { fail!("blanks change validity", "parses\n{text}\nrejected\n{varied}") };
    g.describe(|| format!("{text}\n-------- and\n{varied}\n-------- formatted:\n{}", a.text));
    ensure!(a.text == b.text, "blanks change format", "{text}\nformats to\n{}\nbut\n{varied}\nto\n{}", a.text, b.text);
    Ok(())
}

const UNSTABLE: &[(&str, &str)] = &[
    ("string over lines", "x = \\() x {\n  \"\n\" x\n}\n"),
    ("operation over lines", "x = \\() x {\n  x\n  0 | if x {\n    x\n  } else {\n    x\n  }\n}\n"),
    ("comment after block", "x = \\() x {\n  x\n  if x {\n    x\n  } else {\n    x\n  #\n  }\n  x\n  x\n}\n"),
];

/// Fixed inputs, one for each known cause of instability that the other campaigns leave out.
fn s07_fixed(g: &mut Gen) -> CaseResult {
    let (name, text) = *g.pick(UNSTABLE);
    g.nontrivial(&name);
    g.describe(|| text.to_string());
    let f = format(text)?.unwrap();
    let twice = format(&f.text)?.unwrap();
    ensure!(twice.text == f.text, format!("not idempotent: {name}"), "{}\nthen\n{}", f.text, twice.text);
    Ok(())
}

fn repository_files() -> &'static [(String, String)] {
    static FILES: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    FILES.get_or_init(|| {
        fn visit(directory: &std::path::Path, files: &mut Vec<(String, String)>) {
            let Ok(entries) = std::fs::read_dir(directory) else { return };
            let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
            paths.sort();
            for path in paths {
                let name = path.file_name().unwrap().to_string_lossy().to_string();
                if path.is_dir() && !path.is_symlink() && name != "target" && !name.starts_with('.') {
                    visit(&path, files);
                } else if name.ends_with(".pen") {
                    if let Ok(text) = std::fs::read_to_string(&path) {
                        files.push((path.display().to_string(), text));
                    }
                }
            }
        }
        let mut files = vec![];
        visit(&pbt::repo_root(), &mut files);
        files
    })
}

/// A file of the repository, in half of the cases with some lines removed, repeated or moved and line breaks changed.
fn repository_text(g: &mut Gen) -> String {
    let files = repository_files();
    if files.is_empty() {
        return String::new();
    }
    let text = &g.pick(files).1;
    if g.bool() {
        return text.clone();
    }
    let mut lines: Vec<String> = text.lines().map(String::from).collect();
    for _ in 0..=g.usize(4) {
        if lines.is_empty() {
            break;
        }
        let i = g.usize(lines.len() - 1);
        match g.below(6) {
            0 => {
                lines.remove(i);
            }
            1 => lines.insert(i, lines[i].clone()),
            2 => lines.insert(i, String::new()),
            3 => lines.insert(i, "  # comment".into()),
            4 => lines[i].push_str(" # end"),
            _ if i + 1 < lines.len() && !lines[i].contains('#') => {
                let next = lines.remove(i + 1);
                lines[i].push(' ');
                lines[i].push_str(next.trim_start());
            }
            _ => {}
        }
    }
    lines.join("\n")
}

fn repository(g: &mut Gen) -> String {
    let text = repository_text(g);
    if text.len() > 200 {
        g.nontrivial(&text);
    }
    text
}

fn s05_repository(g: &mut Gen) -> CaseResult {
    let text = repository(g);
    preserves(g, &text)
}
fn s06_repository(g: &mut Gen) -> CaseResult {
    let text = repository(g);
    keeps_comments(g, &text)
}
fn s07_repository(g: &mut Gen) -> CaseResult {
    let mut text = repository(g);
    if let Ok(comments) = parse::parse_comments(&text, "p") {
        if !comments.is_empty() {
            g.label("comments removed");
            let mut lines: Vec<String> = text.lines().map(String::from).collect();
            for c in &comments {
                let p = c.position();
                lines[p.line_number() - 1].truncate(p.column_number() - 1);
            }
            text = lines.join("\n");
        }
    }
    stable(g, &text)
}

const RULE: &str = "Programs come from a model of the whole grammar (imports, foreign declarations, records, aliases, functions, every \
    type and expression form) laid out at random, or from the .pen files of the repository with random edits of lines. Non-trivial: \
    the program has more than 20 syntax nodes and more than two lines (repository files: over 200 bytes).";

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "S05",
            level: "exploration",
            rule: RULE,
            assumptions: &[
                "Programs are compared by their syntax trees as the parser gives them (checked by S02), up to the order of imports and \
                 unqualified names and the nesting of unions.",
            ],
            campaigns: vec![
                Campaign::new("plain", 60_000, 4_000_000, s05_plain),
                Campaign::new("conventional", 50_000, 3_000_000, s05_conventional),
                Campaign::new("wild", 60_000, 3_000_000, s05_wild),
                Campaign::new("repository", 8_000, 200_000, s05_repository),
            ],
        },
        Property {
            id: "S06",
            level: "exploration",
            rule: RULE,
            assumptions: &[
                "Comments are found in both texts with the parser's own comment extraction (checked by S04).",
                "Line-end comments of lines that the formatter joins share a line; a case may not join other comments.",
            ],
            campaigns: vec![
                Campaign::new("conventional", 70_000, 4_000_000, s06_conventional),
                Campaign::new("wild", 80_000, 4_000_000, s06_wild),
                Campaign::new("repository", 8_000, 200_000, s06_repository),
            ],
        },
        Property {
            id: "S07",
            level: "exploration",
            rule: RULE,
            assumptions: &[
                "Idempotence is checked on programs without comments inside definitions, strings over several lines and operations whose \
                 operator is not on the line where they begin; one fixed input for each of these known exceptions is listed as a known finding.",
            ],
            campaigns: vec![
                Campaign::new("fixed", 60, 60, s07_fixed),
                Campaign::new("plain", 50_000, 3_000_000, s07_plain),
                Campaign::new("conventional", 50_000, 3_000_000, s07_conventional),
                Campaign::new("blanks", 30_000, 2_000_000, s07_blanks),
                Campaign::new("repository", 8_000, 200_000, s07_repository),
            ],
        },
    ]
}

//! Lays a token list out as text.

use crate::model::{Glue, Tok};
use pbt::Gen;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    /// One space or nothing.
    Compact,
    /// Definitions, statements and fields on lines of their own, one space elsewhere.
    Conventional,
    /// Any white space anywhere.
    Wild,
}

#[derive(Clone, Debug)]
pub struct Text {
    pub text: String,
    /// Byte offset of every token; one more for the end of the text.
    pub offsets: Vec<usize>,
    /// Offset of the comment mark and the text after it.
    pub comments: Vec<(usize, String)>,
}

pub const COMMENTS: &[&str] = &[
    "", " a", " foo bar", "é", " \"quoted\"", " \"", "# double", " trailing  ", "\ttab\t", " あ 😀", " \\", " if x { y }", " }",
];

pub struct Options {
    pub style: Style,
    /// A comment at a token boundary with probability n / 100.
    pub comments: u64,
    /// In Conventional style, comments only at line starts and line ends.
    pub carriage_returns: bool,
    /// Only comments on lines of their own between definitions.
    pub top_level: bool,
}

impl Text {
    pub fn line_column(&self, offset: usize) -> (usize, usize, String) {
        let before = &self.text[..offset];
        let line = before.matches('\n').count() + 1;
        let start = before.rfind('\n').map(|i| i + 1).unwrap_or(0);
        let end = self.text[start..].find('\n').map(|i| start + i).unwrap_or(self.text.len());
        (line, offset - start + 1, self.text[start..end].to_string())
    }
}

pub fn comment(g: &mut Gen, text: &mut Text) {
    let content = if g.chance(2, 3) {
        format!(" c{}", g.below(1000))
    } else {
        g.pick(COMMENTS).to_string()
    };
    text.comments.push((text.text.len(), content.clone()));
    text.text.push('#');
    text.text.push_str(&content);
}

fn newline(g: &mut Gen, options: &Options, text: &mut Text) {
    text.text.push_str(if options.carriage_returns && g.chance(1, 3) { "\r\n" } else { "\n" });
}

pub fn render(g: &mut Gen, toks: &[Tok], options: &Options) -> Text {
    let mut t = Text { text: String::new(), offsets: vec![], comments: vec![] };
    let mut depth = 0usize;
    for (i, tok) in toks.iter().enumerate() {
        if tok.glue != Glue::Tight {
            gap(g, &mut t, tok, i, options, &mut depth);
        }
        t.offsets.push(t.text.len());
        t.text.push_str(&tok.s);
        if tok.s == "{" {
            depth += 1;
        }
        if tok.s == "}" {
            depth = depth.saturating_sub(1);
        }
    }
    // The end.
    match options.style {
        Style::Compact => {}
        Style::Conventional => {
            if options.comments > 0 && !options.top_level && !t.text.is_empty() && g.chance(options.comments, 100) {
                t.text.push(' ');
                comment(g, &mut t);
            }
            t.text.push('\n');
            if options.comments > 0 && g.chance(options.comments, 100) {
                t.text.push('\n');
                comment(g, &mut t);
                t.text.push('\n');
            }
        }
        Style::Wild => {
            for _ in 0..g.usize(3) {
                let s = *g.pick(&["", " ", "\n", "\t"]);
                t.text.push_str(s);
                if options.comments > 0 && g.chance(options.comments, 100) {
                    comment(g, &mut t);
                    if g.bool() {
                        newline(g, options, &mut t);
                    } else {
                        break;
                    }
                }
            }
        }
    }
    t.offsets.push(t.text.len());
    t
}

fn gap(g: &mut Gen, t: &mut Text, tok: &Tok, index: usize, options: &Options, depth: &mut usize) {
    let start = t.text.len();
    match options.style {
        Style::Compact => {
            if tok.glue == Glue::Space && index > 0 || g.chance(1, 4) {
                t.text.push(' ');
            }
        }
        Style::Conventional => {
            if tok.line_start {
                let d = if tok.s == "}" { depth.saturating_sub(1) } else { *depth };
                if index > 0 {
                    if options.comments > 0 && !options.top_level && g.chance(options.comments, 100) {
                        t.text.push(' ');
                        comment(g, t);
                    }
                    t.text.push('\n');
                    if tok.s != "}" && g.chance(1, 4) {
                        t.text.push('\n');
                    }
                }
                let indent = " ".repeat(2 * d);
                if options.comments > 0
                    && (!options.top_level || *depth == 0)
                    && g.chance(options.comments, 100)
                {
                    for _ in 0..=g.usize(2) {
                        t.text.push_str(&indent);
                        comment(g, t);
                        t.text.push('\n');
                        if g.chance(1, 4) {
                            t.text.push('\n');
                        }
                    }
                }
                t.text.push_str(&indent);
            } else if index > 0 && (tok.glue == Glue::Space || !matches!(tok.s.as_str(), ")" | "]" | "," | "(" | "." | "?" | ":")) {
                t.text.push(' ');
            }
        }
        Style::Wild => {
            let n = g.weighted(&[6, 4, 2, 1]);
            for _ in 0..n {
                let s = match g.weighted(&[8, 4, 1, 1]) {
                    0 => " ",
                    1 => {
                        newline(g, options, t);
                        ""
                    }
                    2 => "\t",
                    _ => "   ",
                };
                t.text.push_str(s);
            }
            if options.comments > 0 && g.chance(options.comments, 100) {
                if t.text.len() == start && index > 0 && g.bool() {
                    t.text.push(' ');
                }
                comment(g, t);
                newline(g, options, t);
                if g.chance(1, 3) {
                    t.text.push_str("  ");
                }
            }
            if t.text.len() == start && tok.glue == Glue::Space && index > 0 {
                t.text.push(' ');
            }
        }
    }
}

//! P06: text in HTML.

use crate::s;
use pbt::{ensure, ensure_eq, Campaign, CaseResult, Gen, Property};
use pen_ffi::ByteString;

extern "C" {
    fn _pen_html_encode_text(x: ByteString) -> ByteString;
    fn _pen_html_encode_attribute(x: ByteString) -> ByteString;
}

fn text(g: &mut Gen) -> String {
    let n = g.len(40);
    (0..n)
        .map(|_| match g.weighted(&[4, 3, 2, 1, 1]) {
            0 => (*g.pick(&["&", "<", ">", "\"", "'", ";", "/", "=", "`", " "])).to_string(),
            1 => char::from(b'a' + g.below(26) as u8).to_string(),
            2 => (*g.pick(&["&amp;", "&lt;", "&#39;", "&quot", "</", "<!--", "-->", "]]>", "amp;", "#x27;", "<script>", "&#", "&#x", "&nbsp;"])).to_string(),
            3 => char::from(g.below(128) as u8).to_string(),
            _ => char::from_u32(g.below(0x110000) as u32).unwrap_or('é').to_string(),
        })
        .collect()
}

/// What a reader of HTML sees, or where the markup goes wrong.
fn decode(x: &str, quoted: bool) -> Result<String, String> {
    let mut y = String::new();
    let mut rest = x;
    while let Some(c) = rest.chars().next() {
        match c {
            '<' => return Err("opens a tag".into()),
            '>' => return Err("closes a tag".into()),
            '"' if quoted => return Err("closes the attribute".into()),
            '&' => {
                let (name, after) = rest[1..].split_once(';').ok_or("has an ampersand of no entity")?;
                y.push(match name {
                    "amp" => '&',
                    "lt" => '<',
                    "gt" => '>',
                    "quot" => '"',
                    "apos" => '\'',
                    _ => {
                        let code = if let Some(hex) = name.strip_prefix("#x").or(name.strip_prefix("#X")) {
                            u32::from_str_radix(hex, 16).ok()
                        } else {
                            name.strip_prefix('#').and_then(|n| n.parse().ok())
                        };
                        code.and_then(char::from_u32).ok_or(format!("has the entity {name:?}"))?
                    }
                });
                rest = after;
                continue;
            }
            _ => y.push(c),
        }
        rest = &rest[c.len_utf8()..];
    }
    Ok(y)
}

fn escapes(g: &mut Gen) -> CaseResult {
    let x = text(g);
    g.describe(|| format!("{x:?}"));
    if x.contains(['<', '>', '&', '"', '\'']) {
        g.nontrivial(&x);
    }
    for (name, y, quoted) in [
        ("text", unsafe { _pen_html_encode_text(s(x.as_bytes())) }, false),
        ("attribute", unsafe { _pen_html_encode_attribute(s(x.as_bytes())) }, true),
    ] {
        let Ok(y) = std::str::from_utf8(y.as_slice()) else { pbt::fail!("encoding", "the {name} of {x:?} is not text") };
        match decode(y, quoted) {
            Ok(z) => ensure_eq!(z, x, "lossless", "the {name} {y:?}"),
            Err(e) => pbt::fail!("safe", "the {name} {y:?} of {x:?} {e}"),
        }
        // Only the special characters are written differently.
        let plain: String = x.chars().filter(|c| !['<', '>', '&', '"', '\'', '/', '`', '='].contains(c)).collect();
        let kept = unsafe { if quoted { _pen_html_encode_attribute(s(plain.as_bytes())) } else { _pen_html_encode_text(s(plain.as_bytes())) } };
        ensure_eq!(kept.as_slice(), plain.as_bytes(), "other characters", "the {name} of {plain:?}");
    }
    Ok(())
}

fn invalid(g: &mut Gen) -> CaseResult {
    let mut x = text(g).into_bytes();
    let i = g.usize(x.len() + 1);
    x.insert(i, 0x80 + g.below(128) as u8);
    g.describe(|| format!("{x:?}"));
    if std::str::from_utf8(&x).is_ok() {
        g.discard();
        return Ok(());
    }
    g.nontrivial(&x);
    for (y, quoted) in [(unsafe { _pen_html_encode_text(s(&x)) }, false), (unsafe { _pen_html_encode_attribute(s(&x)) }, true)] {
        let y = String::from_utf8_lossy(y.as_slice()).into_owned();
        ensure!(decode(&y, quoted).is_ok(), "safe", "{y:?} of {x:?}");
    }
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "P06",
        level: "exploration",
        rule: "escapes: a text with a special character; invalid: a string that is not text",
        assumptions: &["Strings that are not text have to be safe and need not be kept."],
        campaigns: vec![Campaign::new("escapes", 1_000_000, 40_000_000, escapes), Campaign::new("invalid", 200_000, 10_000_000, invalid)],
    }
}

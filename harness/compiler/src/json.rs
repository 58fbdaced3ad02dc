//! L03: the JSON package, against the grammar of JSON.

use crate::{
    machine::{number, Machine, Res, Stop, Value},
    packages::{call, with_driver},
    pipeline::LAST,
};
use pbt::{ensure, ensure_eq, fail, CaseResult, Gen};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

const FUEL: u64 = 30_000_000;

const DRIVER: &str = r#"
import Json'Decode { Decode }
import Json'Encode { Encode }
import Json'Value { Value }

import foreign "c" _show_none \() none
import foreign "c" _show_boolean \(boolean) none
import foreign "c" _show_number \(number) none
import foreign "c" _show_string \(string) none
import foreign "c" _show_list \(number) none
import foreign "c" _show_map \(number) none
import foreign "c" _show_error \() none

NewNone = \() Value { Value'New(none) }
NewBoolean = \(x boolean) Value { Value'New(x) }
NewNumber = \(x number) Value { Value'New(x) }
NewString = \(x string) Value { Value'New(x) }
EmptyList = \() [Value] { [Value] }
Prepend = \(v Value, vs [Value]) [Value] { [Value v, ...vs] }
NewList = \(vs [Value]) Value { Value'New(vs) }
EmptyMap = \() {string: Value} { {string: Value} }
Insert = \(vs {string: Value}, k string, v Value) {string: Value} { {string: Value ...vs, k: v} }
NewMap = \(vs {string: Value}) Value { Value'New(vs) }

Show = \(v Value) none {
  if x = Value'Raw(v) as number {
    _show_number(x)
  } else if boolean {
    _show_boolean(x)
  } else if none {
    _show_none()
  } else if string {
    _show_string(x)
  } else if [Value] {
    _show_list(size(x))
    showAll(x)
  } else if {string: Value} {
    _show_map(size(x))
    done([none entry(k(), v()) for k, v in keys(x), values(x)])
  }
}

showAll = \(vs [Value]) none {
  if [v, ...vs] = vs {
    Show(v())
    showAll(vs)
  } else {
    none
  }
}

entry = \(k string, v Value) none {
  _show_string(k)
  Show(v)
}

done = \(xs [none]) none {
  if [x, ...xs] = xs {
    x()
    done(xs)
  } else {
    none
  }
}

Text = \(v Value) string {
  Encode(v)
}

Same = \(v Value, w Value) boolean {
  v == w
}

DecodeText = \(s string) none {
  if v = Decode(s) as Value {
    Show(v)
  } else {
    _show_error()
  }
}

Again = \(s string, v Value) boolean {
  if w = Decode(s) as Value {
    w == v
  } else {
    false
  }
}
"#;

#[derive(Clone, Debug)]
enum Json {
    None,
    Boolean(bool),
    Number(f64),
    String(String),
    List(Vec<Json>),
    Map(BTreeMap<String, Json>),
}

impl PartialEq for Json {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::None, Self::None) => true,
            (Self::Boolean(one), Self::Boolean(other)) => one == other,
            (Self::Number(one), Self::Number(other)) => one.to_bits() == other.to_bits(),
            (Self::String(one), Self::String(other)) => one == other,
            (Self::List(one), Self::List(other)) => one == other,
            (Self::Map(one), Self::Map(other)) => one == other,
            _ => false,
        }
    }
}

impl Json {
    fn size(&self) -> usize {
        match self {
            Self::List(values) => 1 + values.iter().map(Self::size).sum::<usize>(),
            Self::Map(values) => 1 + values.values().map(Self::size).sum::<usize>(),
            _ => 1,
        }
    }
}

fn build(machine: &Machine, value: &Json) -> Res<Value> {
    match value {
        Json::None => call(machine, "NewNone", vec![]),
        Json::Boolean(boolean) => call(machine, "NewBoolean", vec![Value::Boolean(*boolean)]),
        Json::Number(number) => call(machine, "NewNumber", vec![Value::Number(*number)]),
        Json::String(text) => call(machine, "NewString", vec![machine.string(text.as_bytes())]),
        Json::List(values) => {
            let mut list = call(machine, "EmptyList", vec![])?;
            for value in values.iter().rev() {
                list = call(machine, "Prepend", vec![build(machine, value)?, list])?;
            }
            call(machine, "NewList", vec![list])
        }
        Json::Map(values) => {
            let mut map = call(machine, "EmptyMap", vec![])?;
            for (key, value) in values {
                map = call(machine, "Insert", vec![map, machine.string(key.as_bytes()), build(machine, value)?])?;
            }
            call(machine, "NewMap", vec![map])
        }
    }
}

#[derive(Clone, Debug)]
enum Event {
    Value(Json),
    List(usize),
    Map(usize),
    Error,
}

type Events = Rc<RefCell<Vec<Event>>>;

fn define(machine: &Machine) -> Events {
    let events = Events::default();

    macro_rules! event {
        ($name:expr, $count:expr, $run:expr) => {{
            let events = events.clone();
            machine.define_foreign($name, $count, move |machine, arguments| {
                let run: fn(&Machine, &[Value]) -> Res<Event> = $run;
                let event = run(machine, &arguments)?;
                events.borrow_mut().push(event);
                for argument in &arguments {
                    machine.drop_value(argument)?;
                }
                Ok(Value::None)
            });
        }};
    }

    event!("_show_none", 0, |_, _| Ok(Event::Value(Json::None)));
    event!("_show_boolean", 1, |_, a| Ok(Event::Value(Json::Boolean(crate::machine::boolean(a[0].clone())?))));
    event!("_show_number", 1, |_, a| Ok(Event::Value(Json::Number(number(a[0].clone())?))));
    event!("_show_string", 1, |machine, a| {
        Ok(Event::Value(Json::String(
            String::from_utf8(machine.bytes(&a[0])?.to_vec())
                .map_err(|error| Stop::Stuck(format!("a string that is not UTF-8: {:?}", error.into_bytes())))?,
        )))
    });
    event!("_show_list", 1, |_, a| Ok(Event::List(number(a[0].clone())? as usize)));
    event!("_show_map", 1, |_, a| Ok(Event::Map(number(a[0].clone())? as usize)));
    event!("_show_error", 0, |_, _| Ok(Event::Error));

    events
}

fn read(events: &mut impl Iterator<Item = Event>) -> Result<Option<Json>, String> {
    Ok(Some(match events.next() {
        None => return Err("nothing shown".into()),
        Some(Event::Error) => return Ok(None),
        Some(Event::Value(value)) => value,
        Some(Event::List(count)) => {
            let mut values = vec![];
            for _ in 0..count {
                values.push(read(events)?.ok_or("error inside")?);
            }
            Json::List(values)
        }
        Some(Event::Map(count)) => {
            let mut values = BTreeMap::new();
            for _ in 0..count {
                let Some(Event::Value(Json::String(key))) = events.next() else { return Err("no key".into()) };
                values.insert(key, read(events)?.ok_or("error inside")?);
            }
            if values.len() != count {
                return Err("keys twice".into());
            }
            Json::Map(values)
        }
    }))
}

// The grammar of RFC 8259

struct Reference<'a> {
    text: &'a [char],
    /// A number that is too large, or half of a pair of surrogates: decoders differ.
    unsettled: bool,
}

impl Reference<'_> {
    fn next(&self) -> Option<char> {
        self.text.first().copied()
    }

    fn skip(&mut self) {
        while matches!(self.next(), Some(' ' | '\t' | '\n' | '\r')) {
            self.text = &self.text[1..];
        }
    }

    fn eat(&mut self, character: char) -> Option<()> {
        if self.next() == Some(character) {
            self.text = &self.text[1..];
            Some(())
        } else {
            None
        }
    }

    fn word(&mut self, word: &str, value: Json) -> Option<Json> {
        for character in word.chars() {
            self.eat(character)?;
        }
        Some(value)
    }

    fn digits(&mut self, text: &mut String) -> Option<()> {
        let before = text.len();
        while let Some(digit @ '0'..='9') = self.next() {
            text.push(digit);
            self.text = &self.text[1..];
        }
        (text.len() > before).then_some(())
    }

    fn number(&mut self) -> Option<Json> {
        let mut text = String::new();
        if self.eat('-').is_some() {
            text.push('-');
        }
        if self.eat('0').is_some() {
            text.push('0');
        } else {
            self.digits(&mut text)?;
        }
        if self.eat('.').is_some() {
            text.push('.');
            self.digits(&mut text)?;
        }
        if let Some(character @ ('e' | 'E')) = self.next() {
            text.push(character);
            self.text = &self.text[1..];
            if let Some(sign @ ('+' | '-')) = self.next() {
                text.push(sign);
                self.text = &self.text[1..];
            }
            self.digits(&mut text)?;
        }
        let number = text.parse::<f64>().unwrap();
        self.unsettled |= number.is_infinite();
        Some(Json::Number(number))
    }

    fn unit(&mut self) -> Option<u32> {
        let mut unit = 0;
        for _ in 0..4 {
            unit = unit * 16 + self.next()?.to_digit(16)?;
            self.text = &self.text[1..];
        }
        Some(unit)
    }

    fn string(&mut self) -> Option<String> {
        let mut text = String::new();
        self.eat('"')?;
        loop {
            let character = self.next()?;
            self.text = &self.text[1..];
            match character {
                '"' => return Some(text),
                '\0'..='\x1f' => return None,
                '\\' => {
                    let escape = self.next()?;
                    self.text = &self.text[1..];
                    text.push(match escape {
                        '"' | '\\' | '/' => escape,
                        'b' => '\x08',
                        'f' => '\x0c',
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'u' => {
                            let unit = self.unit()?;
                            match unit {
                                0xd800..=0xdbff => {
                                    let rest = self.text;
                                    let low = self.eat('\\').and_then(|_| self.eat('u')).and_then(|_| self.unit());
                                    if let Some(low @ 0xdc00..=0xdfff) = low {
                                        char::from_u32(0x10000 + (unit - 0xd800) * 0x400 + (low - 0xdc00)).unwrap()
                                    } else {
                                        self.text = rest;
                                        self.unsettled = true;
                                        '\u{fffd}'
                                    }
                                }
                                0xdc00..=0xdfff => {
                                    self.unsettled = true;
                                    '\u{fffd}'
                                }
                                unit => char::from_u32(unit).unwrap(),
                            }
                        }
                        _ => return None,
                    });
                }
                character => text.push(character),
            }
        }
    }

    fn value(&mut self) -> Option<Json> {
        self.skip();
        let value = match self.next()? {
            'n' => self.word("null", Json::None)?,
            't' => self.word("true", Json::Boolean(true))?,
            'f' => self.word("false", Json::Boolean(false))?,
            '"' => Json::String(self.string()?),
            '[' => {
                self.eat('[')?;
                self.skip();
                let mut values = vec![];
                if self.eat(']').is_none() {
                    loop {
                        values.push(self.value()?);
                        if self.eat(']').is_some() {
                            break;
                        }
                        self.eat(',')?;
                    }
                }
                Json::List(values)
            }
            '{' => {
                self.eat('{')?;
                self.skip();
                let mut values = BTreeMap::new();
                if self.eat('}').is_none() {
                    loop {
                        self.skip();
                        let key = self.string()?;
                        self.skip();
                        self.eat(':')?;
                        let value = self.value()?;
                        // Names should be unique; decoders differ when they are not.
                        self.unsettled |= values.insert(key, value).is_some();
                        if self.eat('}').is_some() {
                            break;
                        }
                        self.eat(',')?;
                    }
                }
                Json::Map(values)
            }
            _ => self.number()?,
        };
        self.skip();
        Some(value)
    }
}

fn reference(text: &str) -> (Option<Json>, bool) {
    let characters = text.chars().collect::<Vec<_>>();
    let mut reference = Reference { text: &characters, unsettled: false };
    let value = reference.value();
    let value = if reference.text.is_empty() { value } else { None };
    (value, reference.unsettled)
}

// Generation

fn finite(g: &mut Gen) -> f64 {
    let number = match g.weighted(&[4, 3, 2, 2]) {
        0 => g.range(-20, 20) as f64,
        1 => g.range(-100_000, 100_000) as f64 / 8.0,
        2 => g.range(-1_000_000, 1_000_000) as f64 * 10f64.powi(g.range(-25, 25) as i32),
        _ => f64::from_bits(g.u64()),
    };

    if number.is_finite() {
        number
    } else {
        0.5
    }
}

fn character(g: &mut Gen) -> char {
    match g.weighted(&[8, 4, 3, 2, 1]) {
        0 => (b'a' + g.below(26) as u8) as char,
        1 => *g.pick(&['"', '\\', '/', '\'', '{', '}', '[', ']', ':', ',', ' ', 'n', 'u', '0']),
        2 => *g.pick(&['\n', '\r', '\t', '\x08', '\x0c', '\0', '\x1f', '\x7f', '\x1b', '\x01']),
        3 => *g.pick(&['é', 'ß', 'あ', '語', '\u{2028}', '\u{feff}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '😄', '\u{10ffff}', '\u{80}']),
        _ => char::from_u32(g.below(0x110000) as u32).unwrap_or('?'),
    }
}

fn text(g: &mut Gen) -> String {
    let count = g.usize(8);
    (0..count).map(|_| character(g)).collect()
}

fn value(g: &mut Gen, depth: usize) -> Json {
    match g.weighted(&if depth == 0 { [1, 2, 4, 5, 0, 0] } else { [1, 1, 3, 4, 6, 6] }) {
        0 => Json::None,
        1 => Json::Boolean(g.bool()),
        2 => Json::Number(finite(g)),
        3 => Json::String(text(g)),
        4 => {
            let count = g.usize(5);
            Json::List((0..count).map(|_| value(g, depth - 1)).collect())
        }
        _ => {
            let count = g.usize(5);
            Json::Map((0..count).map(|_| (text(g), value(g, depth - 1))).collect())
        }
    }
}

fn blank(g: &mut Gen, text: &mut String) {
    for _ in 0..g.weighted(&[6, 2, 1]) {
        text.push(*g.pick(&[' ', '\n', '\t', '\r']));
    }
}

fn write_string(g: &mut Gen, value: &str, text: &mut String) {
    text.push('"');
    for character in value.chars() {
        let short = match character {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\x08' => Some('b'),
            '\x0c' => Some('f'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            _ => None,
        };
        let must = character < '\x20' || matches!(character, '"' | '\\');
        match (short, must) {
            (Some(short), true) if !g.chance(1, 4) => text.extend(['\\', short]),
            (Some(short), false) if g.chance(1, 3) => text.extend(['\\', short]),
            (_, false) if !g.chance(1, 6) => text.push(character),
            _ => {
                let upper = g.bool();
                for unit in character.encode_utf16(&mut [0; 2]) {
                    text.push_str(&if upper { format!("\\u{unit:04X}") } else { format!("\\u{unit:04x}") });
                }
            }
        }
    }
    text.push('"');
}

fn write_number(g: &mut Gen, value: f64, text: &mut String) {
    let number = match g.weighted(&[4, 2, 2, 1, 1]) {
        0 => format!("{value}"),
        1 => format!("{value:e}"),
        2 => format!("{value:E}"),
        3 => format!("{value:e}").replace("e", if g.bool() { "e+0" } else { "E+" }).replace("+-", "-").replace("+0-", "-0"),
        _ => {
            let mut number = format!("{value}");
            if !number.contains('.') {
                number.push('.');
            }
            for _ in 0..1 + g.below(3) {
                number.push('0');
            }
            number
        }
    };
    text.push_str(&number);
}

fn write(g: &mut Gen, value: &Json, text: &mut String) {
    blank(g, text);
    match value {
        Json::None => text.push_str("null"),
        Json::Boolean(boolean) => text.push_str(if *boolean { "true" } else { "false" }),
        Json::Number(number) => write_number(g, *number, text),
        Json::String(string) => write_string(g, string, text),
        Json::List(values) => {
            text.push('[');
            for (index, value) in values.iter().enumerate() {
                if index > 0 {
                    text.push(',');
                }
                write(g, value, text);
            }
            if values.is_empty() {
                blank(g, text);
            }
            text.push(']');
        }
        Json::Map(values) => {
            text.push('{');
            for (index, (key, value)) in values.iter().enumerate() {
                if index > 0 {
                    text.push(',');
                }
                blank(g, text);
                write_string(g, key, text);
                blank(g, text);
                text.push(':');
                write(g, value, text);
            }
            if values.is_empty() {
                blank(g, text);
            }
            text.push('}');
        }
    }
    blank(g, text);
}

/// Changes a text by a character or a few.
fn spoil(g: &mut Gen, text: &mut String) {
    const PARTS: &[&str] = &[
        ",", ":", "\"", "\\", "[", "]", "{", "}", "-", "+", ".", "0", "1", "00", "e", "E5", ".5", "null", "nul", "true",
        " ", "\u{a0}", "\n", "\x0b", "\0", "\\u12", "\\x41", "\\'", "'", "//", "NaN", "a", "é", "\u{feff}", "\\u00e9", "\\ud83d",
    ];
    for _ in 0..1 + g.weighted(&[6, 2, 1]) {
        let mut characters = text.chars().collect::<Vec<_>>();
        let at = g.usize(characters.len() + 1);
        match g.weighted(&[3, 3, 2, 1]) {
            0 if at < characters.len() => {
                characters.remove(at);
            }
            1 => {
                let part = g.pick(PARTS);
                characters.splice(at..at, part.chars());
            }
            2 if at < characters.len() => {
                let part = g.pick(PARTS);
                characters.splice(at..at + 1, part.chars());
            }
            3 => characters.truncate(at),
            _ => {}
        }
        *text = characters.into_iter().collect();
    }
}

// Checks

fn stage(g: &mut Gen) -> usize {
    if g.chance(3, 4) {
        LAST
    } else {
        0
    }
}

pub fn round_trip(g: &mut Gen) -> CaseResult {
    let stage = stage(g);
    let depth = 3 - g.usize(4);
    let value = value(g, depth);

    with_driver(DRIVER, stage, FUEL, |machine| {
        let stop = |stop: Stop| crate::failure(&stop, &format!("{value:?}"));
        let built = build(machine, &value).map_err(stop)?;
        let encoded = call(machine, "Text", vec![machine.clone_value(&built).map_err(stop)?]).map_err(stop)?;
        let bytes = machine.bytes(&encoded).map_err(stop)?.to_vec();
        let Ok(text) = String::from_utf8(bytes) else { fail!("text", "{value:?} is encoded into a text that is not UTF-8") };
        let (decoded, _) = reference(&text);
        let Some(decoded) = decoded else { fail!("text", "{value:?} is encoded into {text:?}, which is not JSON") };
        ensure_eq!(decoded, value, "text", "meaning of the encoded text {text:?}");

        let same = call(machine, "Again", vec![encoded, built]).map_err(stop)?;
        ensure!(
            crate::machine::boolean(same).map_err(stop)?,
            "round trip",
            "{value:?} is encoded into {text:?}, which is not decoded into the same value"
        );
        Ok(())
    })?;

    if value.size() > 2 {
        g.nontrivial(&format!("{value:?}"));
    }
    g.describe(|| format!("{value:?}"));
    Ok(())
}

fn decode(machine: &Machine, text: &str) -> Result<Option<Json>, pbt::Failure> {
    let stop = |stop: Stop| crate::failure(&stop, &format!("decoding of {text:?}"));
    let events = define(machine);
    call(machine, "DecodeText", vec![machine.string(text.as_bytes())]).map_err(stop)?;
    let shown = events.borrow().clone();
    let count = shown.len();
    let mut events = shown.into_iter();
    let value = read(&mut events)
        .map_err(|message| pbt::Failure::new("shown", format!("{message} of {text:?}")))?;
    ensure!(events.next().is_none(), "shown", "{count} parts of {text:?}");
    Ok(value)
}

pub fn texts(g: &mut Gen) -> CaseResult {
    let stage = stage(g);
    let depth = g.usize(4);
    let value = value(g, depth);
    let mut text = String::new();
    write(g, &value, &mut text);
    let (read, _) = reference(&text);
    assert_eq!(read.as_ref(), Some(&value), "HARNESS: the writer and the reference decoder disagree on {text:?}");

    if g.chance(1, 2) {
        spoil(g, &mut text);
    }
    let (expected, unsettled) = reference(&text);

    with_driver(DRIVER, stage, FUEL, |machine| {
        let got = decode(machine, &text)?;
        if !unsettled {
            match (&expected, &got) {
                (Some(expected), Some(got)) => ensure_eq!(got, expected, "decoded value", "decoding of {text:?}"),
                (Some(expected), None) => fail!("refused", "{text:?} is refused, not decoded into {expected:?}"),
                (None, Some(got)) => fail!("accepted", "{text:?} is not JSON but decoded into {got:?}"),
                (None, None) => {}
            }
        } else if expected.is_none() {
            ensure!(got.is_none(), "accepted", "{text:?} is not JSON but decoded into {got:?}");
        }
        Ok(())
    })?;

    g.label(if unsettled { "unsettled" } else if expected.is_some() { "text of JSON" } else { "other text" });
    if text.len() > 4 {
        g.nontrivial(&text);
    }
    g.describe(|| format!("{text:?}"));
    Ok(())
}

//! Stands for clap: subcommands with options and positional arguments.
use std::{any::Any, collections::HashMap, ops::RangeFull};

#[macro_export]
macro_rules! crate_version {
    () => {
        env!("CARGO_PKG_VERSION")
    };
}

#[derive(Clone, Copy, PartialEq)]
pub enum ArgAction {
    Set,
    SetTrue,
    Append,
}

#[derive(Clone, Copy)]
pub struct ValueRange(usize, usize);
impl From<usize> for ValueRange {
    fn from(count: usize) -> Self {
        Self(count, count)
    }
}
impl From<std::ops::RangeFrom<usize>> for ValueRange {
    fn from(range: std::ops::RangeFrom<usize>) -> Self {
        Self(range.start, usize::MAX)
    }
}
impl From<std::ops::RangeInclusive<usize>> for ValueRange {
    fn from(range: std::ops::RangeInclusive<usize>) -> Self {
        Self(*range.start(), *range.end())
    }
}
impl From<RangeFull> for ValueRange {
    fn from(_: RangeFull) -> Self {
        Self(0, usize::MAX)
    }
}

pub mod builder {
    #[derive(Clone)]
    pub struct PossibleValuesParser(pub Vec<String>);
    impl PossibleValuesParser {
        pub fn new(values: impl IntoIterator<Item = impl AsRef<str>>) -> Self {
            Self(values.into_iter().map(|value| value.as_ref().to_owned()).collect())
        }
    }
}

#[derive(Clone)]
pub struct Arg {
    id: String,
    short: Option<char>,
    long: Option<String>,
    global: bool,
    required: bool,
    action: ArgAction,
    values: ValueRange,
    possible: Option<Vec<String>>,
}
impl Arg {
    pub fn new(id: impl Into<String>) -> Self {
        Self {
            id: id.into(),
            short: None,
            long: None,
            global: false,
            required: false,
            action: ArgAction::Set,
            values: ValueRange(1, 1),
            possible: None,
        }
    }
    pub fn short(mut self, short: char) -> Self {
        self.short = Some(short);
        self
    }
    pub fn long(mut self, long: &str) -> Self {
        self.long = Some(long.into());
        self
    }
    pub fn help(self, _: &str) -> Self {
        self
    }
    pub fn global(mut self, global: bool) -> Self {
        self.global = global;
        self
    }
    pub fn required(mut self, required: bool) -> Self {
        self.required = required;
        self
    }
    pub fn action(mut self, action: ArgAction) -> Self {
        self.action = action;
        self
    }
    pub fn num_args(mut self, values: impl Into<ValueRange>) -> Self {
        self.values = values.into();
        self
    }
    pub fn number_of_values(self, count: usize) -> Self {
        self.num_args(count)
    }
    pub fn value_parser(mut self, parser: builder::PossibleValuesParser) -> Self {
        self.possible = Some(parser.0);
        self
    }
}

pub struct Command {
    name: String,
    arguments: Vec<Arg>,
    commands: Vec<Command>,
}
fn refuse(message: String) -> ! {
    eprintln!("error: {message}");
    std::process::exit(2)
}
impl Command {
    pub fn new(name: impl Into<String>) -> Self {
        Self { name: name.into(), arguments: vec![], commands: vec![] }
    }
    pub fn version(self, _: &str) -> Self {
        self
    }
    pub fn about(self, _: &str) -> Self {
        self
    }
    pub fn hide(self, _: bool) -> Self {
        self
    }
    pub fn subcommand_required(self, _: bool) -> Self {
        self
    }
    pub fn arg(mut self, argument: Arg) -> Self {
        self.arguments.push(argument);
        self
    }
    pub fn subcommand(mut self, command: Command) -> Self {
        self.commands.push(command);
        self
    }
    pub fn get_matches(self) -> ArgMatches {
        let words = std::env::args().skip(1).collect::<Vec<_>>();
        let globals = self.arguments.iter().filter(|argument| argument.global).cloned().collect::<Vec<_>>();
        let mut command = None;
        let mut seen = vec![];
        for (index, word) in words.iter().enumerate() {
            if word.starts_with('-') {
                seen.push(word.clone());
            } else {
                command = Some((word.clone(), words[index + 1..].to_vec()));
                break;
            }
        }
        let (name, mut words) = command.unwrap_or_else(|| refuse("no subcommand".into()));
        words.extend(seen);
        let mut command = self
            .commands
            .into_iter()
            .find(|command| command.name == name)
            .unwrap_or_else(|| refuse(format!("unknown subcommand {name}")));
        command.arguments.extend(globals);
        ArgMatches { values: HashMap::new(), flags: HashMap::new(), command: Some((name, Box::new(command.parse(&words)))) }
    }
    fn parse(&self, words: &[String]) -> ArgMatches {
        let mut values: HashMap<String, Vec<String>> = HashMap::new();
        let mut flags = HashMap::new();
        let mut plain = vec![];
        let mut options = true;
        let mut words = words.iter().cloned().peekable();
        for argument in &self.arguments {
            if argument.action == ArgAction::SetTrue {
                flags.insert(argument.id.clone(), false);
            }
        }
        while let Some(word) = words.next() {
            if options && word == "--" {
                options = false;
                continue;
            }
            if !options || !word.starts_with('-') || word == "-" {
                plain.push(word);
                continue;
            }
            let (argument, attached) = if let Some(long) = word.strip_prefix("--") {
                let (name, attached) = long.split_once('=').map_or((long, None), |(name, value)| (name, Some(value.to_owned())));
                (self.arguments.iter().find(|argument| argument.long.as_deref() == Some(name)), attached)
            } else {
                let mut letters = word.chars().skip(1);
                let letter = letters.next();
                let rest = letters.collect::<String>();
                (
                    self.arguments.iter().find(|argument| argument.short == letter),
                    Some(rest).filter(|rest| !rest.is_empty()),
                )
            };
            let Some(argument) = argument else { refuse(format!("unexpected argument {word}")) };
            if argument.action == ArgAction::SetTrue {
                flags.insert(argument.id.clone(), true);
                continue;
            }
            let mut new = attached.into_iter().collect::<Vec<_>>();
            while new.len() < argument.values.0 {
                new.push(words.next().unwrap_or_else(|| refuse(format!("value needed by {word}"))));
            }
            if let Some(possible) = &argument.possible {
                if let Some(value) = new.iter().find(|value| !possible.contains(value)) {
                    refuse(format!("invalid value {value}"));
                }
            }
            let old = values.entry(argument.id.clone()).or_default();
            if argument.action == ArgAction::Set && !old.is_empty() {
                refuse(format!("{word} used twice"));
            }
            old.extend(new);
        }
        let mut plain = plain.into_iter().peekable();
        for argument in self.arguments.iter().filter(|argument| argument.short.is_none() && argument.long.is_none()) {
            let mut count = 0;
            while count < argument.values.1 {
                let Some(value) = plain.next() else { break };
                values.entry(argument.id.clone()).or_default().push(value);
                count += 1;
            }
        }
        if let Some(word) = plain.next() {
            refuse(format!("unexpected argument {word}"));
        }
        for argument in &self.arguments {
            if argument.required && !values.contains_key(&argument.id) {
                refuse(format!("argument {} needed", argument.id));
            }
        }
        ArgMatches { values, flags, command: None }
    }
}

pub struct ArgMatches {
    values: HashMap<String, Vec<String>>,
    flags: HashMap<String, bool>,
    command: Option<(String, Box<ArgMatches>)>,
}
impl ArgMatches {
    pub fn subcommand(&self) -> Option<(&str, &ArgMatches)> {
        self.command.as_ref().map(|(name, matches)| (name.as_str(), &**matches))
    }
    pub fn get_one<T: Any>(&self, id: &str) -> Option<&T> {
        self.values
            .get(id)
            .and_then(|values| values.first())
            .map(|value| value as &dyn Any)
            .or_else(|| self.flags.get(id).map(|flag| flag as &dyn Any))
            .map(|value| value.downcast_ref::<T>().expect("type of argument"))
    }
    pub fn get_many<T: Any>(&self, id: &str) -> Option<std::vec::IntoIter<&T>> {
        self.values.get(id).map(|values| {
            values
                .iter()
                .map(|value| (value as &dyn Any).downcast_ref::<T>().expect("type of argument"))
                .collect::<Vec<_>>()
                .into_iter()
        })
    }
    pub fn get_flag(&self, id: &str) -> bool {
        self.flags.get(id).copied().unwrap_or_default()
    }
    pub fn contains_id(&self, id: &str) -> bool {
        self.values.contains_key(id)
    }
}

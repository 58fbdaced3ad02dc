//! The build runner: what a build script means, by modification times (as ninja does) or by contents (as turtle
//! does), in an order that a seed picks among those the script allows.
use std::{
    collections::{hash_map::DefaultHasher, BTreeMap, BTreeSet, HashMap},
    fs,
    hash::{Hash, Hasher},
    io::{Read, Write},
    path::Path,
    process::{exit, Command, Stdio},
    time::SystemTime,
};

#[derive(Debug)]
struct Build {
    outputs: Vec<String>,
    rule: String,
    inputs: Vec<String>,
    implicit: Vec<String>,
    order: Vec<String>,
    command: Option<String>,
    dyndep: Option<String>,
}

#[derive(Default)]
struct Script {
    builds: Vec<Build>,
    by_output: HashMap<String, usize>,
    defaults: Vec<String>,
    directory: Option<String>,
}

fn expand(text: &str, scopes: &[&BTreeMap<String, String>]) -> Result<String, String> {
    let mut result = String::new();
    let mut characters = text.chars().peekable();
    while let Some(character) = characters.next() {
        if character != '$' {
            result.push(character);
            continue;
        }
        let mut name = String::new();
        match characters.peek() {
            Some('$' | ' ' | ':') => {
                result.push(characters.next().unwrap());
                continue;
            }
            Some('{') => {
                characters.next();
                loop {
                    match characters.next() {
                        Some('}') => break,
                        Some(character) => name.push(character),
                        None => return Err("open variable".into()),
                    }
                }
            }
            _ => {
                while let Some(character) = characters.peek() {
                    if !character.is_ascii_alphanumeric() && *character != '_' && *character != '-' {
                        break;
                    }
                    name.push(*character);
                    characters.next();
                }
            }
        }
        if name.is_empty() {
            return Err(format!("bad $ in {text}"));
        }
        if let Some(value) = scopes.iter().find_map(|scope| scope.get(&name)) {
            result += value;
        }
    }
    Ok(result)
}

fn words(text: &str) -> Result<Vec<String>, String> {
    if text.contains('$') {
        return Err(format!("escapes in paths are not expected: {text}"));
    }
    Ok(text.split(' ').filter(|word| !word.is_empty()).map(Into::into).collect())
}

fn quoted(words: &[String]) -> String {
    words
        .iter()
        .map(|word| {
            if word.chars().all(|character| character.is_ascii_alphanumeric() || "_-./+:@%,=".contains(character)) {
                word.clone()
            } else {
                format!("'{}'", word.replace('\'', "'\\''"))
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

impl Script {
    fn parse(
        &mut self,
        path: &str,
        variables: &mut BTreeMap<String, String>,
        rules: &mut BTreeMap<String, BTreeMap<String, String>>,
    ) -> Result<(), String> {
        let text = fs::read_to_string(path).map_err(|error| format!("{path}: {error}"))?;
        let mut lines = text.lines().peekable();
        while let Some(line) = lines.next() {
            if line.trim().is_empty() || line.starts_with('#') {
                continue;
            }
            if line.starts_with(' ') {
                return Err(format!("{path}: unexpected indent: {line}"));
            }
            let mut bindings = vec![];
            while let Some(next) = lines.peek() {
                if !next.starts_with(' ') || next.trim().is_empty() {
                    break;
                }
                let (name, value) =
                    next.trim().split_once('=').ok_or_else(|| format!("{path}: no binding: {next}"))?;
                bindings.push((name.trim().to_owned(), value.trim_start().to_owned()));
                lines.next();
            }
            if let Some(name) = line.strip_prefix("rule ") {
                if rules.insert(name.trim().into(), bindings.into_iter().collect()).is_some() {
                    return Err(format!("{path}: duplicate rule {name}"));
                }
            } else if let Some(build) = line.strip_prefix("build ") {
                self.parse_build(path, build, bindings, variables, rules)?;
            } else if let Some(file) = line.strip_prefix("subninja ") {
                let (mut variables, mut rules) = (variables.clone(), rules.clone());
                self.parse(&expand(file.trim(), &[&variables.clone()])?, &mut variables, &mut rules)?;
            } else if let Some(targets) = line.strip_prefix("default ") {
                self.defaults.extend(words(targets)?);
            } else if let Some((name, value)) = line.split_once('=') {
                let value = expand(value.trim(), &[variables])?;
                if name.trim() == "builddir" {
                    self.directory = Some(value.clone());
                }
                variables.insert(name.trim().into(), value);
            } else {
                return Err(format!("{path}: unknown statement: {line}"));
            }
        }
        Ok(())
    }

    fn parse_build(
        &mut self,
        path: &str,
        text: &str,
        bindings: Vec<(String, String)>,
        variables: &BTreeMap<String, String>,
        rules: &BTreeMap<String, BTreeMap<String, String>>,
    ) -> Result<(), String> {
        let (outputs, rest) = text.split_once(':').ok_or_else(|| format!("{path}: no colon: {text}"))?;
        let outputs = words(outputs)?;
        let (rest, order) = rest.split_once("||").unwrap_or((rest, ""));
        let (rest, implicit) = rest.split_once('|').unwrap_or((rest, ""));
        let mut inputs = words(rest)?;
        if inputs.is_empty() || outputs.is_empty() {
            return Err(format!("{path}: no rule or output: {text}"));
        }
        let rule = inputs.remove(0);
        let mut scope = BTreeMap::new();
        for (name, value) in bindings {
            let value = expand(&value, &[&scope, variables])?;
            scope.insert(name, value);
        }
        scope.insert("in".into(), quoted(&inputs));
        scope.insert("out".into(), quoted(&outputs));
        let command = if rule == "phony" {
            None
        } else {
            let rule = rules.get(&rule).ok_or_else(|| format!("{path}: unknown rule {rule}"))?;
            let command = rule.get("command").ok_or_else(|| format!("{path}: rule without command"))?;
            Some(expand(command, &[&scope, variables])?)
        };
        for output in &outputs {
            if self.by_output.insert(output.clone(), self.builds.len()).is_some() {
                return Err(format!("{path}: multiple rules generate {output}"));
            }
        }
        self.builds.push(Build {
            outputs,
            rule,
            inputs,
            implicit: words(implicit)?,
            order: words(order)?,
            command,
            dyndep: scope.get("dyndep").cloned(),
        });
        Ok(())
    }
}

fn time(path: &str) -> Option<SystemTime> {
    fs::metadata(path).and_then(|data| data.modified()).ok()
}

fn digest(value: impl Hash) -> String {
    let mut hasher = DefaultHasher::new();
    value.hash(&mut hasher);
    format!("{:016x}", hasher.finish())
}

struct Runner {
    script: Script,
    by_contents: bool,
    seed: u64,
    /// Command and contents of the inputs when an output was made.
    log: BTreeMap<String, (String, String)>,
    /// Builds that are done, and whether they ran.
    done: BTreeMap<usize, bool>,
    open: BTreeSet<usize>,
    ran: Vec<String>,
    /// The command to stop at, counted from one
    stop: u64,
    fail: bool,
}

impl Runner {
    fn next(&mut self, bound: usize) -> usize {
        self.seed ^= self.seed << 13;
        self.seed ^= self.seed >> 7;
        self.seed ^= self.seed << 17;
        (self.seed % bound as u64) as usize
    }

    fn make_all(&mut self, files: &[String]) -> Result<bool, String> {
        let mut files = files.to_vec();
        let mut ran = false;
        while !files.is_empty() {
            let index = self.next(files.len());
            ran |= self.make(&files.swap_remove(index))?;
        }
        Ok(ran)
    }

    /// Makes a file and tells if it was made anew.
    fn make(&mut self, file: &str) -> Result<bool, String> {
        let Some(&index) = self.script.by_output.get(file) else {
            if Path::new(file).exists() {
                return Ok(false);
            }
            return Err(format!("{file} is missing and no rule makes it"));
        };
        if let Some(ran) = self.done.get(&index) {
            return Ok(*ran);
        }
        if !self.open.insert(index) {
            return Err(format!("dependency cycle through {file}"));
        }

        let build = &self.script.builds[index];
        let dyndep = build.dyndep.clone();
        let inputs = build.inputs.iter().chain(&build.implicit).cloned().collect::<Vec<_>>();
        let order = build.order.clone();
        let mut dynamic = vec![];
        // What is known only after the file of dynamic dependencies is made may be made late.
        if let Some(dyndep) = &dyndep {
            if !inputs.contains(dyndep) && !order.contains(dyndep) {
                return Err(format!("{dyndep} is not an input"));
            }
            self.make(dyndep)?;
            dynamic = self.dynamic(dyndep, index)?;
        }
        self.make_all(&order)?;
        let inputs = inputs.into_iter().chain(dynamic).collect::<Vec<_>>();
        let ran = self.make_all(&inputs)?;
        let ran = self.run(index, &inputs, ran)?;
        self.open.remove(&index);
        self.done.insert(index, ran);
        Ok(ran)
    }

    fn dynamic(&self, path: &str, index: usize) -> Result<Vec<String>, String> {
        let text = fs::read_to_string(path).map_err(|error| format!("{path}: {error}"))?;
        let mut lines = text.lines();
        if !lines.next().unwrap_or_default().starts_with("ninja_dyndep_version") {
            return Err(format!("{path}: no version"));
        }
        let mut files = vec![];
        for line in lines.filter(|line| !line.trim().is_empty()) {
            let (output, rest) = line
                .strip_prefix("build ")
                .and_then(|line| line.split_once(": dyndep"))
                .ok_or_else(|| format!("{path}: {line}"))?;
            if self.script.by_output.get(output.trim()) != Some(&index) {
                return Err(format!("{path}: not an output: {output}"));
            }
            files.extend(words(rest.trim().strip_prefix('|').unwrap_or_default())?);
        }
        Ok(files)
    }

    fn run(&mut self, index: usize, inputs: &[String], inputs_ran: bool) -> Result<bool, String> {
        let build = &self.script.builds[index];
        let Some(command) = build.command.clone() else {
            // Names of phony targets are not those of files.
            return Ok(inputs_ran || build.inputs.is_empty());
        };
        let outputs = build.outputs.clone();
        let phony = inputs.iter().any(|file| {
            self.script.by_output.get(file).is_some_and(|index| self.script.builds[*index].rule == "phony" && self.done[index])
        });
        let contents = if self.by_contents {
            digest(inputs.iter().map(|file| (file, fs::read(file).ok())).collect::<Vec<_>>())
        } else {
            String::new()
        };
        let times = outputs.iter().map(|file| time(file)).collect::<Vec<_>>();
        let state = (digest(&command), contents);
        let same = times.iter().all(Option::is_some)
            && outputs.iter().all(|file| self.log.get(file) == Some(&state))
            && !phony
            && (self.by_contents
                || (!inputs_ran && inputs.iter().all(|file| times.iter().all(|other| time(file) <= *other))));
        if same {
            return Ok(false);
        }
        for output in &outputs {
            if let Some(directory) = Path::new(output).parent() {
                let _ = fs::create_dir_all(directory);
            }
        }
        if self.stop > 0 {
            self.stop -= 1;
            if self.stop == 0 {
                // The build ends in the middle of a command.
                for output in &outputs {
                    let _ = fs::write(output, "half of some");
                    self.log.remove(output);
                }
                write_log(&log_path(&self.script), &self.log);
                if self.fail {
                    return Err(format!("failed: {command}"));
                }
                crate::programs::kill_group();
            }
        }
        let result = Command::new("/bin/sh").arg("-c").arg(&command).stdin(Stdio::null()).output();
        let result = result.map_err(|error| error.to_string())?;
        if !result.status.success() {
            return Err(format!(
                "failed: {command}\n{}{}",
                String::from_utf8_lossy(&result.stdout),
                String::from_utf8_lossy(&result.stderr)
            ));
        }
        for output in &outputs {
            if !Path::new(output).exists() {
                return Err(format!("{output} is not made by {command}"));
            }
            self.log.insert(output.clone(), state.clone());
        }
        self.ran.push(command);
        Ok(true)
    }
}

fn log_path(script: &Script) -> String {
    format!("{}/.turtle", script.directory.as_deref().unwrap_or("."))
}

fn read_log(path: &str) -> BTreeMap<String, (String, String)> {
    let mut text = String::new();
    if let Ok(mut file) = fs::File::open(path) {
        let _ = file.read_to_string(&mut text);
    }
    text.lines()
        .filter_map(|line| {
            let mut parts = line.splitn(3, ' ');
            let (command, contents, file) = (parts.next()?, parts.next()?, parts.next()?);
            Some((file.to_owned(), (command.to_owned(), contents.trim_matches('-').to_owned())))
        })
        .collect()
}

fn write_log(path: &str, log: &BTreeMap<String, (String, String)>) {
    let mut text = String::new();
    for (file, (command, contents)) in log {
        text += &format!("{command} {} {file}\n", if contents.is_empty() { "-" } else { contents });
    }
    let _ = fs::write(path, text);
}

pub fn main(words: &[String]) {
    if let Err(error) = start(words) {
        let _ = writeln!(std::io::stderr(), "turtle: {error}");
        exit(1);
    }
}

fn start(words: &[String]) -> Result<(), String> {
    let (mut file, mut tool, mut targets) = (None, None, vec![]);
    let mut arguments = words.iter();
    while let Some(word) = arguments.next() {
        match word.as_str() {
            "-f" => file = arguments.next(),
            "-t" => tool = arguments.next(),
            "--quiet" => {}
            target => targets.push(target.to_owned()),
        }
    }
    let mut script = Script::default();
    script.parse(file.ok_or("no file")?, &mut BTreeMap::new(), &mut BTreeMap::new())?;
    let path = log_path(&script);
    let mut log = read_log(&path);
    if let Some(tool) = tool {
        if tool != "cleandead" {
            return Err(format!("unknown tool {tool}"));
        }
        for file in log.keys().cloned().collect::<Vec<_>>() {
            if !script.by_output.contains_key(&file) {
                let _ = fs::remove_file(&file);
                log.remove(&file);
            }
        }
        write_log(&path, &log);
        return Ok(());
    }
    if targets.is_empty() {
        targets = script.defaults.clone();
    }
    let mut runner = Runner {
        script,
        by_contents: std::env::var("TOOL_CONTENTS").is_ok_and(|value| value == "1"),
        seed: std::env::var("TOOL_SEED").ok().and_then(|seed| seed.parse().ok()).unwrap_or(1u64).max(1),
        log,
        done: BTreeMap::new(),
        open: BTreeSet::new(),
        ran: vec![],
        stop: std::env::var("TOOL_STOP").ok().and_then(|number| number.parse().ok()).unwrap_or(0),
        fail: std::env::var("TOOL_FAIL").is_ok(),
    };
    let result = runner.make_all(&targets);
    write_log(&path, &runner.log);
    if let Ok(path) = std::env::var("TOOL_COMMANDS") {
        let _ = fs::write(path, runner.ran.join("\n"));
    }
    result.map(|_| ())
}

//! Stands for glob: patterns with stars in the last component.
use std::path::PathBuf;
pub type GlobError = std::io::Error;
pub type PatternError = std::io::Error;
fn matches(pattern: &[char], name: &[char]) -> bool {
    match pattern {
        [] => name.is_empty(),
        ['*', rest @ ..] => (0..=name.len()).any(|index| matches(rest, &name[index..])),
        ['?', rest @ ..] => !name.is_empty() && matches(rest, &name[1..]),
        [first, rest @ ..] => name.first() == Some(first) && matches(rest, &name[1..]),
    }
}
pub fn glob(pattern: &str) -> Result<impl Iterator<Item = Result<PathBuf, GlobError>>, PatternError> {
    let (directory, pattern) = pattern.rsplit_once('/').unwrap_or((".", pattern));
    let pattern = pattern.chars().collect::<Vec<_>>();
    let mut paths = vec![];
    if let Ok(entries) = std::fs::read_dir(directory) {
        for entry in entries {
            let path = entry?.path();
            if matches(&pattern, &path.file_name().unwrap().to_string_lossy().chars().collect::<Vec<_>>()) {
                paths.push(path);
            }
        }
    }
    paths.sort();
    Ok(paths.into_iter().map(Ok))
}

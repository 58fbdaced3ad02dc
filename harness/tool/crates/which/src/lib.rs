//! Stands for which: looks for an executable file in the directories of PATH.
use std::{os::unix::fs::PermissionsExt, path::PathBuf};
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(formatter, "cannot find binary path")
    }
}
impl std::error::Error for Error {}
pub fn which(name: impl AsRef<std::ffi::OsStr>) -> Result<PathBuf, Error> {
    std::env::split_paths(&std::env::var_os("PATH").unwrap_or_default())
        .map(|directory| directory.join(name.as_ref()))
        .find(|path| {
            path.metadata()
                .map(|data| data.is_file() && data.permissions().mode() & 0o111 != 0)
                .unwrap_or(false)
        })
        .ok_or(Error)
}

use std::{ffi::OsStr, path::PathBuf};
pub fn find_executable_in_path<P: AsRef<OsStr>>(name: P) -> Option<PathBuf> { which::which(name).ok() }

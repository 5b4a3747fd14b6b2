use std::{ffi::OsStr, path::{Path, PathBuf}};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error { CannotFindBinaryPath, CannotGetCurrentDirAndPathListEmpty, CannotCanonicalize }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("cannot find binary path") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn is_exe(p: &Path) -> bool {
    use std::os::unix::fs::PermissionsExt;
    std::fs::metadata(p).map(|m| m.is_file() && m.permissions().mode() & 0o111 != 0).unwrap_or(false)
}
pub fn which<T: AsRef<OsStr>>(name: T) -> Result<PathBuf> {
    let n = Path::new(name.as_ref());
    if n.components().count() > 1 { return if is_exe(n) { Ok(n.into()) } else { Err(Error::CannotFindBinaryPath) }; }
    let path = std::env::var_os("PATH").ok_or(Error::CannotFindBinaryPath)?;
    std::env::split_paths(&path).map(|d| d.join(n)).find(|p| is_exe(p)).ok_or(Error::CannotFindBinaryPath)
}

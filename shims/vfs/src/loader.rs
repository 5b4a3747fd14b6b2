use paths::{AbsPath, AbsPathBuf};
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Entry {
    Files(Vec<AbsPathBuf>),
    Directories(Directories),
}
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Directories {
    pub extensions: Vec<String>,
    pub include: Vec<AbsPathBuf>,
    pub exclude: Vec<AbsPathBuf>,
}
#[derive(Debug)]
pub struct Config {
    pub version: u32,
    pub load: Vec<Entry>,
    pub watch: Vec<usize>,
}
#[derive(Debug, Copy, Clone, Eq, PartialEq)]
pub enum LoadingProgress {
    Started,
    Progress(usize),
    Finished,
}
pub enum Message {
    Progress { n_total: usize, n_done: LoadingProgress, dir: Option<AbsPathBuf>, config_version: u32 },
    Loaded { files: Vec<(AbsPathBuf, Option<Vec<u8>>)> },
    Changed { files: Vec<(AbsPathBuf, Option<Vec<u8>>)> },
}
pub type Sender = crossbeam_channel::Sender<Message>;
pub trait Handle: fmt::Debug {
    fn spawn(sender: Sender) -> Self
    where
        Self: Sized;
    fn set_config(&mut self, config: Config);
    fn invalidate(&mut self, path: AbsPathBuf);
    fn load_sync(&mut self, path: &AbsPath) -> Option<Vec<u8>>;
}
impl Entry {
    pub fn contains_file(&self, path: &AbsPath) -> bool {
        match self {
            Entry::Files(files) => files.iter().any(|it| it == path),
            Entry::Directories(dirs) => dirs.contains_file(path),
        }
    }
    pub fn contains_dir(&self, path: &AbsPath) -> bool {
        match self {
            Entry::Files(_) => false,
            Entry::Directories(dirs) => dirs.contains_dir(path),
        }
    }
}
impl Directories {
    pub fn contains_file(&self, path: &AbsPath) -> bool {
        let ext = path.extension().unwrap_or_default();
        if self.extensions.iter().all(|it| it.as_str() != ext) { return false; }
        self.includes_path(path)
    }
    pub fn contains_dir(&self, path: &AbsPath) -> bool { self.includes_path(path) }
    fn includes_path(&self, path: &AbsPath) -> bool {
        let mut include: Option<&AbsPathBuf> = None;
        for incl in &self.include {
            if path.starts_with(incl) {
                include = Some(match include {
                    Some(prev) if prev.starts_with(incl) => prev,
                    _ => incl,
                })
            }
        }
        let include = match include {
            Some(it) => it,
            None => return false,
        };
        !self.exclude.iter().any(|excl| path.starts_with(excl) && excl.starts_with(include))
    }
}
impl fmt::Debug for Message {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Message::Loaded { files } => f.debug_struct("Loaded").field("n_files", &files.len()).finish(),
            Message::Changed { files } => f.debug_struct("Changed").field("n_files", &files.len()).finish(),
            Message::Progress { n_total, n_done, dir, config_version } => f
                .debug_struct("Progress")
                .field("n_total", n_total)
                .field("n_done", n_done)
                .field("dir", dir)
                .field("config_version", config_version)
                .finish(),
        }
    }
}

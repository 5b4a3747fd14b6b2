//! Offline stand-in for `vfs-notify`: loads directories on a background thread.
//! OS-level file watching is not provided (`Config::watch` is ignored); clients that register
//! `didChangeWatchedFiles` use `invalidate`, which is.
use crossbeam_channel::{unbounded, Sender};
use paths::{AbsPath, AbsPathBuf};
use vfs::loader::{self, LoadingProgress};
use walkdir::WalkDir;

#[derive(Debug)]
pub struct NotifyHandle {
    sender: Option<Sender<Message>>,
    thread: Option<std::thread::JoinHandle<()>>,
}
#[derive(Debug)]
enum Message {
    Config(loader::Config),
    Invalidate(AbsPathBuf),
}
impl loader::Handle for NotifyHandle {
    fn spawn(sender: loader::Sender) -> NotifyHandle {
        let (tx, rx) = unbounded();
        let thread = std::thread::Builder::new()
            .name("VfsLoader".to_owned())
            .spawn(move || {
                for m in rx {
                    match m {
                        Message::Config(config) => run_config(&sender, config),
                        Message::Invalidate(path) => {
                            let contents = read(path.as_path());
                            let _ = sender.send(loader::Message::Changed { files: vec![(path, contents)] });
                        }
                    }
                }
            })
            .expect("failed to spawn thread");
        NotifyHandle { sender: Some(tx), thread: Some(thread) }
    }
    fn set_config(&mut self, config: loader::Config) { self.sender.as_ref().unwrap().send(Message::Config(config)).unwrap(); }
    fn invalidate(&mut self, path: AbsPathBuf) { self.sender.as_ref().unwrap().send(Message::Invalidate(path)).unwrap(); }
    fn load_sync(&mut self, path: &AbsPath) -> Option<Vec<u8>> { read(path) }
}
impl Drop for NotifyHandle {
    fn drop(&mut self) {
        self.sender = None;
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}
fn run_config(sender: &loader::Sender, config: loader::Config) {
    let config_version = config.version;
    let n_total = config.load.len();
    let send = |m| {
        let _ = sender.send(m);
    };
    send(loader::Message::Progress { n_total, n_done: LoadingProgress::Started, config_version, dir: None });
    for (i, entry) in config.load.into_iter().enumerate() {
        let files = load_entry(entry, |dir| {
            send(loader::Message::Progress { n_total, n_done: LoadingProgress::Progress(i), dir: Some(dir), config_version })
        });
        send(loader::Message::Loaded { files });
        send(loader::Message::Progress { n_total, n_done: LoadingProgress::Progress(i + 1), config_version, dir: None });
    }
    send(loader::Message::Progress { n_total, n_done: LoadingProgress::Finished, config_version, dir: None });
}
fn load_entry(entry: loader::Entry, progress: impl Fn(AbsPathBuf)) -> Vec<(AbsPathBuf, Option<Vec<u8>>)> {
    match entry {
        loader::Entry::Files(files) => files
            .into_iter()
            .map(|file| {
                let contents = read(file.as_path());
                (file, contents)
            })
            .collect(),
        loader::Entry::Directories(dirs) => {
            let mut res = Vec::new();
            for root in &dirs.include {
                progress(root.clone());
                let walk = WalkDir::new(root).follow_links(true).into_iter().filter_entry(|entry| {
                    if !entry.file_type().is_dir() { return true; }
                    let path = entry.path();
                    if path_might_be_cyclic(path) { return false; }
                    dirs.exclude.iter().all(|it| it != path) && (root == path || dirs.include.iter().all(|it| it != path))
                });
                for entry in walk.filter_map(Result::ok) {
                    if !entry.file_type().is_file() { continue; }
                    let Ok(p) = AbsPathBuf::try_from(match paths::Utf8PathBuf::from_path_buf(entry.into_path()) {
                        Ok(p) => p,
                        Err(_) => continue,
                    }) else { continue };
                    let ext = p.extension().unwrap_or_default();
                    if dirs.extensions.iter().all(|it| it.as_str() != ext) { continue; }
                    let contents = read(p.as_path());
                    res.push((p, contents));
                }
            }
            res
        }
    }
}
fn read(path: &AbsPath) -> Option<Vec<u8>> { std::fs::read(path).ok() }
fn path_might_be_cyclic(path: &std::path::Path) -> bool {
    let Ok(destination) = std::fs::read_link(path) else { return false };
    let is_relative_parent = destination.components().next() == Some(std::path::Component::ParentDir);
    is_relative_parent || path.starts_with(destination)
}

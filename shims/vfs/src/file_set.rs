use crate::{AnchoredPath, FileId, Vfs, VfsPath};
use nohash_hasher::IntMap;
use rustc_hash::FxHashMap;
use std::fmt;

#[derive(Default, Clone, Eq, PartialEq)]
pub struct FileSet {
    files: FxHashMap<VfsPath, FileId>,
    paths: IntMap<FileId, VfsPath>,
}
impl FileSet {
    pub fn len(&self) -> usize { self.files.len() }
    pub fn is_empty(&self) -> bool { self.files.is_empty() }
    pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> {
        let mut base = self.paths[&path.anchor].clone();
        base.pop();
        let path = base.join(path.path)?;
        self.files.get(&path).copied()
    }
    pub fn file_for_path(&self, path: &VfsPath) -> Option<&FileId> { self.files.get(path) }
    pub fn path_for_file(&self, file: &FileId) -> Option<&VfsPath> { self.paths.get(file) }
    pub fn insert(&mut self, file_id: FileId, path: VfsPath) {
        self.files.insert(path.clone(), file_id);
        self.paths.insert(file_id, path);
    }
    pub fn iter(&self) -> impl Iterator<Item = FileId> + '_ { self.paths.keys().copied() }
}
impl fmt::Debug for FileSet {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("FileSet").field("n_files", &self.files.len()).finish() }
}

/// Partitions files into roots by the longest registered prefix; the last set gathers the rest.
#[derive(Debug, Clone)]
pub struct FileSetConfig {
    n_file_sets: usize,
    map: Vec<(Vec<u8>, usize)>,
}
impl Default for FileSetConfig {
    fn default() -> Self { FileSetConfig::builder().build() }
}
impl FileSetConfig {
    pub fn builder() -> FileSetConfigBuilder { FileSetConfigBuilder::default() }
    pub fn partition(&self, vfs: &Vfs) -> Vec<FileSet> {
        let mut scratch = Vec::new();
        let mut res = vec![FileSet::default(); self.len()];
        for (file_id, path) in vfs.iter() {
            let root = self.classify(path, &mut scratch);
            res[root].insert(file_id, path.clone());
        }
        res
    }
    fn len(&self) -> usize { self.n_file_sets }
    pub fn roots(&self) -> Vec<(Vec<u8>, u64)> { self.map.iter().map(|(a, b)| (a.clone(), *b as u64)).collect() }
    fn classify(&self, path: &VfsPath, scratch: &mut Vec<u8>) -> usize {
        let path = path.parent().unwrap_or_else(|| path.clone());
        scratch.clear();
        path.encode(scratch);
        let mut best: Option<(usize, usize)> = None;
        for (p, i) in &self.map {
            if scratch.starts_with(p) && best.is_none_or(|(l, _)| p.len() >= l) {
                best = Some((p.len(), *i));
            }
        }
        best.map(|(_, i)| i).unwrap_or(self.len() - 1)
    }
}
#[derive(Default)]
pub struct FileSetConfigBuilder {
    roots: Vec<Vec<VfsPath>>,
}
impl FileSetConfigBuilder {
    pub fn len(&self) -> usize { self.roots.len() }
    pub fn is_empty(&self) -> bool { self.roots.is_empty() }
    pub fn add_file_set(&mut self, roots: Vec<VfsPath>) { self.roots.push(roots); }
    pub fn build(self) -> FileSetConfig {
        let n_file_sets = self.roots.len() + 1;
        let mut entries = Vec::new();
        for (i, paths) in self.roots.into_iter().enumerate() {
            for p in paths {
                let mut buf = Vec::new();
                p.encode(&mut buf);
                entries.push((buf, i));
            }
        }
        entries.sort();
        entries.dedup_by(|(a, _), (b, _)| a == b);
        FileSetConfig { n_file_sets, map: entries }
    }
}

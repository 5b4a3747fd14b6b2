//! Offline stand-in for rust-analyzer's `vfs`.
mod anchored_path;
pub mod file_set;
pub mod loader;
mod vfs_path;
use std::{fmt, hash::BuildHasherDefault};

pub use crate::{anchored_path::{AnchoredPath, AnchoredPathBuf}, vfs_path::VfsPath};
use indexmap::{map::Entry, IndexMap, IndexSet};
pub use paths::{AbsPath, AbsPathBuf};
use rustc_hash::FxHasher;

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq)]
pub struct FileId(u32);
impl std::hash::Hash for FileId {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u32(self.0) }
}
impl FileId {
    const MAX: u32 = 0x7fff_ffff;
    #[inline]
    pub const fn from_raw(raw: u32) -> FileId {
        assert!(raw <= Self::MAX);
        FileId(raw)
    }
    #[inline]
    pub const fn index(self) -> u32 { self.0 }
}
impl fmt::Debug for FileId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_tuple("FileId").field(&self.0).finish() }
}
impl nohash_hasher::IsEnabled for FileId {}

#[derive(Default)]
pub struct Vfs {
    interner: IndexSet<VfsPath, BuildHasherDefault<FxHasher>>,
    data: Vec<FileState>,
    changes: IndexMap<FileId, ChangedFile, BuildHasherDefault<FxHasher>>,
}
#[derive(Copy, Clone, Debug, PartialEq, PartialOrd)]
enum FileState {
    Exists(u64),
    Deleted,
    Excluded,
}
#[derive(Debug)]
pub struct ChangedFile {
    pub file_id: FileId,
    pub change: Change,
}
impl ChangedFile {
    pub fn exists(&self) -> bool { !matches!(self.change, Change::Delete) }
    pub fn is_created_or_deleted(&self) -> bool { matches!(self.change, Change::Create(_, _) | Change::Delete) }
    pub fn is_created(&self) -> bool { matches!(self.change, Change::Create(_, _)) }
    pub fn is_modified(&self) -> bool { matches!(self.change, Change::Modify(_, _)) }
    pub fn kind(&self) -> ChangeKind {
        match self.change {
            Change::Create(_, _) => ChangeKind::Create,
            Change::Modify(_, _) => ChangeKind::Modify,
            Change::Delete => ChangeKind::Delete,
        }
    }
}
#[derive(Eq, PartialEq, Debug)]
pub enum Change {
    Create(Vec<u8>, u64),
    Modify(Vec<u8>, u64),
    Delete,
}
#[derive(Eq, PartialEq, Debug)]
pub enum ChangeKind {
    Create,
    Modify,
    Delete,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum FileExcluded {
    Yes,
    No,
}

impl Vfs {
    pub fn file_id(&self, path: &VfsPath) -> Option<(FileId, FileExcluded)> {
        let file_id = self.interner.get_index_of(path).map(|i| FileId(i as u32))?;
        match self.get(file_id) {
            FileState::Exists(_) => Some((file_id, FileExcluded::No)),
            FileState::Deleted => None,
            FileState::Excluded => Some((file_id, FileExcluded::Yes)),
        }
    }
    pub fn file_path(&self, file_id: FileId) -> &VfsPath { self.interner.get_index(file_id.0 as usize).unwrap() }
    pub fn iter(&self) -> impl Iterator<Item = (FileId, &VfsPath)> + '_ {
        (0..self.data.len())
            .map(|it| FileId(it as u32))
            .filter(move |&file_id| matches!(self.get(file_id), FileState::Exists(_)))
            .map(move |file_id| (file_id, self.file_path(file_id)))
    }
    pub fn set_file_contents(&mut self, path: VfsPath, contents: Option<Vec<u8>>) -> bool {
        let file_id = self.alloc_file_id(path);
        let state: FileState = self.get(file_id);
        let change = match (state, contents) {
            (FileState::Deleted, None) => return false,
            (FileState::Deleted, Some(v)) => {
                let hash = hash_once(&v);
                Change::Create(v, hash)
            }
            (FileState::Exists(_), None) => Change::Delete,
            (FileState::Exists(hash), Some(v)) => {
                let new_hash = hash_once(&v);
                if new_hash == hash { return false; }
                Change::Modify(v, new_hash)
            }
            (FileState::Excluded, _) => return false,
        };
        self.data[file_id.0 as usize] = match &change {
            &Change::Create(_, hash) | &Change::Modify(_, hash) => FileState::Exists(hash),
            Change::Delete => FileState::Deleted,
        };
        let changed_file = ChangedFile { file_id, change };
        match self.changes.entry(file_id) {
            Entry::Occupied(mut o) => {
                use Change::*;
                match (&mut o.get_mut().change, changed_file.change) {
                    (change, Delete) => *change = Delete,
                    (Create(prev, old_hash), Create(new, new_hash) | Modify(new, new_hash)) => {
                        *prev = new;
                        *old_hash = new_hash;
                    }
                    (Modify(prev, old_hash), Modify(new, new_hash)) => {
                        *prev = new;
                        *old_hash = new_hash;
                    }
                    (change @ Delete, Create(new, new_hash)) => *change = Modify(new, new_hash),
                    (change @ Delete, Modify(new, new_hash)) => *change = Create(new, new_hash),
                    (prev @ Modify(_, _), new @ Create(_, _)) => *prev = new,
                }
            }
            Entry::Vacant(v) => { v.insert(changed_file); }
        };
        true
    }
    pub fn take_changes(&mut self) -> IndexMap<FileId, ChangedFile, BuildHasherDefault<FxHasher>> { std::mem::take(&mut self.changes) }
    pub fn exists(&self, file_id: FileId) -> bool { matches!(self.get(file_id), FileState::Exists(_)) }
    fn alloc_file_id(&mut self, path: VfsPath) -> FileId {
        let (id, _) = self.interner.insert_full(path);
        while self.data.len() <= id { self.data.push(FileState::Deleted); }
        FileId(id as u32)
    }
    fn get(&self, file_id: FileId) -> FileState { self.data[file_id.0 as usize] }
    pub fn insert_excluded_file(&mut self, path: VfsPath) {
        let file_id = self.alloc_file_id(path);
        self.data[file_id.0 as usize] = FileState::Excluded;
    }
}
fn hash_once(t: &[u8]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = FxHasher::default();
    t.hash(&mut h);
    h.finish()
}
impl fmt::Debug for Vfs {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("Vfs").field("n_files", &self.data.len()).finish() }
}

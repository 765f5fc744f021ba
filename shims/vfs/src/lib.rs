//! Stand-in for rust-analyzer's `vfs`: an interned, change-recording snapshot of file contents.
pub mod file_set;
pub mod loader;
mod vfs_path;
mod anchored_path;

pub use anchored_path::{AnchoredPath, AnchoredPathBuf};
pub use paths::{AbsPath, AbsPathBuf};
pub use vfs_path::VfsPath;

use indexmap::{map::Entry, IndexMap};
use rustc_hash::FxHasher;
use std::collections::HashMap;
use std::fmt;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::mem;

pub type FxIndexMap<K, V> = IndexMap<K, V, BuildHasherDefault<FxHasher>>;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct FileId(u32);
impl FileId {
    const MAX: u32 = 0x7fff_ffff;
    pub const BOGUS: FileId = FileId(0xe4e4e);
    #[inline]
    pub const fn from_raw(raw: u32) -> FileId {
        assert!(raw <= Self::MAX);
        FileId(raw)
    }
    #[inline]
    pub const fn index(self) -> u32 {
        self.0
    }
}
impl fmt::Debug for FileId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("FileId").field(&self.0).finish()
    }
}

#[derive(Default)]
struct PathInterner {
    map: HashMap<VfsPath, FileId>,
    list: Vec<VfsPath>,
}
impl PathInterner {
    fn get(&self, path: &VfsPath) -> Option<FileId> {
        self.map.get(path).copied()
    }
    fn intern(&mut self, path: VfsPath) -> FileId {
        if let Some(id) = self.get(&path) {
            return id;
        }
        let id = FileId(self.list.len() as u32);
        self.map.insert(path.clone(), id);
        self.list.push(path);
        id
    }
}

#[derive(Default)]
pub struct Vfs {
    interner: PathInterner,
    data: Vec<FileState>,
    changes: IndexMap<FileId, ChangedFile, BuildHasherDefault<FxHasher>>,
}
#[derive(Copy, Clone, Debug, PartialEq, PartialOrd)]
pub enum FileState {
    Exists(u64),
    Deleted,
    Excluded,
}
#[derive(Debug)]
pub struct ChangedFile {
    pub file_id: FileId,
    pub change: Change,
}
impl ChangedFile {
    pub fn exists(&self) -> bool {
        !matches!(self.change, Change::Delete)
    }
    pub fn is_created_or_deleted(&self) -> bool {
        matches!(self.change, Change::Create(_, _) | Change::Delete)
    }
    pub fn is_created(&self) -> bool {
        matches!(self.change, Change::Create(_, _))
    }
    pub fn is_modified(&self) -> bool {
        matches!(self.change, Change::Modify(_, _))
    }
    pub fn kind(&self) -> ChangeKind {
        match self.change {
            Change::Create(_, _) => ChangeKind::Create,
            Change::Modify(_, _) => ChangeKind::Modify,
            Change::Delete => ChangeKind::Delete,
        }
    }
}
#[derive(Eq, PartialEq, Debug)]
pub enum Change {
    Create(Vec<u8>, u64),
    Modify(Vec<u8>, u64),
    Delete,
}
#[derive(Eq, PartialEq, Debug)]
pub enum ChangeKind {
    Create,
    Modify,
    Delete,
}
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum FileExcluded {
    Yes,
    No,
}

impl Vfs {
    pub fn file_id(&self, path: &VfsPath) -> Option<(FileId, FileExcluded)> {
        let file_id = self.interner.get(path)?;
        let file_state = self.get(file_id);
        match file_state {
            FileState::Exists(_) => Some((file_id, FileExcluded::No)),
            FileState::Deleted => None,
            FileState::Excluded => Some((file_id, FileExcluded::Yes)),
        }
    }
    pub fn file_path(&self, file_id: FileId) -> &VfsPath {
        &self.interner.list[file_id.0 as usize]
    }
    pub fn iter(&self) -> impl Iterator<Item = (FileId, &VfsPath)> + '_ {
        (0..self.data.len())
            .map(|it| FileId(it as u32))
            .filter(move |&file_id| matches!(self.get(file_id), FileState::Exists(_)))
            .map(move |file_id| (file_id, &self.interner.list[file_id.0 as usize]))
    }
    pub fn set_file_contents(&mut self, path: VfsPath, contents: Option<Vec<u8>>) -> bool {
        let file_id = self.alloc_file_id(path);
        let state = self.get(file_id);
        let change = match (state, contents) {
            (FileState::Deleted, None) => return false,
            (FileState::Deleted, Some(v)) => {
                let hash = hash_once(&v);
                Change::Create(v, hash)
            }
            (FileState::Exists(_), None) => Change::Delete,
            (FileState::Exists(hash), Some(v)) => {
                let new_hash = hash_once(&v);
                if new_hash == hash {
                    return false;
                }
                Change::Modify(v, new_hash)
            }
            (FileState::Excluded, _) => return false,
        };
        let mut set_data = |change: &Change| {
            self.data[file_id.0 as usize] = match change {
                &Change::Create(_, hash) | &Change::Modify(_, hash) => FileState::Exists(hash),
                Change::Delete => FileState::Deleted,
            };
        };
        let changed_file = ChangedFile { file_id, change };
        match self.changes.entry(file_id) {
            Entry::Occupied(mut o) => {
                use Change::*;
                match (&mut o.get_mut().change, changed_file.change) {
                    (change, Delete) => *change = Delete,
                    (Create(prev, old_hash), Create(new, new_hash) | Modify(new, new_hash)) => {
                        *prev = new;
                        *old_hash = new_hash;
                    }
                    (Modify(prev, old_hash), Modify(new, new_hash)) => {
                        *prev = new;
                        *old_hash = new_hash;
                    }
                    (change @ Delete, Create(new, new_hash)) => *change = Modify(new, new_hash),
                    (change @ Delete, Modify(new, new_hash)) => *change = Create(new, new_hash),
                    (prev @ Modify(_, _), new @ Create(_, _)) => *prev = new,
                }
                set_data(&o.get().change);
            }
            Entry::Vacant(v) => set_data(&v.insert(changed_file).change),
        };
        true
    }
    pub fn take_changes(&mut self) -> IndexMap<FileId, ChangedFile, BuildHasherDefault<FxHasher>> {
        mem::take(&mut self.changes)
    }
    pub fn exists(&self, file_id: FileId) -> bool {
        matches!(self.get(file_id), FileState::Exists(_))
    }
    fn alloc_file_id(&mut self, path: VfsPath) -> FileId {
        let file_id = self.interner.intern(path);
        let idx = file_id.0 as usize;
        let len = self.data.len().max(idx + 1);
        self.data.resize(len, FileState::Deleted);
        file_id
    }
    fn get(&self, file_id: FileId) -> FileState {
        self.data[file_id.0 as usize]
    }
    pub fn insert_excluded_file(&mut self, path: VfsPath) {
        let file_id = self.alloc_file_id(path);
        self.data[file_id.0 as usize] = FileState::Excluded;
    }
}
impl fmt::Debug for Vfs {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Vfs").field("n_files", &self.data.len()).finish()
    }
}
fn hash_once(thing: &Vec<u8>) -> u64 {
    let mut h = FxHasher::default();
    thing.hash(&mut h);
    h.finish()
}

//! Partitions a list of files into disjoint subsets by root directory.
use crate::{AnchoredPath, FileId, Vfs, VfsPath};
use std::collections::HashMap;
use std::fmt;

#[derive(Default, Clone, Eq, PartialEq)]
pub struct FileSet {
    files: HashMap<VfsPath, FileId>,
    paths: HashMap<FileId, VfsPath, std::hash::BuildHasherDefault<rustc_hash::FxHasher>>,
}
impl FileSet {
    pub fn len(&self) -> usize {
        self.files.len()
    }
    pub fn is_empty(&self) -> bool {
        self.files.is_empty()
    }
    pub fn resolve_path(&self, path: AnchoredPath<'_>) -> Option<FileId> {
        let mut base = self.paths[&path.anchor].clone();
        base.pop();
        let path = base.join(path.path)?;
        self.files.get(&path).copied()
    }
    pub fn file_for_path(&self, path: &VfsPath) -> Option<&FileId> {
        self.files.get(path)
    }
    pub fn path_for_file(&self, file: &FileId) -> Option<&VfsPath> {
        self.paths.get(file)
    }
    pub fn insert(&mut self, file_id: FileId, path: VfsPath) {
        self.files.insert(path.clone(), file_id);
        self.paths.insert(file_id, path);
    }
    pub fn iter(&self) -> impl Iterator<Item = FileId> + '_ {
        self.paths.keys().copied()
    }
}
impl fmt::Debug for FileSet {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("FileSet").field("n_files", &self.files.len()).finish()
    }
}

#[derive(Debug, Clone)]
pub struct FileSetConfig {
    n_file_sets: usize,
    roots: Vec<(VfsPath, usize)>,
}
impl Default for FileSetConfig {
    fn default() -> Self {
        FileSetConfig::builder().build()
    }
}
impl FileSetConfig {
    pub fn builder() -> FileSetConfigBuilder {
        FileSetConfigBuilder::default()
    }
    /// One set per root group, plus a last one for files under no root.
    pub fn partition(&self, vfs: &Vfs) -> Vec<FileSet> {
        let mut res = vec![FileSet::default(); self.len()];
        for (file_id, path) in vfs.iter() {
            let root = self.classify(path);
            res[root].insert(file_id, path.clone());
        }
        res
    }
    fn len(&self) -> usize {
        self.n_file_sets
    }
    pub fn roots(&self) -> Vec<(Vec<u8>, u64)> {
        self.roots.iter().map(|(p, n)| (p.to_string().into_bytes(), *n as u64)).collect()
    }
    fn classify(&self, path: &VfsPath) -> usize {
        let dir = path.parent().unwrap_or_else(|| path.clone());
        let mut best: Option<(usize, usize)> = None;
        for (root, idx) in &self.roots {
            if dir.starts_with(root) {
                let len = root.to_string().len();
                if best.map_or(true, |(l, _)| len >= l) {
                    best = Some((len, *idx));
                }
            }
        }
        best.map_or(self.len() - 1, |(_, idx)| idx)
    }
}
#[derive(Default)]
pub struct FileSetConfigBuilder {
    roots: Vec<Vec<VfsPath>>,
}
impl FileSetConfigBuilder {
    pub fn len(&self) -> usize {
        self.roots.len()
    }
    pub fn is_empty(&self) -> bool {
        self.roots.is_empty()
    }
    pub fn add_file_set(&mut self, roots: Vec<VfsPath>) {
        self.roots.push(roots);
    }
    pub fn build(self) -> FileSetConfig {
        let n_file_sets = self.roots.len() + 1;
        let mut roots: Vec<(VfsPath, usize)> = vec![];
        for (i, paths) in self.roots.into_iter().enumerate() {
            for p in paths {
                if !roots.iter().any(|(q, _)| *q == p) {
                    roots.push((p, i));
                }
            }
        }
        FileSetConfig { n_file_sets, roots }
    }
}

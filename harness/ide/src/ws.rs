//! Generated worlds loaded into the real analysis engine, in memory.
use base_db::change::{FileChanges, PackageGraph};
use base_db::inputs::PackageMetadata;
use base_db::package_root::{PackageKind, PackageRoot};
use common::Src;
use ide::{Analysis, AnalysisHost};
use movegen::layout::{self, Laid};
use movegen::{Opts, World};
use std::sync::Arc;
use syntax::files::{FilePosition, FileRange};
use syntax::{TextRange, TextSize};
use vfs::file_set::FileSet;
use vfs::{FileId, Vfs, VfsPath};

pub struct Ws {
    pub host: AnalysisHost,
    pub vfs: Vfs,
    pub files: Vec<FileId>,
    pub manifests: Vec<FileId>,
    pub builtins: FileId,
}

pub struct Pack<'a> {
    pub name: &'a str,
    pub lib: bool,
    pub deps: Vec<usize>,
    pub addrs: Vec<(String, String)>,
}

/// files: (package, path, text)
pub fn load(pkgs: &[Pack], files: &[(usize, &str, &str)]) -> Ws {
    let mut vfs = Vfs::default();
    let mut host = AnalysisHost::new();
    let mut change = FileChanges::new();
    let mut sets: Vec<FileSet> = pkgs.iter().map(|_| FileSet::default()).collect();
    let mut manifests = vec![];
    for (i, p) in pkgs.iter().enumerate() {
        let path = VfsPath::new_virtual_path(format!("/{}/Move.toml", p.name));
        vfs.set_file_contents(path.clone(), Some(vec![]));
        let id = vfs.file_id(&path).unwrap().0;
        sets[i].insert(id, path);
        change.change_file(id, Some(String::new()));
        manifests.push(id);
    }
    let mut ids = vec![];
    for (p, path, text) in files {
        let path = VfsPath::new_virtual_path(path.to_string());
        vfs.set_file_contents(path.clone(), Some(text.as_bytes().to_vec()));
        let id = vfs.file_id(&path).unwrap().0;
        sets[*p].insert(id, path);
        change.change_file(id, Some(text.to_string()));
        ids.push(id);
    }
    let mut graph = PackageGraph::default();
    for (i, p) in pkgs.iter().enumerate() {
        // the server lists the transitive closure
        let mut all: Vec<usize> = vec![];
        let mut todo = p.deps.clone();
        while let Some(d) = todo.pop() {
            if !all.contains(&d) {
                all.push(d);
                todo.extend(pkgs[d].deps.iter().copied());
            }
        }
        graph.insert(
            manifests[i],
            PackageMetadata {
                package_name: Some(p.name.to_string()),
                dep_manifest_ids: Arc::new(all.iter().map(|d| manifests[*d]).collect()),
                resolve_deps: true,
                named_addresses: p.addrs.clone(),
                missing_dependencies: vec![],
            },
        );
    }
    let mut g = FileChanges::new();
    g.set_package_graph(graph);
    host.apply_change(g);
    let roots = sets
        .into_iter()
        .enumerate()
        .map(|(i, s)| {
            let kind = if pkgs[i].lib { PackageKind::Library } else { PackageKind::Local };
            PackageRoot::new(s, kind, Some(manifests[i]))
        })
        .collect();
    change.set_package_roots(roots);
    host.apply_change(change);
    let b = lang::builtins_file::add_to_vfs(&mut vfs);
    let builtins = b.builtins_file.as_ref().unwrap().0;
    host.apply_change(b);
    Ws { host, vfs, files: ids, manifests, builtins }
}

/// A generated world, written out and loaded.
pub struct Gen {
    pub w: World,
    pub laid: Vec<Laid>,
    pub ws: Ws,
    pub an: Analysis,
}

pub fn texts(w: &World, laid: &[Laid]) -> String {
    let mut s = String::new();
    for (f, l) in w.files.iter().zip(laid) {
        s.push_str(&format!("//- {} (package {}{})\n{}", f.path, w.pkgs[f.pkg].name, if w.pkgs[f.pkg].lib { ", library" } else { "" }, l.text));
    }
    s
}

pub fn generate(s: &mut Src, o: Opts) -> Gen {
    let mut w = movegen::world(s, o.clone());
    for _ in 0..3 {
        if w.poisoned {
            w = movegen::world(s, o.clone());
        }
    }
    let rnd = s.chance(1, 3);
    let laid: Vec<Laid> = w.files.iter().map(|f| if rnd { layout::random(f, s) } else { layout::natural(f) }).collect();
    from_world(w, laid)
}

pub fn from_world(w: World, laid: Vec<Laid>) -> Gen {
    let texts: Vec<&str> = laid.iter().map(|l| l.text.as_str()).collect();
    let ws = load_world(&w, &texts);
    let an = ws.host.analysis();
    Gen { w, laid, ws, an }
}

pub fn load_world(w: &World, texts: &[&str]) -> Ws {
    let packs: Vec<Pack> = w
        .pkgs
        .iter()
        .map(|p| Pack { name: &p.name, lib: p.lib, deps: p.deps.clone(), addrs: p.addrs.clone() })
        .collect();
    let files: Vec<(usize, &str, &str)> =
        w.files.iter().zip(texts).map(|(f, t)| (f.pkg, f.path.as_str(), *t)).collect();
    load(&packs, &files)
}

pub fn range(a: usize, b: usize) -> TextRange {
    TextRange::new(TextSize::new(a as u32), TextSize::new(b as u32))
}

impl Gen {
    pub fn piece_range(&self, file: usize, p: usize) -> TextRange {
        let (a, b) = self.laid[file].at[p];
        range(a, b)
    }
    pub fn span_range(&self, file: usize, from: usize, to: usize) -> TextRange {
        range(self.laid[file].at[from].0, self.laid[file].at[to - 1].1)
    }
    pub fn pos(&self, file: usize, off: usize) -> FilePosition {
        FilePosition { file_id: self.ws.files[file], offset: TextSize::new(off as u32) }
    }
    pub fn frange(&self, file: usize, r: TextRange) -> FileRange {
        FileRange { file_id: self.ws.files[file], range: r }
    }
    pub fn file_index(&self, id: FileId) -> Option<usize> {
        self.ws.files.iter().position(|f| *f == id)
    }
    pub fn show(&self) -> String {
        texts(&self.w, &self.laid)
    }
    /// `file:line:col` and the line
    pub fn at(&self, file: usize, off: usize) -> String {
        let t = &self.laid[file].text;
        let a = t[..off].rfind('\n').map(|x| x + 1).unwrap_or(0);
        let b = t[off..].find('\n').map(|x| x + off).unwrap_or(t.len());
        let line = t[..off].matches('\n').count() + 1;
        format!("{}:{}:{}: {}", self.w.files[file].path, line, off - a + 1, &t[a..b])
    }
}

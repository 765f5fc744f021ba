//! C21: the packages of a folder, as declared by the manifests on disk.
use crate::client::{Scratch, abs};
use common::*;
use ide::Analysis;
use ide_db::load::load_db;
use project_model::DiscoveredManifest;
use project_model::aptos_package::PackageKind;
use project_model::aptos_package::load_from_fs::load_aptos_packages;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;
use syntax::TextSize;
use syntax::files::FilePosition;

/// the home folder of this process: git dependencies are looked up in ~/.move
fn home() -> &'static Path {
    static HOME: OnceLock<PathBuf> = OnceLock::new();
    HOME.get_or_init(|| {
        let p = std::env::temp_dir().join(format!("vf-home-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        // before any other thread is started
        unsafe { std::env::set_var("HOME", &p) };
        p
    })
}

struct Rm(Vec<PathBuf>);
impl Drop for Rm {
    fn drop(&mut self) {
        for p in &self.0 {
            if p.starts_with(home()) {
                let _ = std::fs::remove_dir_all(p);
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Dep {
    Local(usize),
    Git(usize),
    /// nothing there
    Gone,
    /// not a dependency at all
    Bad,
}

#[derive(Clone, Debug)]
struct P {
    dir: PathBuf,
    name: Option<String>,
    ok: bool,
    git: Option<(String, String, Option<String>)>,
    ws: bool,
    resolve: bool,
    deps: BTreeMap<String, Dep>,
    dev: BTreeMap<String, Dep>,
    addrs: BTreeMap<String, String>,
    dev_addrs: BTreeMap<String, String>,
}

fn relative(from: &Path, to: &Path) -> String {
    let (a, b): (Vec<_>, Vec<_>) = (from.components().collect(), to.components().collect());
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut v: Vec<String> = vec!["..".into(); a.len() - n];
    v.extend(b[n..].iter().map(|c| c.as_os_str().to_str().unwrap().to_string()));
    if v.is_empty() { ".".into() } else { v.join("/") }
}

fn section(s: &mut Src, out: &mut String, name: &str, deps: &BTreeMap<String, Dep>, me: &P, all: &[P]) {
    let mut later = String::new();
    let mut first = true;
    for (k, d) in deps {
        let fields: Vec<(&str, String)> = match d {
            Dep::Local(t) => {
                let r = relative(&me.dir, &all[*t].dir);
                let r = match s.below(6) {
                    0 => format!("./{r}"),
                    1 => format!("{r}/"),
                    2 => format!("{r}/."),
                    3 => format!("sources/../{r}"),
                    _ => r,
                };
                vec![("local", r)]
            }
            Dep::Git(t) => {
                let (url, rev, sub) = all[*t].git.clone().unwrap();
                let mut v = vec![("git", url), ("rev", rev)];
                if let Some(x) = sub {
                    v.push(("subdir", x));
                }
                v
            }
            Dep::Gone => match s.below(3) {
                0 => vec![("local", "../nowhere".into())],
                1 => vec![("git", "https://github.com/vf/nothing.git".into()), ("rev", "main".into())],
                _ => vec![("local", "./doc".into())],
            },
            Dep::Bad => match s.below(3) {
                0 => vec![("git", "https://github.com/vf/norev.git".into())],
                1 => vec![("version", "1.0".into())],
                _ => vec![("addr_subst", "x".into())],
            },
        };
        let mut fields: Vec<String> = fields.into_iter().map(|(k, v)| format!("{k} = \"{v}\"")).collect();
        if matches!(d, Dep::Bad) && s.chance(1, 3) {
            fields = vec!["local = 3".into()];
        }
        if s.chance(1, 5) {
            fields.push("digest = \"00\"".into());
        }
        if s.flip() {
            fields.reverse();
        }
        if s.flip() {
            if first {
                out.push_str(&format!("[{name}]\n"));
                first = false;
            }
            if matches!(d, Dep::Bad) && s.chance(1, 4) {
                out.push_str(&format!("{k} = \"../other\"\n"));
            } else {
                out.push_str(&format!("{k} = {{ {} }}\n", fields.join(", ")));
            }
        } else {
            later.push_str(&format!("[{name}.{k}]\n{}\n", fields.join("\n")));
        }
    }
    if first && s.chance(1, 2) {
        out.push_str(&format!("[{name}]\n"));
    }
    out.push_str(&later);
}

fn manifest(s: &mut Src, i: usize, all: &[P]) -> String {
    let p = &all[i];
    let mut secs: Vec<String> = vec![];
    let mut t = String::new();
    match &p.name {
        Some(n) => {
            t.push_str("[package]\n");
            t.push_str(&format!("name = \"{n}\"\n"));
            if s.flip() {
                t.push_str("version = \"1.0.0\"\n");
            }
            if s.flip() {
                t.push_str("upgrade_policy = \"compatible\"\nauthors = [\"a\"]\n");
            }
        }
        None if s.flip() => t.push_str("[package]\nversion = \"0.1\"\n"),
        None => (),
    }
    secs.push(t);
    for (n, m) in [("addresses", &p.addrs), ("dev-addresses", &p.dev_addrs)] {
        let mut t = String::new();
        if !m.is_empty() || s.flip() {
            t.push_str(&format!("[{n}]\n"));
        }
        for (k, v) in m {
            if v == "_" && s.flip() {
                t.push_str(&format!("{k} = 5\n"));
            } else {
                t.push_str(&format!("{k} = \"{v}\"\n"));
            }
        }
        secs.push(t);
    }
    for (n, m) in [("dependencies", &p.deps), ("dev-dependencies", &p.dev)] {
        let mut t = String::new();
        section(s, &mut t, n, m, p, all);
        secs.push(t);
    }
    if s.chance(1, 3) {
        secs.swap(0, 3);
    }
    if s.chance(1, 3) {
        secs.swap(1, 4);
    }
    let mut t = secs.join(if s.flip() { "\n" } else { "# comment\n" });
    if !p.ok {
        match s.below(4) {
            0 => t.push_str("\n[package\n"),
            1 => t.push_str("\n= 3\n"),
            2 => t.push_str("\nname = \"unfinished"),
            _ => t = "[package]\nname = \"a\"\nname = \"b\"\n".into(),
        }
    }
    if s.chance(1, 6) {
        t = t.replace('\n', "\r\n");
    }
    t
}

#[derive(Clone)]
struct F {
    path: PathBuf,
    text: String,

}

fn packages(s: &mut Src, c: &mut Case) -> PropResult {
    let sc = Scratch::new();
    let root = std::fs::canonicalize(&sc.0).unwrap();
    let tag = root.file_name().unwrap().to_str().unwrap().to_string();
    let core = s.chance(1, 10);
    if core {
        std::fs::create_dir_all(root.join("ws/aptos-move/framework")).unwrap();
    }
    // where the packages are
    let n = s.range(2, 9);
    let mut all: Vec<P> = vec![];
    let mut rm = Rm(vec![]);
    for i in 0..n {
        let place = if i == 0 { 0 } else { s.weighted(&[6, 2, 3]) };
        let mut git = None;
        let mut resolve = true;
        let dir = match place {
            0 => {
                let base = root.join("ws");
                let inside: Vec<usize> = (0..i).filter(|j| all[*j].ws && all[*j].resolve).collect();
                match s.below(if core { 3 } else { 6 }) {
                    _ if core && s.flip() => base.join("aptos-move/framework").join(format!("p{i}")),
                    0 if core => base.join("aptos-move/move-examples").join(format!("p{i}")),
                    1 if core => base.join("testsuite/module-publish/src/packages").join(format!("p{i}")),
                    _ if core => {
                        resolve = false;
                        base.join("third_party").join(format!("p{i}"))
                    }
                    0 if i == 0 => base,
                    1 if !inside.is_empty() => {
                        let j = *s.pick(&inside);
                        all[j].dir.join(*s.pick(&["inner", "sources/inner", "tests", "build/dep", "vendor/a/b"])).join(format!("p{i}"))
                    }
                    2 => base.join("deep/er").join(format!("p{i}")),
                    _ => base.join(format!("p{i}")),
                }
            }
            1 => root.join("out").join(format!("p{i}")),
            _ => {
                // another package of the same repository, or a new repository
                let repos: Vec<usize> = (0..i).filter(|j| all[*j].git.is_some()).collect();
                let (url, rev) = if !repos.is_empty() && s.flip() {
                    let g = all[*s.pick(&repos)].git.clone().unwrap();
                    (g.0, g.1)
                } else {
                    let u = match s.below(3) {
                        0 => format!("git@github.com:vf/{tag}.{i}.git"),
                        1 => format!("https://host.org:80/{tag}/r-{i}"),
                        _ => format!("https://github.com/vf/{tag}_r{i}.git"),
                    };
                    (u, s.pick(&["main", "feat/x", "1.2.3", "aptos@2"]).to_string())
                };
                let plain: String = url.chars().map(|c| if "/:.@".contains(c) { '_' } else { c }).collect();
                let repo = home().join(".move").join(format!("{plain}_{}", rev.replace('/', "_")));
                rm.0.push(repo.clone());
                let sub = if all.iter().any(|p| p.dir == repo) || s.flip() {
                    Some(format!("{}p{i}", s.pick(&["", "pk/"])))
                } else {
                    None
                };
                git = Some((url, rev, sub.clone()));
                match sub {
                    Some(x) => repo.join(x),
                    None => repo,
                }
            }
        };
        if all.iter().any(|p| p.dir == dir) {
            return Ok(());
        }
        let mut addrs = BTreeMap::new();
        let mut dev_addrs = BTreeMap::new();
        for m in [&mut addrs, &mut dev_addrs] {
            for _ in 0..s.below(3) {
                m.insert(format!("a{}", s.below(9)), s.pick(&["0x1", "_", "0xCAFE", "0x000a"]).to_string());
            }
        }
        let name = match s.below(10) {
            0 => None,
            1 => Some("Twin".into()),
            _ => Some(format!("Pack{i}")),
        };
        all.push(P { dir, name, ok: !s.chance(1, 12), ws: place == 0, git, resolve, deps: BTreeMap::new(), dev: BTreeMap::new(), addrs, dev_addrs });
    }
    let cycles = s.chance(1, 8);
    for i in 0..n {
        for dev in [false, true] {
            for _ in 0..s.below(if dev { 2 } else { 4 }) {
                let t = s.idx(n);
                // a repository cannot know about the folders of this machine; an unresolved package of aptos-core is no dependency
                let reachable = all[t].git.is_some() || all[i].git.is_none();
                let d = match s.below(12) {
                    0 => Dep::Gone,
                    1 => Dep::Bad,
                    _ if !reachable || t == i || !cycles && t < i || !all[t].resolve => continue,
                    _ if all[t].git.is_none() => Dep::Local(t),
                    _ if all[i].git.is_some() && all[i].git.as_ref().unwrap().0 == all[t].git.as_ref().unwrap().0 && s.flip() => Dep::Local(t),
                    _ => Dep::Git(t),
                };
                let key = match &d {
                    Dep::Local(t) | Dep::Git(t) if s.chance(4, 5) => all[*t].name.clone().unwrap_or("Nameless".into()),
                    _ => format!("{}{}", s.pick(&["Dep", "a", "Z"]), s.below(4)),
                };
                if dev { &mut all[i].dev } else { &mut all[i].deps }.insert(key, d);
            }
        }
    }
    // the files
    let mut shown = String::new();
    let mut files: Vec<F> = vec![];
    for i in 0..n {
        let t = manifest(s, i, &all);
        let p = &all[i];
        std::fs::create_dir_all(&p.dir).unwrap();
        std::fs::create_dir_all(p.dir.join("sources")).unwrap();
        std::fs::create_dir_all(p.dir.join("doc")).unwrap();
        std::fs::write(p.dir.join("Move.toml"), &t).unwrap();
        shown.push_str(&format!("//- {}/Move.toml\n{t}\n", p.dir.display()));
        let place = *s.pick(&["sources", "sources/sub/x", "tests", "scripts"]);
        let mut put = |path: PathBuf, text: String, s: &mut Src| {
            let raw = if s.chance(1, 4) { text.replace('\n', "\r\n") } else { text.clone() };
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            std::fs::write(&path, &raw).unwrap();
            files.push(F { path, text });
        };
        put(p.dir.join(place).join(format!("m{i}.move")), format!("module 0x{i:x}::mod_{i} {{\n    public fun f_{i}() {{}}\n}}\n"), s);
        let uses: String = (0..n).map(|j| format!("    use 0x{j:x}::mod_{j}::f_{j};\n")).collect();
        let place = *s.pick(&["sources", "sources/sub/x", "tests/deep", "scripts"]);
        put(p.dir.join(place).join(format!("probe{i}.move")), format!("module 0xff::probe_{i} {{\n{uses}}}\n"), s);
        // these are not sources
        if s.chance(1, 2) {
            put(p.dir.join(*s.pick(&["build", "doc", "source", "Sources", ".", "build/sources"])).join(format!("x{i}.move")), format!("module 0x{i:x}::not_{i} {{}}\n"), s);
        }
        if s.chance(1, 4) {
            put(p.dir.join("sources").join(format!("x{i}.mv")), "module 0x1::not {}\n".into(), s);
        }
    }
    for f in &files {
        shown.push_str(&format!("//- {}\n", f.path.display()));
    }
    let shown = shown.replace(root.to_str().unwrap(), "$ROOT").replace(home().to_str().unwrap(), "$HOME").replace(&tag, "TAG");
    c.input(&shown);

    // ---------------------------------------------------------------- what is there
    let toml = |d: &Path| abs(&d.join("Move.toml"));
    let roots: Vec<PathBuf> = match s.below(4) {
        0 if !core => vec![root.join("ws"), all[0].dir.clone()],
        _ => vec![root.join("ws")],
    };
    let found = DiscoveredManifest::discover_all(&roots.iter().map(|r| abs(r)).collect::<Vec<_>>());
    let got: BTreeSet<(String, bool)> = found.iter().map(|m| (m.move_toml_file.to_string(), m.resolve_deps)).collect();
    let want: BTreeSet<(String, bool)> =
        all.iter().filter(|p| p.dir.starts_with(root.join("ws"))).map(|p| (toml(&p.dir).to_string(), if core { p.resolve } else { true })).collect();
    ensure!(got.len() == found.len(), "discover-twice", "a manifest is found twice: {found:?}");
    ensure!(got == want, "discover", "manifests of the workspace\n got {got:?}\nwant {want:?}");

    // ---------------------------------------------------------------- the packages
    let at = |d: &Path| all.iter().position(|p| p.dir == d);
    let declared = |i: usize| -> Vec<(String, Dep)> {
        let p = &all[i];
        if !p.resolve {
            return vec![];
        }
        p.deps.iter().chain(p.dev.iter()).map(|(k, d)| (k.clone(), d.clone())).collect()
    };
    let mut reach: BTreeSet<usize> = BTreeSet::new();
    let mut todo: Vec<usize> = (0..n).filter(|i| all[*i].dir.starts_with(root.join("ws"))).collect();
    while let Some(i) = todo.pop() {
        if reach.insert(i) && all[i].ok {
            todo.extend(declared(i).into_iter().filter_map(|(_, d)| match d {
                Dep::Local(t) | Dep::Git(t) => Some(t),
                _ => None,
            }));
        }
    }
    let closure = |i: usize| -> Vec<usize> {
        let mut seen = BTreeSet::new();
        let mut names = BTreeSet::new();
        let mut out = vec![];
        let next = |i: usize| {
            declared(i).into_iter().filter_map(|(_, d)| match d {
                Dep::Local(t) | Dep::Git(t) => Some(t),
                _ => None,
            })
        };
        let mut q: VecDeque<usize> = next(i).collect();
        while let Some(d) = q.pop_front() {
            if !seen.insert(d) {
                continue;
            }
            if !all[d].ok {
                out.push(d);
                continue;
            }
            // of two packages with one name the nearer counts
            if let Some(x) = &all[d].name {
                if !names.insert(x.clone()) {
                    continue;
                }
            }
            out.push(d);
            q.extend(next(d));
        }
        out
    };
    let loaded = load_aptos_packages(found);
    let bad = loaded.packages.len() - loaded.valid_packages().len();
    ensure_eq!(bad, reach.iter().filter(|i| !all[**i].ok).count(), "packages-broken", "manifests reported as broken");
    let valid = loaded.valid_packages();
    let mut seen = BTreeSet::new();
    let mut edges = 0;
    for p in &valid {
        let d: &Path = p.content_root().as_ref();
        let Some(i) = at(d) else { fail!("packages-extra", "package at {}", d.display()) };
        ensure!(seen.insert(i), "packages-twice", "package {} is loaded twice", d.display());
        ensure_eq!(p.package_name, all[i].name, "package-name", "name of {}", d.display());
        ensure_eq!(p.is_local(), all[i].git.is_none(), "package-local", "{} is local", d.display());
        let got: Vec<(PathBuf, bool)> =
            p.dep_roots().iter().map(|(r, k)| (AsRef::<Path>::as_ref(r).to_path_buf(), *k == PackageKind::Local)).collect();
        let want: Vec<(PathBuf, bool)> = closure(i).into_iter().map(|t| (all[t].dir.clone(), all[t].git.is_none())).collect();
        edges += want.len();
        let sort = |v: &[(PathBuf, bool)]| v.iter().cloned().collect::<BTreeSet<_>>();
        ensure_eq!(got.len(), sort(&got).len(), "package-deps-twice", "dependencies of {}: {got:?}", d.display());
        ensure!(sort(&got) == sort(&want), "package-deps", "dependencies of {}\n got {got:?}\nwant {want:?}", d.display());
        let mut got: Vec<_> = p.named_addresses.iter().map(|a| (a.0.clone(), a.1.clone())).collect();
        got.sort();
        let mut want: Vec<_> = all[i].addrs.iter().chain(&all[i].dev_addrs).map(|(a, b)| (a.clone(), b.clone())).collect();
        want.sort();
        ensure_eq!(got, want, "package-addresses", "addresses of {}", d.display());
        let mut got = p.missing_dependencies.clone();
        got.sort();
        let mut want: Vec<String> = declared(i).into_iter().filter(|x| matches!(x.1, Dep::Gone)).map(|x| x.0).collect();
        want.sort();
        ensure_eq!(got, want, "package-missing", "missing dependencies of {}", d.display());
    }
    let want: BTreeSet<usize> = reach.iter().copied().filter(|i| all[*i].ok).collect();
    ensure!(seen == want, "packages", "packages {seen:?}, expected {want:?}");

    // ---------------------------------------------------------------- the files
    let (db, vfs) = load_db(&valid).map_err(|e| Fail::new("load", format!("{e}")))?;
    let an = Analysis::new(db);
    let owner = |f: &Path| seen.iter().copied().filter(|i| f.starts_with(&all[*i].dir)).max_by_key(|i| all[*i].dir.components().count());
    let is_loaded = |f: &Path| {
        f.extension().is_some_and(|e| e == "move")
            && seen.iter().any(|i| ["sources", "tests", "scripts"].iter().any(|d| f.starts_with(all[*i].dir.join(d))))
    };
    let mut ids = BTreeMap::new();
    for (id, p) in vfs.iter() {
        if let Some(p) = p.as_path() {
            ids.insert(AsRef::<Path>::as_ref(p).to_path_buf(), id);
        }
    }
    for f in &files {
        let x = f.path.components().collect::<PathBuf>();
        ensure!(ids.contains_key(&x) == is_loaded(&x), "load-file", "{} is loaded: {}, expected {}", x.display(), ids.contains_key(&x), is_loaded(&x));
        let near = x.ancestors().skip(1).find_map(|d| at(d));
        let want = near.filter(|i| ["sources", "tests", "scripts"].iter().any(|d| x.starts_with(all[*i].dir.join(d)))).map(|i| toml(&all[i].dir).to_string());
        let got = DiscoveredManifest::discover_for_file(&abs(&x)).map(|m| m.move_toml_file.to_string());
        ensure_eq!(got, want, "discover-file", "manifest for {}", x.display());
        let Some(id) = ids.get(&x) else { continue };
        ensure_eq!(&*an.file_text(*id).unwrap(), f.text.as_str(), "load-text", "text of {}", x.display());
        let o = owner(&x).unwrap();
        let pk = an.package_id(*id).unwrap();
        let m = an.manifest_file_id(pk).unwrap().map(|m| vfs.file_path(m).to_string());
        ensure_eq!(m, Some(toml(&all[o].dir).to_string()), "file-package", "the package of {}", x.display());
        ensure_eq!(an.is_local_package(*id).unwrap(), all[o].git.is_none(), "file-local", "{} is local", x.display());
        let meta = an.package_metadata(*id).unwrap();
        ensure!(meta.as_ref().is_some_and(|x| x.package_name == all[o].name), "file-metadata", "metadata of {}: {meta:?}", x.display());
    }
    // ---------------------------------------------------------------- what is visible from where
    let mut visible = 0;
    for f in &files {
        let x = f.path.components().collect::<PathBuf>();
        let Some(id) = ids.get(&x) else { continue };
        if !f.text.contains("::probe_") {
            continue;
        }
        let o = owner(&x).unwrap();
        let mut see: BTreeSet<usize> = closure(o).into_iter().filter(|i| all[*i].ok).collect();
        see.insert(o);
        // the folder of a broken package belongs to the package around it
        let maybe: BTreeSet<usize> = closure(o).into_iter().filter(|i| !all[*i].ok).filter_map(|i| owner(&all[i].dir)).collect();
        for j in 0..n {
            let at = f.text.find(&format!("f_{j};")).unwrap();
            let t = an
                .goto_definition(FilePosition { file_id: *id, offset: TextSize::from(at as u32) })
                .unwrap()
                .map(|r| r.info.file_id)
                .map(|t| vfs.file_path(t).to_string());
            let m = files.iter().find(|y| y.text.contains(&format!("::mod_{j} "))).unwrap();
            let mp = m.path.components().collect::<PathBuf>();
            let want = (is_loaded(&mp) && owner(&mp).is_some_and(|w| see.contains(&w))).then(|| abs(&mp).to_string());
            if owner(&mp).is_some_and(|w| maybe.contains(&w)) {
                continue;
            }
            visible += want.is_some() as u64;
            ensure_eq!(t, want, format!("visible{}", if cycles { "-cycle" } else { "" }), "`mod_{j}` from {} (package {o}, seeing {see:?})", x.display());
        }
    }
    c.count("dependencies", edges as u64);
    c.count("visible", visible);
    for p in &all {
        c.label(if p.git.is_some() { "git" } else if p.ws { "workspace" } else { "outside" });
    }
    c.nontrivial(edges >= 3 && visible >= 4);
    Ok(())
}

pub fn c21() -> Vec<Check> {
    home();
    vec![Check::new("packages-as-declared", "at least three dependencies and four visible modules", 6000, 60000, packages)]
}

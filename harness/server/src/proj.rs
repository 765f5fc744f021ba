//! A project on disk and its in-memory model.
use crate::client::{self, Caps, Enc, R, Scratch, Server};
use crate::ws::{self, Pack, Ws};
use common::Src;
use movegen::layout;
use movegen::{Opts, World};
use serde_json::{Value, json};
use std::path::PathBuf;
use vfs::FileId;

#[derive(Clone)]
pub struct PFile {
    pub pkg: usize,
    /// below the project root
    pub rel: String,
    /// with \n line ends
    pub text: String,
    pub crlf: bool,
    pub open: Option<i64>,
}
impl PFile {
    pub fn raw(&self) -> String {
        if self.crlf { self.text.replace('\n', "\r\n") } else { self.text.clone() }
    }
}
#[derive(Clone)]
pub struct PPkg {
    pub name: String,
    pub deps: Vec<usize>,
    pub addrs: Vec<(String, String)>,
}
impl PPkg {
    pub fn toml(&self, all: &[PPkg]) -> String {
        let mut t = format!("[package]\nname = \"{}\"\nversion = \"1.0.0\"\n\n[addresses]\n", self.name);
        for (a, v) in &self.addrs {
            t.push_str(&format!("{a} = \"{v}\"\n"));
        }
        t.push_str("\n[dependencies]\n");
        for d in &self.deps {
            t.push_str(&format!("{0} = {{ local = \"../{0}\" }}\n", all[*d].name));
        }
        t
    }
}
pub struct Proj {
    pub scratch: Scratch,
    pub dir: String,
    pub pkgs: Vec<PPkg>,
    pub files: Vec<PFile>,
}

pub fn small(s: &mut Src) -> Opts {
    Opts { pkgs: 1 + s.below(2) as usize, modules: 1 + s.below(3) as usize, stmts: 3, depth: 2, ..Opts::default() }
}

/// characters of every width, before code on the same line
pub fn decorate(text: &str, s: &mut Src) -> String {
    let mut out = String::new();
    for line in text.split_inclusive('\n') {
        let t = line.trim_start();
        if !t.trim().is_empty() && s.chance(1, 4) {
            out.push_str(&line[..line.len() - t.len()]);
            let c = *s.pick(&["/*😀*/ ", "/* é */", "/*名😀𝒳*/", "/*\u{301}x*/ "]);
            out.push_str(c);
            out.push_str(t);
        } else {
            out.push_str(line);
        }
    }
    out
}

pub fn from_world(w: &World, s: &mut Src, deco: bool) -> Proj {
    let rnd = s.chance(1, 3);
    let files = w
        .files
        .iter()
        .map(|f| {
            let t = if rnd { layout::random(f, s).text } else { layout::natural(f).text };
            let t = if deco { decorate(&t, s) } else { t };
            // a CR that is not part of CRLF is not a line end for the server
            let crlf = s.chance(1, 3);
            PFile { pkg: f.pkg, rel: f.path.trim_start_matches('/').to_string(), text: t, crlf, open: None }
        })
        .collect();
    let dir = s.pick(&["ws", "ws", "my project", "prójekt", "a+b&c"]).to_string();
    let pkgs = w.pkgs.iter().map(|p| PPkg { name: p.name.clone(), deps: p.deps.clone(), addrs: p.addrs.clone() }).collect();
    Proj { scratch: Scratch::new(), dir, pkgs, files }
}
pub fn world(s: &mut Src, o: Opts) -> World {
    let mut w = movegen::world(s, o.clone());
    for _ in 0..3 {
        if w.poisoned {
            w = movegen::world(s, o.clone());
        }
    }
    w
}

impl Proj {
    pub fn root(&self) -> PathBuf {
        self.scratch.0.join(&self.dir)
    }
    pub fn write(&self) {
        for p in &self.pkgs {
            self.scratch.write(&format!("{}/{}/Move.toml", self.dir, p.name), p.toml(&self.pkgs));
        }
        for f in &self.files {
            self.scratch.write(&format!("{}/{}", self.dir, f.rel), f.raw());
        }
    }
    pub fn write_file(&self, i: usize) {
        let f = &self.files[i];
        self.scratch.write(&format!("{}/{}", self.dir, f.rel), f.raw());
    }
    pub fn uri(&self, i: usize) -> String {
        client::uri(&self.root().join(&self.files[i].rel))
    }
    pub fn start(&self, caps: Caps, config: Value) -> R<Server> {
        self.write();
        let mut sv = Server::start(&self.root(), &[self.root()], caps, config);
        sv.ready()?;
        Ok(sv)
    }
    /// opens file i with its model text (and line ends)
    pub fn open(&mut self, sv: &Server, i: usize, version: i64) -> R<()> {
        sv.open(&self.uri(i), version, &self.files[i].raw())?;
        self.files[i].open = Some(version);
        Ok(())
    }
    pub fn model(&self) -> Ws {
        let packs: Vec<Pack> =
            self.pkgs.iter().map(|p| Pack { name: &p.name, lib: false, deps: p.deps.clone(), addrs: p.addrs.clone() }).collect();
        let paths: Vec<String> = self.files.iter().map(|f| format!("/{}", f.rel)).collect();
        let files: Vec<(usize, &str, &str)> =
            self.files.iter().zip(&paths).map(|(f, p)| (f.pkg, p.as_str(), f.text.as_str())).collect();
        ws::load(&packs, &files)
    }
    pub fn index(&self, ws: &Ws, id: FileId) -> Option<usize> {
        ws.files.iter().position(|f| *f == id)
    }
    /// (index of the file) of a URI of the server
    pub fn of_uri(&self, u: &Value) -> Option<usize> {
        let p = client::uri_path(u.as_str()?)?;
        let r = p.strip_prefix(self.root()).ok()?.to_str()?.to_string();
        self.files.iter().position(|f| f.rel == r)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for f in &self.files {
            s.push_str(&format!("//- {} (package {}{}{})\n{}", f.rel, self.pkgs[f.pkg].name, if f.crlf { ", CRLF" } else { "" }, if f.open.is_some() { ", open" } else { "" }, f.text));
        }
        s
    }
    pub fn tdp(&self, i: usize, off: usize, e: Enc) -> Value {
        json!({"textDocument": {"uri": self.uri(i)}, "position": client::jpos(&self.files[i].text, off, e)})
    }
}
/// a byte offset at a character boundary, most often in or at the end of a word
pub fn offset(text: &str, s: &mut Src) -> usize {
    if text.is_empty() {
        return 0;
    }
    let mut o = s.below(text.len() as u64 + 1) as usize;
    while !text.is_char_boundary(o) {
        o -= 1;
    }
    if s.chance(3, 4) {
        // on to the next word
        let b = text.as_bytes();
        let mut k = o;
        while k < b.len() && !(b[k].is_ascii_alphanumeric() || b[k] == b'_') {
            k += 1;
        }
        if k < b.len() {
            o = k;
            if s.chance(1, 3) {
                while o < b.len() && (b[o].is_ascii_alphanumeric() || b[o] == b'_') {
                    o += 1;
                }
            }
        }
        while !text.is_char_boundary(o) {
            o -= 1;
        }
    }
    o
}

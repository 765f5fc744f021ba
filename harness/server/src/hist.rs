//! C23, C25, C29: after any history of editor and file-system events the server answers like a fresh one, and every
//! request of the history is answered exactly once.
use crate::client::{Caps, R, Server, jpos, uri};
use crate::nav::{self, M};
use crate::proj::{self, PFile, PPkg, Proj};
use common::engine::{Case, Check, Fail, PropResult};
use common::{Src, fail};
use lsp_server::RequestId;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::time::{Duration, Instant};

#[derive(Clone)]
struct St {
    pkg: usize,
    rel: String,
    /// where the edits lead
    goal: String,
    disk: Option<String>,
    open: Option<(i64, String)>,
}
struct Hist {
    p: Proj,
    st: Vec<St>,
    full: Vec<PPkg>,
    log: Vec<String>,
    sent: Vec<RequestId>,
    cancelled: Vec<RequestId>,
    version: i64,
    closes: u64,
    edits: u64,
    fsops: u64,
}

/// a boundary of the raw text that is a position of the editor: not inside a character, not between CR and LF
fn bound(t: &str, s: &mut Src) -> usize {
    let mut o = s.below(t.len() as u64 + 1) as usize;
    while !t.is_char_boundary(o) || (o > 0 && o < t.len() && t.as_bytes()[o - 1] == b'\r' && t.as_bytes()[o] == b'\n') {
        o -= 1;
    }
    o
}
fn crlf(t: &str, yes: bool) -> String {
    let t = t.replace("\r\n", "\n");
    if yes { t.replace('\n', "\r\n") } else { t }
}
/// the smallest window in which the texts differ, at positions of the editor
fn window(a: &str, b: &str) -> (usize, usize, usize) {
    let ok = |t: &str, i: usize| t.is_char_boundary(i) && !(i > 0 && i < t.len() && t.as_bytes()[i - 1] == b'\r' && t.as_bytes()[i] == b'\n');
    let mut i = 0;
    while i < a.len() && i < b.len() && a.as_bytes()[i] == b.as_bytes()[i] {
        i += 1;
    }
    while !(ok(a, i) && ok(b, i)) {
        i -= 1;
    }
    let mut k = 0;
    while k < a.len() - i && k < b.len() - i && a.as_bytes()[a.len() - 1 - k] == b.as_bytes()[b.len() - 1 - k] {
        k += 1;
    }
    while !(ok(a, a.len() - k) && ok(b, b.len() - k)) {
        k -= 1;
    }
    (i, a.len() - k, b.len() - k)
}
const JUNK: [&str; 14] =
    [" ", "x", "(", ")", "::", "q.", "\n", "\r\n", "}", "😀", "// é𝒳\n", "fun f() {}\n", "use 0x1::m;", "\n\n/* 名 */"];

impl Hist {
    fn new(s: &mut Src, c: &mut Case, pkgs: usize) -> Hist {
        let mut o = proj::small(s);
        if pkgs > 1 {
            o.pkgs = s.range(1, pkgs);
            o.modules = s.range(1, 4);
        }
        let w = proj::world(s, o);
        let p = proj::from_world(&w, s, true);
        let st = p
            .files
            .iter()
            .map(|f| {
                let goal = f.raw();
                // what is there at first: the goal, a prefix of it, or a spoilt version
                let disk = match s.below(5) {
                    0 => goal[..bound(&goal, s)].to_string(),
                    1 => {
                        let mut t = goal.clone();
                        t.insert_str(bound(&goal, s), *s.pick(&JUNK));
                        t
                    }
                    2 => crlf(&goal, s.flip()),
                    _ => goal.clone(),
                };
                St { pkg: f.pkg, rel: f.rel.clone(), goal, disk: Some(disk), open: None }
            })
            .collect();
        let full = p.pkgs.clone();
        let h = Hist { p, st, full, log: vec![], sent: vec![], cancelled: vec![], version: 0, closes: 0, edits: 0, fsops: 0 };
        c.input(h.show());
        h
    }
    fn show(&self) -> String {
        let mut t = String::new();
        for p in &self.p.pkgs {
            t.push_str(&format!("//- {}/Move.toml\n{}", p.name, p.toml(&self.full)));
        }
        for f in &self.st {
            if let Some(d) = &f.disk {
                t.push_str(&format!("//- {} on disk\n{}\n", f.rel, d.replace('\r', "\\r")));
            }
            if let Some((_, d)) = &f.open {
                t.push_str(&format!("//- {} in the editor\n{}\n", f.rel, d.replace('\r', "\\r")));
            }
        }
        format!("{t}--- history\n{}", self.log.join("\n"))
    }
    fn u(&self, i: usize) -> String {
        uri(&self.p.root().join(&self.st[i].rel))
    }
    fn start(&mut self, caps: Caps, config: Value) -> R<Server> {
        for p in &self.p.pkgs {
            self.p.scratch.write(&format!("{}/{}/Move.toml", self.p.dir, p.name), p.toml(&self.full));
        }
        for f in &self.st {
            if let Some(d) = &f.disk {
                self.p.scratch.write(&format!("{}/{}", self.p.dir, f.rel), d);
            }
        }
        Ok(Server::start(&self.p.root(), &[self.p.root()], caps, config))
    }
    fn write(&self, i: usize) {
        let r = format!("{}/{}", self.p.dir, self.st[i].rel);
        match &self.st[i].disk {
            Some(d) => self.p.scratch.write(&r, d),
            None => self.p.scratch.remove(&r),
        }
    }
    fn current(&self, i: usize) -> Option<&String> {
        self.st[i].open.as_ref().map(|x| &x.1).or(self.st[i].disk.as_ref())
    }
    /// the content changes of one didChange, applied to the editor's text
    fn edit(&mut self, i: usize, sv: &Server, s: &mut Src) -> Vec<Value> {
        let goal = self.st[i].goal.clone();
        let (_, t) = self.st[i].open.as_mut().unwrap();
        let mut out = vec![];
        for _ in 0..s.range(1, 4) {
            let e = sv.enc;
            if s.chance(1, 8) {
                *t = if s.flip() { crlf(&goal, s.flip()) } else { goal[..bound(&goal, s)].to_string() };
                out.push(json!({"text": t.clone()}));
                continue;
            }
            let (a, b, new) = if s.chance(1, 3) {
                let (a, b, n) = window(t, &goal);
                let new = goal[a..n].to_string();
                if b - a > 20 && s.chance(1, 3) {
                    // only the first part of the way
                    let mut m = (a + b) / 2;
                    while !t.is_char_boundary(m) || t.as_bytes()[m] == b'\n' {
                        m += 1;
                        if m >= b {
                            break;
                        }
                    }
                    (a, m.min(b), String::new())
                } else {
                    (a, b, new)
                }
            } else {
                let (x, y) = (bound(t, s), bound(t, s));
                let (a, b) = (x.min(y), x.max(y));
                // mostly short deletions
                let b = if s.chance(1, 5) { b } else { (a..=b.min(a + 12)).rev().find(|k| t.is_char_boundary(*k) && !(*k > a && t.as_bytes()[*k - 1] == b'\r')).unwrap() };
                let new = match s.below(4) {
                    0 => String::new(),
                    1 => {
                        let (x, y) = (bound(t, s), bound(t, s));
                        let (x, y) = (x.min(y), x.max(y));
                        let y = (x..=y.min(x + 60)).rev().find(|k| t.is_char_boundary(*k) && !(*k > x && t.as_bytes()[*k - 1] == b'\r')).unwrap();
                        t[x..y].to_string()
                    }
                    _ => s.pick(&JUNK).to_string(),
                };
                (a, b, new)
            };
            let mut ev = json!({"range": {"start": jpos(t, a, e), "end": jpos(t, b, e)}, "text": new});
            if s.chance(1, 6) {
                ev["rangeLength"] = json!(e.len(&t[a..b]));
            }
            out.push(ev);
            t.replace_range(a..b, &new);
        }
        self.edits += 1;
        out
    }
    /// an event of the editor with an open document
    fn editor_op(&mut self, sv: &mut Server, s: &mut Src) -> R<()> {
        let i = s.below(self.st.len() as u64) as usize;
        let u = self.u(i);
        self.version += 1 + s.below(2) as i64;
        match (&self.st[i].open, s.below(8)) {
            (None, _) => {
                let t = match (s.below(4), &self.st[i].disk) {
                    (0, _) => self.st[i].goal.clone(),
                    (1, _) => {
                        let g = &self.st[i].goal;
                        g[..bound(g, s)].to_string()
                    }
                    (_, Some(d)) => d.clone(),
                    (_, None) => self.st[i].goal.clone(),
                };
                self.log.push(format!("didOpen {} v{} ({} bytes)", self.st[i].rel, self.version, t.len()));
                sv.open(&u, self.version, &t)?;
                self.st[i].open = Some((self.version, t));
            }
            (Some(_), 0) => {
                self.log.push(format!("didClose {}", self.st[i].rel));
                sv.close(&u)?;
                self.st[i].open = None;
                self.closes += 1;
            }
            (Some((_, t)), 1) => {
                // saved: first on disk, then the notifications
                let t = t.clone();
                self.st[i].disk = Some(t);
                self.write(i);
                self.log.push(format!("didSave {}", self.st[i].rel));
                sv.note("textDocument/didSave", json!({"textDocument": {"uri": u}}))?;
                if s.flip() {
                    sv.watched(&[(u, 2)])?;
                }
            }
            (Some(_), _) => {
                let ch = self.edit(i, sv, s);
                self.log.push(format!("didChange {} v{} {}", self.st[i].rel, self.version, Value::from(ch.clone())));
                self.st[i].open.as_mut().unwrap().0 = self.version;
                sv.change(&u, self.version, ch)?;
            }
        }
        Ok(())
    }
    /// an event outside of the editor
    fn fs_op(&mut self, sv: &mut Server, s: &mut Src) -> R<()> {
        self.fsops += 1;
        if s.chance(1, 5) {
            return self.manifest_op(sv, s);
        }
        let n = 1 + s.below(2);
        let mut ev = vec![];
        for _ in 0..n {
            let i = s.below(self.st.len() as u64) as usize;
            if ev.iter().any(|(u, _)| *u == self.u(i)) {
                continue;
            }
            let was = self.st[i].disk.is_some();
            self.st[i].disk = match s.below(6) {
                0 | 1 if was => None,
                0 | 1 => Some(self.st[i].goal.clone()),
                2 => {
                    let g = &self.st[i].goal;
                    Some(g[..bound(g, s)].to_string())
                }
                3 => Some(crlf(&self.st[i].goal, s.flip())),
                4 => {
                    let mut t = self.current(i).cloned().unwrap_or_default();
                    t.insert_str(bound(&t, s), *s.pick(&JUNK));
                    Some(t)
                }
                _ => Some(self.st[i].goal.clone()),
            };
            self.write(i);
            let kind = match (was, self.st[i].disk.is_some()) {
                (false, true) => 1,
                (_, false) => 3,
                _ => 2,
            };
            self.log.push(format!("on disk: {} {}", self.st[i].rel, ["", "created", "changed", "deleted"][kind as usize]));
            ev.push((self.u(i), kind));
        }
        sv.watched(&ev)
    }
    fn manifest_op(&mut self, sv: &mut Server, s: &mut Src) -> R<()> {
        // an address has one value in the whole workspace
        let addrs: Option<Vec<(String, bool, bool)>> = match s.below(3) {
            0 => None,
            _ => Some(self.full[0].addrs.iter().map(|(n, _)| (n.clone(), !s.chance(1, 3), s.chance(1, 4))).collect()),
        };
        let first = s.below(self.p.pkgs.len() as u64) as usize;
        let which = s.below(3);
        let all: Vec<usize> = if which == 2 { (0..self.p.pkgs.len()).collect() } else { vec![first] };
        let mut ev = vec![];
        for k in all {
            let full = self.full[k].clone();
            let p = &mut self.p.pkgs[k];
            match which {
                0 => p.deps = full.deps.clone(),
                1 => p.deps = full.deps.iter().copied().filter(|_| s.flip()).collect(),
                _ => match &addrs {
                    None => p.addrs = full.addrs.clone(),
                    Some(v) => {
                        p.addrs.clear();
                        for (n, keep, other) in v {
                            let Some((_, val)) = full.addrs.iter().find(|x| x.0 == *n) else { continue };
                            if std_name(n) || *keep {
                                let other = !std_name(n) && *other;
                                p.addrs.push((n.clone(), if other { "0x7777".to_string() } else { val.clone() }));
                            }
                        }
                    }
                },
            }
            let rel = format!("{}/{}/Move.toml", self.p.dir, self.p.pkgs[k].name);
            self.p.scratch.write(&rel, self.p.pkgs[k].toml(&self.full));
            let u = uri(&self.p.scratch.0.join(&rel));
            self.log.push(format!("on disk: {rel} deps {:?} addresses {:?}", self.p.pkgs[k].deps, self.p.pkgs[k].addrs));
            if s.chance(1, 4) {
                sv.note("textDocument/didSave", json!({"textDocument": {"uri": u}}))?;
            }
            ev.push((u, 2));
        }
        sv.watched(&ev)
    }
    /// a request nobody waits for
    fn fire(&mut self, sv: &mut Server, s: &mut Src) -> R<()> {
        let i = s.below(self.st.len() as u64) as usize;
        let t = self.current(i).cloned().unwrap_or_default();
        // positions of the text, of an older one, or of none
        let pt = |s: &mut Src| {
            let mut o = s.below(t.len() as u64 + 1) as usize;
            while !t.is_char_boundary(o) {
                o -= 1;
            }
            if s.chance(1, 6) {
                json!({"line": s.below(100), "character": s.below(60)})
            } else {
                jpos(&t, o, sv.enc)
            }
        };
        let td = json!({"uri": if s.chance(1, 12) { uri(&self.p.root().join("nowhere.move")) } else { self.u(i) }});
        let a = pt(s);
        let b = pt(s);
        let key = |v: &Value| (v["line"].as_u64(), v["character"].as_u64());
        let (a, b) = if key(&a) <= key(&b) { (a, b) } else { (b, a) };
        let at = json!({"textDocument": td, "position": a});
        let range = json!({"start": a, "end": b});
        let (m, params) = match s.below(22) {
            0 => ("textDocument/definition", at),
            1 => ("textDocument/references", json!({"textDocument": td, "position": a, "context": {"includeDeclaration": s.flip()}})),
            2 => ("textDocument/documentHighlight", at),
            3 => ("textDocument/hover", at),
            4 => ("textDocument/prepareRename", at),
            5 => ("textDocument/rename", json!({"textDocument": td, "position": a, "newName": "renamed"})),
            6 => ("textDocument/selectionRange", json!({"textDocument": td, "positions": [a, b]})),
            7 => ("textDocument/documentSymbol", json!({"textDocument": td})),
            8 => ("textDocument/semanticTokens/full", json!({"textDocument": td})),
            9 => ("textDocument/semanticTokens/range", json!({"textDocument": td, "range": range})),
            10 => ("textDocument/signatureHelp", at),
            11 => ("textDocument/inlayHint", json!({"textDocument": td, "range": range})),
            12 => ("textDocument/diagnostic", json!({"textDocument": td})),
            13 | 14 => ("textDocument/completion", at),
            15 => ("workspace/symbol", json!({"query": if s.flip() { "f" } else { "" }})),
            16 => ("textDocument/codeAction", json!({"textDocument": td, "range": range, "context": {"diagnostics": []}})),
            17 => ("textDocument/codeLens", json!({"textDocument": td})),
            18 => ("aptos-language-server/viewSyntaxTree", json!({"textDocument": td})),
            19 => ("experimental/organizeImports", json!({"textDocument": td})),
            20 => ("aptos-language-server/analyzerStatus", json!({})),
            _ => ("textDocument/noSuchThing", json!({})),
        };
        let id = sv.request(m, params)?;
        self.log.push(format!("request {id}: {m}"));
        if s.chance(1, 6) {
            let k = s.below(self.sent.len() as u64 + 1) as usize;
            let v = self.sent.get(k).unwrap_or(&id).clone();
            let n: i32 = v.to_string().parse().unwrap_or(0);
            sv.note("$/cancelRequest", json!({"id": n}))?;
            self.log.push(format!("cancel {v}"));
            self.cancelled.push(v);
        }
        self.sent.push(id);
        Ok(())
    }
    /// the files as a fresh server would see them
    fn view(&mut self) {
        let mut v = vec![];
        for f in &self.st {
            let t = f.open.as_ref().map(|x| &x.1).or(f.disk.as_ref());
            if let Some(t) = t {
                v.push(PFile {
                    pkg: f.pkg,
                    rel: f.rel.clone(),
                    text: t.replace("\r\n", "\n"),
                    crlf: t.contains("\r\n"),
                    open: f.open.as_ref().map(|x| x.0),
                });
            }
        }
        self.p.files = v;
    }
    /// the server's answers against a fresh model; file reloads it has not been told to be finished get some time
    fn compare(&mut self, sv: &mut Server, s: &mut Src, c: &mut Case, n: usize) -> R<()> {
        sv.settle()?;
        self.view();
        if self.p.files.is_empty() {
            return Ok(());
        }
        let m = M::new(&self.p);
        for _ in 0..n {
            let seed = s.u64();
            let end = Instant::now() + Duration::from_secs(5);
            loop {
                let r = nav::random_request(&self.p, &m, sv, &mut Src::fresh(seed), c);
                match r {
                    Ok(()) => break,
                    Err(f) if f.sig == "no-response" || f.sig == "server-gone" => return Err(f),
                    Err(f) if Instant::now() > end => {
                        if std::env::var("VF_LATER").is_ok() {
                            std::thread::sleep(Duration::from_secs(20));
                            sv.settle()?;
                            let r = nav::random_request(&self.p, &m, sv, &mut Src::fresh(seed), c);
                            eprintln!("LATER {}: {}", f.sig, if r.is_ok() { "transient" } else { "persistent" });
                        }
                        return Err(f);
                    }
                    Err(_) => {
                        c.count("asked again", 1);
                        std::thread::sleep(Duration::from_millis(25));
                        sv.settle()?;
                    }
                }
            }
        }
        Ok(())
    }
    fn once(&self, sv: &mut Server) -> R<u64> {
        let mut answered = 0;
        for id in &self.sent {
            let r = sv.wait(id)?;
            let m = sv.sent.get(id).cloned().unwrap_or_default();
            if let Some(e) = &r.error {
                // -32602 bad position or file, -32601 no such method, -32800 cancelled, -32801 modified, -32802 asked to retry
                let known = [-32602, -32601, -32800, -32801, -32802].contains(&e.code);
                // a position inside of a character: one of no text, or of the text before a change the request has been
                // retried after. Whether positions are read right is up to C24
                let inside = e.message.contains("boundary");
                let panicked = e.message.contains("panic") && !inside;
                if panicked || !(known || e.code == -32603 || e.code == -32803) {
                    fail!(format!("bad-error-{}", crate::client::short(&m)), "{m} ({id}) is answered with error {}: {}", e.code, e.message);
                }
                if e.code == -32800 && !self.cancelled.contains(id) {
                    fail!("cancelled-by-nobody", "{m} ({id}) is answered as cancelled and nobody has cancelled it");
                }
                if e.code == -32601 && m != "textDocument/noSuchThing" {
                    fail!("method-lost", "{m} ({id}) is answered as unknown");
                }
            } else {
                answered += 1;
            }
            if m == "textDocument/noSuchThing" && r.error.as_ref().map(|e| e.code) != Some(-32601) && !self.cancelled.contains(id) {
                fail!("unknown-method-answered", "{m} is answered with {:?}", r.result);
            }
        }
        Ok(answered)
    }
}

fn twice(sv: &Server, sent: &[RequestId]) -> R<()> {
    let mut seen: HashMap<&RequestId, usize> = HashMap::new();
    for id in sent {
        if let Some(v) = sv.responses.get(id) {
            seen.insert(id, v.len());
        }
    }
    for (id, n) in seen {
        if n != 1 {
            return Err(Fail::new("several-responses", format!("{} ({id}) has {n} responses", sv.sent[id])));
        }
    }
    Ok(())
}

fn text_sync(s: &mut Src, c: &mut Case) -> PropResult {
    let mut h = Hist::new(s, c, 1);
    let caps = Caps::random(s);
    let config = nav::random_config(s);
    let mut sv = h.start(caps, config)?;
    if !s.chance(1, 4) {
        sv.ready()?;
    } else {
        h.log.push("not waiting for the first load".to_string());
    }
    let rounds = s.range(1, 4);
    for _ in 0..rounds {
        for _ in 0..s.range(2, 12) {
            h.editor_op(&mut sv, s)?;
            if s.chance(1, 5) {
                h.fire(&mut sv, s)?;
            }
        }
        c.input(format!("{:?} {}\n{}", sv.caps, sv.config, h.show()));
        if sv.status.is_none() {
            sv.ready()?;
        }
        let n = s.range(3, 9);
        h.compare(&mut sv, s, c, n)?;
    }
    c.count("edits", h.edits);
    c.nontrivial(h.edits > 0);
    sv.stop()
}

fn files(s: &mut Src, c: &mut Case) -> PropResult {
    let mut h = Hist::new(s, c, 3);
    let caps = Caps::random(s);
    let config = nav::random_config(s);
    let mut sv = h.start(caps, config)?;
    sv.ready()?;
    for _ in 0..s.range(1, 4) {
        for _ in 0..s.range(1, 6) {
            if s.chance(1, 3) {
                h.editor_op(&mut sv, s)?;
            } else {
                h.fs_op(&mut sv, s)?;
            }
            if s.chance(1, 6) {
                h.fire(&mut sv, s)?;
            }
        }
        c.input(format!("{:?} {}\n{}", sv.caps, sv.config, h.show()));
        let n = s.range(3, 9);
        h.compare(&mut sv, s, c, n)?;
    }
    c.count("file events", h.fsops);
    c.nontrivial(h.fsops > 0);
    sv.stop()
}

fn responses(s: &mut Src, c: &mut Case) -> PropResult {
    let mut h = Hist::new(s, c, 2);
    let caps = Caps::random(s);
    let config = nav::random_config(s);
    let mut sv = h.start(caps, config)?;
    if s.flip() {
        sv.ready()?;
    }
    for _ in 0..s.range(10, 60) {
        match s.below(8) {
            0 | 1 => h.editor_op(&mut sv, s)?,
            2 if s.chance(1, 3) => h.fs_op(&mut sv, s)?,
            3 if s.chance(1, 8) => sv.note("workspace/didChangeConfiguration", json!({"settings": {}}))?,
            4 if s.chance(1, 8) => {
                std::thread::sleep(Duration::from_millis(s.below(4)));
                while sv.pump(Duration::from_millis(0))? {}
            }
            _ => h.fire(&mut sv, s)?,
        }
    }
    c.input(format!("{:?} {}\n{}", sv.caps, sv.config, h.show()));
    let answered = h.once(&mut sv)?;
    if sv.status.is_none() {
        sv.ready()?;
    }
    sv.settle()?;
    twice(&sv, &h.sent)?;
    c.count("requests", h.sent.len() as u64);
    c.count("answered", answered);
    c.count("cancelled", h.cancelled.len() as u64);
    c.nontrivial(h.sent.len() > 1 && (h.edits > 0 || h.fsops > 0));
    if s.chance(1, 4) {
        // after shutdown every request is refused, and exit still ends the server
        let id = sv.request("shutdown", Value::Null)?;
        let late = sv.request("textDocument/hover", json!({"textDocument": {"uri": h.u(0)}, "position": {"line": 0, "character": 0}}))?;
        if sv.wait(&id)?.error.is_some() {
            fail!("shutdown-answer", "shutdown is answered with an error");
        }
        let r = sv.wait(&late)?;
        if r.error.as_ref().map(|e| e.code) != Some(-32600) {
            fail!("after-shutdown", "a request after shutdown is answered with {r:?}");
        }
        return sv.exit();
    }
    sv.stop()
}

pub fn c23() -> Vec<Check> {
    vec![Check::new("documents-follow-the-editor", "at least one document was edited", 1500, 60_000, text_sync)]
}
pub fn c25() -> Vec<Check> {
    vec![Check::new("one-response-each", "several requests and an edit or file event between them", 1500, 60_000, responses)]
}
pub fn c29() -> Vec<Check> {
    vec![Check::new("files-follow-the-disk", "at least one file or manifest event", 1000, 40_000, files)]
}
fn std_name(n: &str) -> bool {
    n == "std"
}

//! A model of an LSP client talking to the real server loop over an in-memory connection.
use aptos_language_server::{Config, ConfigChange, main_loop};
use common::engine::Fail;
use common::Src;
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use paths::{AbsPathBuf, Utf8PathBuf};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// A scratch folder of this process, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::temp_dir();
        let p = base.join(format!("vf-srv-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn write(&self, rel: &str, text: impl AsRef<[u8]>) {
        let p = self.0.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, text).unwrap();
    }
    pub fn remove(&self, rel: &str) {
        let _ = std::fs::remove_file(self.0.join(rel));
    }
    pub fn uri(&self, rel: &str) -> String {
        uri(&self.0.join(rel))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn uri(p: &Path) -> String {
    let mut s = String::from("file://");
    for b in p.to_str().unwrap().bytes() {
        if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) {
            s.push(b as char)
        } else {
            s.push_str(&format!("%{b:02X}"))
        }
    }
    s
}
pub fn uri_path(u: &str) -> Option<PathBuf> {
    let r = u.strip_prefix("file://")?;
    let mut out = vec![];
    let b = r.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            out.push(u8::from_str_radix(&r[i + 1..i + 3], 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Some(PathBuf::from(String::from_utf8(out).ok()?))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Enc {
    U8,
    U16,
    U32,
}
impl Enc {
    pub fn len(self, s: &str) -> u32 {
        match self {
            Enc::U8 => s.len() as u32,
            Enc::U16 => s.encode_utf16().count() as u32,
            Enc::U32 => s.chars().count() as u32,
        }
    }
}
/// (line, character) of a byte offset
pub fn pos(text: &str, off: usize, e: Enc) -> (u32, u32) {
    let line = text[..off].matches('\n').count() as u32;
    let start = text[..off].rfind('\n').map(|x| x + 1).unwrap_or(0);
    (line, e.len(&text[start..off]))
}
pub fn jpos(text: &str, off: usize, e: Enc) -> Value {
    let (l, c) = pos(text, off, e);
    json!({"line": l, "character": c})
}
pub fn jrange(text: &str, a: usize, b: usize, e: Enc) -> Value {
    json!({"start": jpos(text, a, e), "end": jpos(text, b, e)})
}
/// byte offset of a position, as a client understands it; None when it is not a position of the text
pub fn off(text: &str, p: &Value, e: Enc) -> Option<usize> {
    let (l, c) = (p["line"].as_u64()?, p["character"].as_u64()? as u32);
    let mut start = 0;
    for _ in 0..l {
        start += text[start..].find('\n')? + 1;
    }
    let line = text[start..].split('\n').next().unwrap();
    let mut n = 0;
    for (i, ch) in line.char_indices() {
        if n == c {
            return Some(start + i);
        }
        n += e.len(&line[i..i + ch.len_utf8()]);
    }
    (n == c).then_some(start + line.len())
}
/// Applies LSP text edits the way a client does. Err: overlapping or outside of the text.
pub fn apply(text: &str, edits: &[Value], e: Enc) -> Result<String, String> {
    let mut v = vec![];
    for (i, ed) in edits.iter().enumerate() {
        let a = off(text, &ed["range"]["start"], e).ok_or_else(|| format!("start of {ed} is not a position of the text"))?;
        let b = off(text, &ed["range"]["end"], e).ok_or_else(|| format!("end of {ed} is not a position of the text"))?;
        if b < a {
            return Err(format!("{ed} ends before it starts"));
        }
        v.push((a, b, i, ed["newText"].as_str().ok_or("no newText")?));
    }
    v.sort_by_key(|x| (x.0, x.1, x.2));
    let mut out = String::new();
    let mut at = 0;
    for (a, b, _, t) in v {
        if a < at {
            return Err(format!("overlapping edits: {}", Value::from(edits.to_vec())));
        }
        out.push_str(&text[at..a]);
        out.push_str(t);
        at = b;
    }
    out.push_str(&text[at..]);
    Ok(out)
}

#[derive(Clone, Debug)]
pub struct Caps {
    pub encs: Vec<&'static str>,
    pub link: bool,
    pub hier: bool,
    pub offsets: bool,
    pub insert_replace: bool,
    pub snippets: bool,
    pub label_details: bool,
    pub action_resolve: bool,
    pub action_literal: bool,
    pub hint_resolve: bool,
    pub import_resolve: bool,
    pub commands: Vec<&'static str>,
    pub watch: bool,
    pub relative: bool,
    pub refresh: bool,
    pub progress: bool,
}
pub const COMMANDS: [&str; 5] = [
    "move-on-aptos.runTest",
    "move-on-aptos.debugTest",
    "move-on-aptos.debugTransaction",
    "move-on-aptos.showReferences",
    "move-on-aptos.gotoLocation",
];
impl Caps {
    pub fn plain() -> Caps {
        Caps {
            encs: vec!["utf-16"],
            link: true,
            hier: true,
            offsets: true,
            insert_replace: true,
            snippets: true,
            label_details: true,
            action_resolve: true,
            action_literal: true,
            hint_resolve: true,
            import_resolve: true,
            commands: COMMANDS.to_vec(),
            watch: true,
            relative: false,
            refresh: false,
            progress: false,
        }
    }
    pub fn random(s: &mut Src) -> Caps {
        let encs = match s.below(7) {
            0 => vec![],
            1 => vec!["utf-8"],
            2 => vec!["utf-8", "utf-16"],
            3 => vec!["utf-32", "utf-16"],
            4 => vec!["utf-16", "utf-8", "utf-32"],
            _ => vec!["utf-16"],
        };
        Caps {
            encs,
            link: s.flip(),
            hier: s.flip(),
            offsets: s.flip(),
            insert_replace: s.flip(),
            snippets: s.flip(),
            label_details: s.flip(),
            action_resolve: s.flip(),
            action_literal: !s.chance(1, 8),
            hint_resolve: s.flip(),
            import_resolve: s.flip(),
            commands: COMMANDS.iter().copied().filter(|_| !s.chance(1, 6)).collect(),
            watch: s.flip(),
            relative: s.flip(),
            refresh: s.chance(1, 4),
            progress: s.chance(1, 4),
        }
    }
    /// the first encoding of the client's list that is utf-8 or utf-32, utf-16 otherwise (the protocol's default)
    pub fn enc(&self) -> Enc {
        match self.encs.iter().find(|e| **e != "utf-16") {
            Some(&"utf-8") => Enc::U8,
            Some(_) => Enc::U32,
            None => Enc::U16,
        }
    }
    pub fn json(&self) -> Value {
        let mut item = json!({
            "snippetSupport": self.snippets,
            "insertReplaceSupport": self.insert_replace,
            "labelDetailsSupport": self.label_details,
        });
        if self.import_resolve {
            item["resolveSupport"] = json!({"properties": ["additionalTextEdits"]});
        }
        let mut action = json!({});
        if self.action_literal {
            action["codeActionLiteralSupport"] = json!({"codeActionKind": {"valueSet": ["", "quickfix", "refactor"]}});
        }
        if self.action_resolve {
            action["resolveSupport"] = json!({"properties": ["edit"]});
            action["dataSupport"] = json!(true);
        }
        let hint = if self.hint_resolve {
            json!({"resolveSupport": {"properties": ["tooltip", "label.tooltip", "label.location", "textEdits", "label.command"]}})
        } else {
            json!({})
        };
        let mut v = json!({
            "workspace": {
                "didChangeWatchedFiles": {"dynamicRegistration": self.watch, "relativePatternSupport": self.relative},
                "workspaceEdit": {"documentChanges": true, "resourceOperations": ["create", "rename", "delete"]},
                "semanticTokens": {"refreshSupport": self.refresh},
                "codeLens": {"refreshSupport": self.refresh},
                "inlayHint": {"refreshSupport": self.refresh},
                "diagnostics": {"refreshSupport": self.refresh},
            },
            "textDocument": {
                "definition": {"linkSupport": self.link},
                "documentSymbol": {"hierarchicalDocumentSymbolSupport": self.hier},
                "signatureHelp": {"signatureInformation": {"parameterInformation": {"labelOffsetSupport": self.offsets}}},
                "completion": {"completionItem": item},
                "codeAction": action,
                "hover": {"contentFormat": ["markdown"]},
                "inlayHint": hint,
            },
            "window": {"workDoneProgress": self.progress},
            "experimental": {"serverStatusNotification": true, "commands": {"commands": self.commands}},
        });
        if !self.encs.is_empty() {
            v["general"] = json!({"positionEncodings": self.encs});
        }
        v
    }
}

pub struct Server {
    conn: Option<Connection>,
    thread: Option<std::thread::JoinHandle<anyhow_like::Res>>,
    next: i32,
    pub status: Option<Value>,
    pub statuses: u64,
    pub notes: Vec<Notification>,
    pub asked: Vec<Request>,
    pub responses: HashMap<RequestId, Vec<Response>>,
    pub sent: HashMap<RequestId, String>,
    pub config: Value,
    pub caps: Caps,
    pub enc: Enc,
    pub legend: Vec<String>,
}
mod anyhow_like {
    pub type Res = Result<(), String>;
}

pub const PATIENCE: Duration = Duration::from_secs(60);

pub type R<T> = Result<T, Fail>;

pub fn abs(p: &Path) -> AbsPathBuf {
    AbsPathBuf::assert(Utf8PathBuf::from_path_buf(p.to_path_buf()).unwrap())
}

pub fn make_config(root: &Path, roots: &[PathBuf], caps: &Caps, config: &Value) -> Config {
    let caps_t: lsp_types::ClientCapabilities = serde_json::from_value(caps.json()).expect("client capabilities");
    let mut cfg = Config::new(abs(root), caps_t, roots.iter().map(|p| abs(p)).collect(), None);
    let mut ch = ConfigChange::default();
    ch.change_client_config(config.clone());
    cfg = cfg.apply_change(ch).0;
    cfg.rediscover_packages();
    cfg
}

impl Server {
    pub fn start(root: &Path, roots: &[PathBuf], caps: Caps, config: Value) -> Server {
        let cfg = make_config(root, roots, &caps, &config);
        let sc = serde_json::to_value(aptos_language_server::server_capabilities(&cfg)).unwrap();
        let legend = sc["semanticTokensProvider"]["legend"]["tokenTypes"]
            .as_array()
            .map(|v| v.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
            .unwrap_or_default();
        let (conn, client) = Connection::memory();
        let thread = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || main_loop(cfg, conn).map_err(|e| e.to_string()))
            .unwrap();
        Server {
            conn: Some(client),
            thread: Some(thread),
            next: 0,
            status: None,
            statuses: 0,
            notes: vec![],
            asked: vec![],
            responses: HashMap::new(),
            sent: HashMap::new(),
            config,
            enc: caps.enc(),
            caps,
            legend,
        }
    }
    fn conn(&self) -> &Connection {
        self.conn.as_ref().unwrap()
    }
    pub fn send(&self, m: Message) -> R<()> {
        self.conn().sender.send(m).map_err(|_| Fail::new("server-gone", "the server has stopped while the client was still talking to it"))
    }
    /// takes one message from the server, answering its requests
    pub fn pump(&mut self, d: Duration) -> R<bool> {
        let m = match self.conn().receiver.recv_timeout(d) {
            Ok(m) => m,
            Err(e) if e.is_timeout() => return Ok(false),
            Err(_) => return Err(Fail::new("server-gone", "the server has closed the connection")),
        };
        match m {
            Message::Request(r) => {
                let result = match r.method.as_str() {
                    "workspace/configuration" => json!([self.config]),
                    _ => Value::Null,
                };
                self.send(Message::Response(Response { id: r.id.clone(), result: Some(result), error: None }))?;
                self.asked.push(r);
            }
            Message::Notification(n) => {
                if n.method == "experimental/serverStatus" {
                    self.status = Some(n.params.clone());
                    self.statuses += 1;
                }
                self.notes.push(n);
            }
            Message::Response(r) => {
                self.responses.entry(r.id.clone()).or_default().push(r);
            }
        }
        Ok(true)
    }
    pub fn note(&self, method: &str, params: Value) -> R<()> {
        self.send(Message::Notification(Notification { method: method.to_string(), params }))
    }
    pub fn request(&mut self, method: &str, params: Value) -> R<RequestId> {
        self.next += 1;
        let id: RequestId = self.next.into();
        self.request_id(id.clone(), method, params)?;
        Ok(id)
    }
    pub fn request_id(&mut self, id: RequestId, method: &str, params: Value) -> R<()> {
        self.sent.insert(id.clone(), method.to_string());
        self.send(Message::Request(Request { id, method: method.to_string(), params }))
    }
    pub fn wait(&mut self, id: &RequestId) -> R<Response> {
        let end = Instant::now() + PATIENCE;
        loop {
            if let Some(r) = self.responses.get(id).and_then(|v| v.first()) {
                return Ok(r.clone());
            }
            if Instant::now() > end {
                return Err(Fail::new(
                    "no-response",
                    format!("no response to {} within {PATIENCE:?}", self.sent.get(id).cloned().unwrap_or_default()),
                ));
            }
            self.pump(Duration::from_millis(200))?;
        }
    }
    /// a request and its answer; asked again while the server says that the content has changed meanwhile
    pub fn call(&mut self, method: &str, params: Value) -> R<Result<Value, (i64, String)>> {
        for _ in 0..50 {
            let id = self.request(method, params.clone())?;
            let r = self.wait(&id)?;
            match r.error {
                None => return Ok(Ok(r.result.unwrap_or(Value::Null))),
                Some(e) if e.code == -32801 || e.code == -32802 => {
                    std::thread::sleep(Duration::from_millis(20));
                }
                Some(e) => return Ok(Err((e.code as i64, e.message))),
            }
        }
        Err(Fail::new("content-modified-forever", format!("{method} is answered with \"content modified\" although nothing changes")))
    }
    /// the answer; an error is a failure
    pub fn ok(&mut self, method: &str, params: Value) -> R<Value> {
        match self.call(method, params.clone())? {
            Ok(v) => Ok(v),
            Err((c, m)) => Err(Fail::new(
                format!("error-{}-{c}", short(method)),
                format!("{method} {params} is answered with error {c}: {m}"),
            )),
        }
    }
    pub fn quiescent(&self) -> bool {
        self.status.as_ref().is_some_and(|s| s["quiescent"] == json!(true))
    }
    /// waits until the server says it is quiescent and stays so
    pub fn settle(&mut self) -> R<()> {
        let end = Instant::now() + PATIENCE;
        loop {
            while self.pump(Duration::from_millis(0))? {}
            if self.quiescent() {
                // a request through the main loop flushes what it has already been told
                let n = self.statuses;
                let _ = self.call("textDocument/selectionRange", json!({"textDocument": {"uri": "file:///nowhere"}, "positions": []}))?;
                while self.pump(Duration::from_millis(2))? {}
                if self.quiescent() && n == self.statuses {
                    return Ok(());
                }
            } else {
                self.pump(Duration::from_millis(100))?;
            }
            if Instant::now() > end {
                return Err(Fail::new("never-quiescent", format!("the server does not become quiescent: {:?}", self.status)));
            }
        }
    }
    /// waits for the first load of the workspace
    pub fn ready(&mut self) -> R<()> {
        let end = Instant::now() + PATIENCE;
        let mut seen_busy = false;
        loop {
            if Instant::now() > end {
                return Err(Fail::new("never-ready", format!("the server does not load the workspace: {:?}", self.status)));
            }
            self.pump(Duration::from_millis(100))?;
            seen_busy |= self.status.as_ref().is_some_and(|s| s["quiescent"] == json!(false));
            if seen_busy && self.quiescent() {
                return self.settle();
            }
        }
    }
    pub fn open(&self, uri: &str, version: i64, text: &str) -> R<()> {
        self.note(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "move", "version": version, "text": text}}),
        )
    }
    pub fn close(&self, uri: &str) -> R<()> {
        self.note("textDocument/didClose", json!({"textDocument": {"uri": uri}}))
    }
    pub fn change(&self, uri: &str, version: i64, changes: Vec<Value>) -> R<()> {
        self.note(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": changes}),
        )
    }
    /// 1 created, 2 changed, 3 deleted
    pub fn watched(&self, changes: &[(String, u32)]) -> R<()> {
        let v: Vec<Value> = changes.iter().map(|(u, t)| json!({"uri": u, "type": t})).collect();
        self.note("workspace/didChangeWatchedFiles", json!({"changes": v}))
    }
    /// shutdown and exit; the server loop must end by itself and well
    pub fn stop(&mut self) -> R<()> {
        let v = self.call("shutdown", Value::Null)?;
        if v != Ok(Value::Null) {
            return Err(Fail::new("shutdown-answer", format!("shutdown is answered with {v:?}")));
        }
        self.exit()
    }
    pub fn exit(&mut self) -> R<()> {
        self.note("exit", Value::Null)?;
        let end = Instant::now() + PATIENCE;
        let t = self.thread.take().unwrap();
        while !t.is_finished() {
            if Instant::now() > end {
                return Err(Fail::new("no-exit", "the server does not end after shutdown and exit"));
            }
            while let Ok(true) = self.pump(Duration::from_millis(5)) {}
        }
        match t.join() {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(Fail::new("exit-error", format!("the server ends with an error after shutdown and exit: {e}"))),
            Err(_) => Err(Fail::new("exit-panic", "the server loop panics")),
        }
    }
    pub fn crashed(&mut self) -> bool {
        self.thread.as_ref().is_some_and(|t| t.is_finished())
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        if let Some(t) = self.thread.take() {
            let _ = self.note("exit", Value::Null);
            let end = Instant::now() + Duration::from_secs(10);
            while !t.is_finished() && Instant::now() < end {
                while let Ok(true) = self.pump(Duration::from_millis(1)) {}
            }
            self.conn = None;
            // never detach: glibc's `pthread_detach` races with the thread's exit
            std::mem::forget(t);
        }
    }
}
pub fn short(m: &str) -> String {
    m.rsplit('/').next().unwrap().to_string()
}
/// the file a location of the server is in
pub fn loc_path(v: &Value) -> PathBuf {
    uri_path(v.as_str().unwrap_or("")).unwrap_or_else(|| PathBuf::from(format!("?{v}")))
}

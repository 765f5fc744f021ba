//! C24: what the server answers is what the analysis says about the client's text, in the client's coordinates.
use crate::client::{self, Caps, Enc, R, Server, jpos, jrange, short};
use crate::proj::{self, PFile, Proj};
use crate::ws::Ws;
use common::engine::{Case, Check, Fail, PropResult};
use common::{Src, ensure, ensure_eq, fail};
use ide::inlay_hints::{InlayFieldsToResolve, InlayHintPosition, InlayHintsConfig, InlayKind};
use ide::syntax_highlighting::tags::HlTag;
use ide::{Analysis, NavigationTarget};
use ide_completion::config::CompletionConfig;
use ide_db::assists::AssistResolveStrategy;
use ide_db::symbol_index::Query;
use ide_db::{AllowSnippets, Severity, SymbolKind};
use ide_diagnostics::config::DiagnosticsConfig;
use serde_json::{Value, json};
use syntax::files::{FilePosition, FileRange};
use syntax::{TextRange, TextSize};
use vfs::FileId;

pub struct M {
    pub ws: Ws,
    pub an: Analysis,
}
impl M {
    pub fn new(p: &Proj) -> M {
        let ws = p.model();
        let an = ws.host.analysis();
        M { ws, an }
    }
    pub fn fp(&self, i: usize, off: usize) -> FilePosition {
        FilePosition { file_id: self.ws.files[i], offset: TextSize::new(off as u32) }
    }
}
pub fn us(r: TextRange) -> (usize, usize) {
    (usize::from(r.start()), usize::from(r.end()))
}
pub fn rng(f: &PFile, r: TextRange, e: Enc) -> Value {
    let (a, b) = us(r);
    jrange(&f.text, a, b, e)
}
pub type Loc = (usize, String);
fn loc(p: &Proj, v: &Value, uri: &str, range: &str) -> R<Loc> {
    match p.of_uri(&v[uri]) {
        Some(i) => Ok((i, v[range].to_string())),
        None => Err(Fail::new("foreign-uri", format!("a location in {}, which is not a file of the project", v[uri]))),
    }
}
pub fn list(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn builtin(m: &M, id: FileId) -> bool {
    id == m.ws.builtins
}
fn nav_loc(p: &Proj, m: &M, n: &NavigationTarget, r: TextRange, e: Enc) -> Option<Loc> {
    let i = p.index(&m.ws, n.file_id)?;
    Some((i, rng(&p.files[i], r, e).to_string()))
}
fn at(p: &Proj, i: usize, off: usize) -> String {
    let t = &p.files[i].text;
    let a = t[..off].rfind('\n').map(|x| x + 1).unwrap_or(0);
    let b = t[off..].find('\n').map(|x| x + off).unwrap_or(t.len());
    format!("{}:{}:{}: {}<|>{}", p.files[i].rel, t[..off].matches('\n').count() + 1, off - a + 1, &t[a..off], &t[off..b])
}

pub fn definition(p: &Proj, m: &M, sv: &mut Server, i: usize, off: usize) -> R<bool> {
    let e = sv.enc;
    let want = m.an.goto_definition_multi(m.fp(i, off)).unwrap();
    let got = sv.ok("textDocument/definition", p.tdp(i, off, e))?;
    let Some(want) = want else {
        ensure!(list(&got).is_empty(), "definition-extra", "{}: {got}", at(p, i, off));
        return Ok(false);
    };
    // declarations of builtins have no file the client could open
    let navs: Vec<&NavigationTarget> = want.info.iter().filter(|n| !builtin(m, n.file_id)).collect();
    let mut w: Vec<Loc> = vec![];
    let mut g: Vec<Loc> = vec![];
    for n in &navs {
        let focus = n.focus_range.unwrap_or(n.full_range);
        if sv.caps.link {
            let (a, b) = (nav_loc(p, m, n, n.full_range, e).unwrap(), nav_loc(p, m, n, focus, e).unwrap());
            w.push((a.0, format!("{} {} from {}", a.1, b.1, rng(&p.files[i], want.range, e))));
        } else {
            w.push(nav_loc(p, m, n, focus, e).unwrap());
        }
    }
    for v in list(&got) {
        if sv.caps.link {
            let a = loc(p, &v, "targetUri", "targetRange")?;
            g.push((a.0, format!("{} {} from {}", a.1, v["targetSelectionRange"], v["originSelectionRange"])));
        } else {
            g.push(loc(p, &v, "uri", "range")?);
        }
    }
    w.sort();
    w.dedup();
    g.sort();
    ensure_eq!(g, w, "definition", "{} (link {})", at(p, i, off), sv.caps.link);
    Ok(!w.is_empty())
}

pub fn references(p: &Proj, m: &M, sv: &mut Server, i: usize, off: usize, decl: bool) -> R<bool> {
    let e = sv.enc;
    let mut params = p.tdp(i, off, e);
    params["context"] = json!({"includeDeclaration": decl});
    let got = sv.ok("textDocument/references", params)?;
    let want = m.an.find_all_refs(m.fp(i, off), None).unwrap();
    let mut w: Vec<Loc> = vec![];
    if let Some(r) = want {
        for (f, rs) in r.references {
            let Some(k) = p.index(&m.ws, f) else { continue };
            w.extend(rs.into_iter().map(|x| (k, rng(&p.files[k], x, e).to_string())));
        }
        if let Some(d) = r.declaration.filter(|_| decl) {
            w.extend(nav_loc(p, m, &d, d.focus_range.unwrap_or(d.full_range), e));
        }
    }
    let mut g: Vec<Loc> = list(&got).iter().map(|v| loc(p, v, "uri", "range")).collect::<R<_>>()?;
    w.sort();
    w.dedup();
    g.sort();
    ensure_eq!(g, w, "references", "{} (with declaration: {decl})", at(p, i, off));
    Ok(!w.is_empty())
}

pub fn highlight(p: &Proj, m: &M, sv: &mut Server, i: usize, off: usize) -> R<bool> {
    let e = sv.enc;
    let got = sv.ok("textDocument/documentHighlight", p.tdp(i, off, e))?;
    let want = m.an.highlight_related(m.fp(i, off)).unwrap().unwrap_or_default();
    let mut w: Vec<String> = want.iter().map(|r| rng(&p.files[i], *r, e).to_string()).collect();
    let mut g: Vec<String> = list(&got).iter().map(|v| v["range"].to_string()).collect();
    w.sort();
    g.sort();
    ensure_eq!(g, w, "highlight", "{}", at(p, i, off));
    Ok(!w.is_empty())
}

pub fn hover(p: &Proj, m: &M, sv: &mut Server, i: usize, off: usize) -> R<bool> {
    let e = sv.enc;
    let got = sv.ok("textDocument/hover", p.tdp(i, off, e))?;
    match m.an.hover(m.fp(i, off)).unwrap() {
        None => {
            ensure_eq!(got, Value::Null, "hover-extra", "{}", at(p, i, off));
            Ok(false)
        }
        Some(h) => {
            ensure_eq!(got["range"], rng(&p.files[i], h.range, e), "hover-range", "{}", at(p, i, off));
            ensure_eq!(got["contents"]["value"], json!(h.info.doc_string), "hover-text", "{}", at(p, i, off));
            Ok(true)
        }
    }
}

pub fn prepare_rename(p: &Proj, m: &M, sv: &mut Server, i: usize, off: usize) -> R<bool> {
    let e = sv.enc;
    let got = sv.call("textDocument/prepareRename", p.tdp(i, off, e))?;
    match (m.an.prepare_rename(m.fp(i, off)).unwrap(), got) {
        (Ok(r), Ok(v)) => {
            let v = if v.get("range").is_some() { v["range"].clone() } else { v };
            ensure_eq!(v, rng(&p.files[i], r.range, e), "prepare-rename", "{}", at(p, i, off));
            let (a, b) = (usize::from(r.range.start()), usize::from(r.range.end()));
            ensure!(a <= off && off <= b && b <= p.files[i].text.len(), "prepare-rename-elsewhere", "{}: the range {a}..{b} does not hold the cursor", at(p, i, off));
            Ok(true)
        }
        (Err(_), Err((-32602, _))) => Ok(false),
        (w, g) => fail!("prepare-rename-verdict", "{}: the server says {g:?}, the analysis {w:?}", at(p, i, off)),
    }
}

pub fn selection(p: &Proj, m: &M, sv: &mut Server, i: usize, offs: &[usize]) -> R<bool> {
    let e = sv.enc;
    let f = &p.files[i];
    let ps: Vec<Value> = offs.iter().map(|o| jpos(&f.text, *o, e)).collect();
    let got = list(&sv.ok("textDocument/selectionRange", json!({"textDocument": {"uri": p.uri(i)}, "positions": ps}))?);
    ensure_eq!(got.len(), offs.len(), "selection-count", "{}", f.rel);
    for (k, off) in offs.iter().enumerate() {
        let mut w = vec![];
        let mut r = TextRange::empty(TextSize::new(*off as u32));
        loop {
            w.push(rng(f, r, e));
            let n = m.an.extend_selection(FileRange { file_id: m.ws.files[i], range: r }).unwrap();
            if n == r {
                break;
            }
            r = n;
        }
        let mut g = vec![];
        let mut v = &got[k];
        while !v.is_null() {
            g.push(v["range"].clone());
            v = &v["parent"];
        }
        ensure_eq!(g, w, "selection", "{}", at(p, i, *off));
    }
    Ok(true)
}

fn symbol_kind(k: SymbolKind) -> u64 {
    // the numbers of the protocol
    match k {
        SymbolKind::Function | SymbolKind::Attribute | SymbolKind::Vector | SymbolKind::Assert | SymbolKind::Lemma => 12,
        SymbolKind::Method => 6,
        SymbolKind::Struct | SymbolKind::Schema => 23,
        SymbolKind::Enum => 10,
        SymbolKind::EnumVariant => 22,
        SymbolKind::Module => 2,
        SymbolKind::TypeParam => 26,
        SymbolKind::Field => 8,
        SymbolKind::Const => 14,
        _ => 13,
    }
}

pub fn symbols(p: &Proj, m: &M, sv: &mut Server, i: usize) -> R<bool> {
    let e = sv.enc;
    let f = &p.files[i];
    let got = list(&sv.ok("textDocument/documentSymbol", json!({"textDocument": {"uri": p.uri(i)}}))?);
    let want = m.an.file_structure(m.ws.files[i]).unwrap();
    let mut w: Vec<(String, String, u64, String, String)> = vec![];
    for n in &want {
        let parent = n.parent.map(|x| want[x].label.clone()).unwrap_or_default();
        let sel = if sv.caps.hier { rng(f, n.navigation_range, e).to_string() } else { String::new() };
        w.push((parent, n.label.clone(), symbol_kind(n.kind), rng(f, n.node_range, e).to_string(), sel));
    }
    let mut g = vec![];
    fn walk(v: &Value, parent: &str, g: &mut Vec<(String, String, u64, String, String)>) {
        let name = v["name"].as_str().unwrap_or("").to_string();
        g.push((parent.to_string(), name.clone(), v["kind"].as_u64().unwrap_or(0), v["range"].to_string(), v["selectionRange"].to_string()));
        for c in list(&v["children"]) {
            walk(&c, &name, g);
        }
    }
    for v in &got {
        if sv.caps.hier {
            walk(v, "", &mut g);
        } else {
            let l = loc(p, &v["location"], "uri", "range")?;
            ensure_eq!(l.0, i, "symbol-file", "{}", f.rel);
            g.push((
                v["containerName"].as_str().unwrap_or("").to_string(),
                v["name"].as_str().unwrap_or("").to_string(),
                v["kind"].as_u64().unwrap_or(0),
                l.1,
                String::new(),
            ));
        }
    }
    // document order is part of the answer
    ensure_eq!(g, w, "symbols", "{} (hierarchical {})", f.rel, sv.caps.hier);
    Ok(!w.is_empty())
}

/// names of the protocol for the tags that have one
fn token_name(t: HlTag) -> Option<&'static str> {
    Some(match t {
        HlTag::Comment => "comment",
        HlTag::Keyword => "keyword",
        HlTag::NumericLiteral => "number",
        HlTag::StringLiteral => "string",
        HlTag::Symbol(k) => match k {
            SymbolKind::Function => "function",
            SymbolKind::Struct => "struct",
            SymbolKind::Enum => "enum",
            SymbolKind::EnumVariant => "enumMember",
            SymbolKind::Module => "namespace",
            SymbolKind::Field => "property",
            SymbolKind::TypeParam => "typeParameter",
            SymbolKind::ValueParam => "parameter",
            SymbolKind::Local => "variable",
            SymbolKind::Method => "method",
            SymbolKind::Const => "const",
            _ => return None,
        },
        _ => return None,
    })
}

pub fn tokens(p: &Proj, m: &M, sv: &mut Server, i: usize, part: Option<(usize, usize)>) -> R<bool> {
    let e = sv.enc;
    let f = &p.files[i];
    let id = m.ws.files[i];
    let (got, want) = match part {
        None => (
            sv.ok("textDocument/semanticTokens/full", json!({"textDocument": {"uri": p.uri(i)}}))?,
            m.an.highlight(id).unwrap(),
        ),
        Some((a, b)) => (
            sv.ok("textDocument/semanticTokens/range", json!({"textDocument": {"uri": p.uri(i)}, "range": jrange(&f.text, a, b, e)}))?,
            m.an.highlight_range(FileRange { file_id: id, range: TextRange::new(TextSize::new(a as u32), TextSize::new(b as u32)) }).unwrap(),
        ),
    };
    let data: Vec<u64> = list(&got["data"]).iter().map(|v| v.as_u64().unwrap_or(u64::MAX)).collect();
    ensure!(data.len() % 5 == 0, "tokens-length", "{} numbers", data.len());
    // decode as a client does
    let (mut line, mut col) = (0u64, 0u64);
    let mut g = vec![];
    for d in data.chunks(5) {
        if d[0] > 0 {
            line += d[0];
            col = d[1];
        } else {
            col += d[1];
        }
        ensure!((d[3] as usize) < sv.legend.len(), "token-type-unknown", "type {} of {}", d[3], sv.legend.len());
        g.push((line, col, d[2], sv.legend[d[3] as usize].clone()));
    }
    let mut w = vec![];
    for h in &want {
        if h.highlight.is_empty() {
            continue;
        }
        let (a, b) = us(h.range);
        let mut at = a;
        for l in f.text[a..b].split_inclusive('\n') {
            let body = l.strip_suffix('\n').unwrap_or(l);
            let (x, y) = client::pos(&f.text, at, e);
            w.push((x as u64, y as u64, e.len(body) as u64, token_name(h.highlight.tag)));
            at += l.len();
        }
    }
    ensure_eq!(g.len(), w.len(), "tokens-count", "{} {part:?}\ngot {g:?}\nwant {w:?}", f.rel);
    let mut prev = (0, 0);
    for (g, w) in g.iter().zip(&w) {
        ensure_eq!((g.0, g.1, g.2), (w.0, w.1, w.2), "tokens-place", "{} {part:?}: {}", f.rel, g.3);
        ensure!((g.0, g.1) >= prev, "tokens-order", "{} {part:?}: {g:?} before {prev:?}", f.rel);
        prev = (g.0, g.1);
        if let Some(n) = w.3 {
            ensure_eq!(g.3.as_str(), n, "tokens-type", "{} {g:?}", f.rel);
        }
    }
    Ok(!w.is_empty())
}

pub fn signature(p: &Proj, m: &M, sv: &mut Server, i: usize, off: usize) -> R<bool> {
    let e = sv.enc;
    let got = sv.ok("textDocument/signatureHelp", p.tdp(i, off, e))?;
    let Some(h) = m.an.signature_help(m.fp(i, off)).unwrap() else {
        ensure_eq!(got, Value::Null, "signature-extra", "{}", at(p, i, off));
        return Ok(false);
    };
    let sig = &got["signatures"][0];
    let label = sig["label"].as_str().unwrap_or("").to_string();
    let params = list(&sig["parameters"]);
    let mut g = vec![];
    for q in &params {
        match &q["label"] {
            Value::String(t) => g.push(t.clone()),
            v => {
                ensure!(sv.caps.offsets, "signature-offsets", "label offsets for a client that cannot take them: {v}");
                // offsets are in UTF-16 units whatever the position encoding is
                let u: Vec<u16> = label.encode_utf16().collect();
                let (a, b) = (v[0].as_u64().unwrap_or(0) as usize, v[1].as_u64().unwrap_or(0) as usize);
                ensure!(a <= b && b <= u.len(), "signature-offsets-out", "{v} in {label:?}");
                g.push(String::from_utf16_lossy(&u[a..b]));
            }
        }
    }
    let w: Vec<String> = h.parameter_labels().map(|x| x.to_string()).collect();
    ensure_eq!(g, w, "signature-parameters", "{}: {label:?}", at(p, i, off));
    for x in &w {
        ensure!(label.contains(x.as_str()), "signature-label", "{label:?} does not contain {x:?}");
    }
    let act = h.active_parameter.map(|x| json!(x)).unwrap_or(Value::Null);
    ensure_eq!(got["activeParameter"], act, "signature-active", "{}", at(p, i, off));
    Ok(!w.is_empty())
}

pub fn hints_config(sv: &Server) -> InlayHintsConfig {
    let b = |k: &str, d: bool| sv.config.pointer(&format!("/inlayHints/{k}")).and_then(|v| v.as_bool()).unwrap_or(d);
    let all: std::collections::HashSet<&str> = if sv.caps.hint_resolve {
        ["tooltip", "label.tooltip", "label.location", "textEdits", "label.command"].into_iter().collect()
    } else {
        Default::default()
    };
    InlayHintsConfig {
        render_colons: b("renderColons", true),
        type_hints: b("typeHints/enable", true),
        tuple_type_hints: b("typeHints/showForTuples", true),
        parameter_hints: b("parameterHints/enable", true),
        range_exclusive_hints: b("rangeExclusiveHints/enable", true),
        hide_closure_parameter_hints: b("typeHints/hideClosureParameter", false),
        fields_to_resolve: InlayFieldsToResolve::from_client_capabilities(&all),
    }
}
fn label_text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        v => list(v).iter().map(|x| x["value"].as_str().unwrap_or("").to_string()).collect(),
    }
}
pub fn hints(p: &Proj, m: &M, sv: &mut Server, i: usize, a: usize, b: usize) -> R<bool> {
    let e = sv.enc;
    let f = &p.files[i];
    let got = list(&sv.ok("textDocument/inlayHint", json!({"textDocument": {"uri": p.uri(i)}, "range": jrange(&f.text, a, b, e)}))?);
    let cfg = hints_config(sv);
    let r = TextRange::new(TextSize::new(a as u32), TextSize::new(b as u32));
    let want = m.an.inlay_hints(&cfg, m.ws.files[i], Some(r)).unwrap();
    let mut w: Vec<(String, String, u64, bool, bool, Vec<Loc>)> = vec![];
    for h in want {
        let (x, y) = us(h.range);
        let at = match h.position {
            InlayHintPosition::Before => x,
            InlayHintPosition::After => y,
        };
        let kind = match h.kind {
            InlayKind::Type | InlayKind::Chaining => 1,
            InlayKind::Parameter | InlayKind::GenericParameter => 2,
            _ => 0,
        };
        let mut locs = vec![];
        for part in &h.label.parts {
            if let Some(Some(fr)) = part.linked_location.clone().map(|l| l.computed())
                && let Some(k) = p.index(&m.ws, fr.file_id)
            {
                locs.push((k, rng(&p.files[k], fr.range, e).to_string()));
            }
        }
        let text: String = h.label.parts.iter().map(|x| x.text.clone()).collect();
        w.push((jpos(&f.text, at, e).to_string(), text, kind, h.pad_left, h.pad_right, locs));
    }
    let mut g = vec![];
    for v in &got {
        let mut locs = vec![];
        for part in list(&v["label"]) {
            if !part["location"].is_null() {
                locs.push(loc(p, &part["location"], "uri", "range")?);
            }
        }
        g.push((
            v["position"].to_string(),
            label_text(&v["label"]),
            v["kind"].as_u64().unwrap_or(0),
            v["paddingLeft"] == json!(true),
            v["paddingRight"] == json!(true),
            locs,
        ));
    }
    g.sort();
    w.sort();
    ensure_eq!(g, w, "hints", "{} {a}..{b}", f.rel);
    // resolving a hint changes nothing that was already shown
    for v in got.iter().take(6) {
        if v["data"].is_null() {
            continue;
        }
        let r = sv.ok("inlayHint/resolve", v.clone())?;
        ensure_eq!(r["position"], v["position"], "hint-resolve-position", "{}: {v} becomes {r}", f.rel);
        ensure_eq!(label_text(&r["label"]), label_text(&v["label"]), "hint-resolve-label", "{}: {v} becomes {r}", f.rel);
        for part in list(&r["label"]) {
            if !part["location"].is_null() {
                loc(p, &part["location"], "uri", "range")?;
            }
        }
    }
    Ok(!w.is_empty())
}

pub fn diag_config(sv: &Server) -> DiagnosticsConfig {
    let get = |k: &str| sv.config.pointer(&format!("/diagnostics/{k}")).cloned();
    let set = |k: &str, d: &[&str]| match get(k) {
        Some(v) => list(&v).iter().filter_map(|x| x.as_str().map(String::from)).collect(),
        None => d.iter().map(|x| x.to_string()).collect(),
    };
    DiagnosticsConfig {
        enabled: get("enable").and_then(|v| v.as_bool()).unwrap_or(true),
        disabled: set("disabled", &["missing-const-doc-comment"]),
        enable_only: set("enableOnly", &[]),
        needs_type_annotation: get("needsTypeAnnotation").and_then(|v| v.as_bool()).unwrap_or(false),
        assists_only: false,
    }
}
pub fn diagnostics(p: &Proj, m: &M, sv: &mut Server, i: usize) -> R<bool> {
    let e = sv.enc;
    let f = &p.files[i];
    let got = sv.ok("textDocument/diagnostic", json!({"textDocument": {"uri": p.uri(i)}}))?;
    ensure_eq!(got["kind"], json!("full"), "diagnostics-kind", "{got}");
    let cfg = diag_config(sv);
    let want = if cfg.enabled {
        m.an.full_diagnostics(&cfg, AssistResolveStrategy::None, m.ws.files[i]).unwrap()
    } else {
        vec![]
    };
    let mut w: Vec<(String, String, u64, String, bool)> = want
        .iter()
        .filter(|d| d.range.file_id == m.ws.files[i])
        .map(|d| {
            let sev = match d.severity {
                Severity::Error => 1,
                Severity::Warning => 2,
                Severity::WeakWarning => 3,
                _ => 4,
            };
            (rng(f, d.range.range, e).to_string(), d.code.as_str().to_string(), sev, d.message.clone(), d.unused)
        })
        .collect();
    let mut g: Vec<(String, String, u64, String, bool)> = list(&got["items"])
        .iter()
        .map(|v| {
            (
                v["range"].to_string(),
                v["code"].as_str().unwrap_or("").to_string(),
                v["severity"].as_u64().unwrap_or(0),
                v["message"].as_str().unwrap_or("").to_string(),
                list(&v["tags"]).contains(&json!(1)),
            )
        })
        .collect();
    g.sort();
    w.sort();
    ensure_eq!(g, w, "diagnostics", "{} ({cfg:?})", f.rel);
    Ok(!w.is_empty())
}

pub fn completion_config(sv: &Server) -> CompletionConfig {
    let auto = sv.config.pointer("/completion/autoimport/enable").and_then(|v| v.as_bool()).unwrap_or(false);
    CompletionConfig { allow_snippets: AllowSnippets::new(sv.caps.snippets), enable_imports_on_the_fly: auto && sv.caps.import_resolve }
}
/// Accepting an item gives the text the analysis means; label and place are as the protocol wants them.
pub fn completion(p: &Proj, m: &M, sv: &mut Server, i: usize, off: usize) -> R<bool> {
    let e = sv.enc;
    let f = &p.files[i];
    let got = sv.ok("textDocument/completion", p.tdp(i, off, e))?;
    let items = if got.is_array() { list(&got) } else { list(&got["items"]) };
    let want = m.an.completions(&completion_config(sv), m.fp(i, off), None).unwrap().unwrap_or_default();
    let mut w: Vec<(String, String, bool)> = vec![];
    for c in &want {
        let mut t = f.text.clone();
        c.text_edit.apply(&mut t);
        let label = if sv.caps.label_details {
            c.label.primary.clone()
        } else {
            format!("{}{}", c.label.primary, c.label.detail_left.clone().unwrap_or_default())
        };
        w.push((label, t, c.is_snippet));
    }
    let mut g: Vec<(String, String, bool)> = vec![];
    let line = client::pos(&f.text, off, e).0 as u64;
    for v in &items {
        let te = &v["textEdit"];
        let mut edits = vec![];
        let place = if te.get("replace").is_some() {
            ensure!(sv.caps.insert_replace, "completion-insert-replace", "{v}");
            ensure_eq!(te["insert"]["start"], te["replace"]["start"], "completion-insert-start", "{v}");
            let (ie, re) = (client::off(&f.text, &te["insert"]["end"], e), client::off(&f.text, &te["replace"]["end"], e));
            ensure!(ie.is_some() && ie <= re, "completion-insert-prefix", "{v}");
            te["replace"].clone()
        } else {
            te["range"].clone()
        };
        ensure!(
            place["start"]["line"].as_u64() == Some(line) && place["end"]["line"].as_u64() == Some(line),
            "completion-one-line",
            "{}: {v}",
            at(p, i, off)
        );
        let (a, b) = (client::off(&f.text, &place["start"], e), client::off(&f.text, &place["end"], e));
        ensure!(a.is_some_and(|a| a <= off) && b.is_some_and(|b| b >= off), "completion-around-cursor", "{}: {v}", at(p, i, off));
        edits.push(json!({"range": place, "newText": te["newText"]}));
        edits.extend(list(&v["additionalTextEdits"]));
        let nl = if f.crlf { "\r\n" } else { "\n" };
        for x in &mut edits {
            let t = x["newText"].as_str().unwrap_or("").replace(nl, "\n");
            x["newText"] = json!(t);
        }
        let t = client::apply(&f.text, &edits, e).map_err(|x| Fail::new("completion-edit", format!("{}: {v}: {x}", at(p, i, off))))?;
        g.push((v["label"].as_str().unwrap_or("").to_string(), t, v["insertTextFormat"].as_u64() == Some(2)));
        ensure!(sv.caps.snippets || g.last().unwrap().2 == false, "completion-snippet", "{v}");
    }
    g.sort();
    w.sort();
    if g != w {
        let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(2).collect();
        let missing: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(2).collect();
        fail!("completion", "{}: {} items, the analysis gives {}: only the server {extra:?}, only the analysis {missing:?}", at(p, i, off), g.len(), w.len());
    }
    Ok(!w.is_empty())
}

pub fn workspace_symbols(p: &Proj, m: &M, sv: &mut Server, q: &str) -> R<bool> {
    let e = sv.enc;
    let got = list(&sv.ok("workspace/symbol", json!({"query": q}))?);
    let want = m.an.symbol_search(Query::new(q, Some(128))).unwrap();
    if want.len() >= 128 {
        return Ok(false);
    }
    let mut w = vec![];
    for n in &want {
        if builtin(m, n.file_id) {
            continue;
        }
        let l = nav_loc(p, m, n, n.focus_range.unwrap_or(n.full_range), e).unwrap();
        let name = match &n.alias {
            Some(a) => format!("{a} (alias for {})", n.name),
            None => n.name.clone(),
        };
        w.push((name, l, n.container_name.clone().unwrap_or_default(), n.kind.map(symbol_kind).unwrap_or(13)));
    }
    let mut g = vec![];
    for v in &got {
        g.push((
            v["name"].as_str().unwrap_or("").to_string(),
            loc(p, &v["location"], "uri", "range")?,
            v["containerName"].as_str().unwrap_or("").to_string(),
            v["kind"].as_u64().unwrap_or(0),
        ));
    }
    g.sort();
    w.sort();
    ensure_eq!(g, w, "workspace-symbols", "query {q:?}");
    Ok(!w.is_empty())
}

pub fn random_request(p: &Proj, m: &M, sv: &mut Server, s: &mut Src, c: &mut Case) -> PropResult {
    let i = s.idx(p.files.len());
    let t = &p.files[i].text;
    let o = proj::offset(t, s);
    let o2 = proj::offset(t, s);
    let (a, b) = (o.min(o2), o.max(o2));
    let (k, r) = match s.below(16) {
        0 | 1 => ("definition", definition(p, m, sv, i, o)),
        2 => {
            let d = s.flip();
            ("references", references(p, m, sv, i, o, d))
        }
        3 => ("documentHighlight", highlight(p, m, sv, i, o)),
        4 => ("hover", hover(p, m, sv, i, o)),
        5 => ("prepareRename", prepare_rename(p, m, sv, i, o)),
        6 => ("selectionRange", selection(p, m, sv, i, &[o, o2])),
        7 => ("documentSymbol", symbols(p, m, sv, i)),
        8 => ("semanticTokens", tokens(p, m, sv, i, None)),
        9 => ("semanticTokensRange", tokens(p, m, sv, i, Some((a, b)))),
        10 | 11 => ("signatureHelp", signature(p, m, sv, i, o)),
        12 => {
            let (a, b) = if s.flip() { (0, t.len()) } else { (a, b) };
            ("inlayHint", hints(p, m, sv, i, a, b))
        }
        13 => ("diagnostic", diagnostics(p, m, sv, i)),
        14 => ("completion", completion(p, m, sv, i, o)),
        _ => {
            let w = t[o..].split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string();
            let n = s.below(w.chars().count() as u64 + 1) as usize;
            let q: String = w.chars().take(n.max(1)).collect();
            ("workspaceSymbol", workspace_symbols(p, m, sv, &q))
        }
    };
    let nt = r?;
    c.label(k);
    c.nontrivial(nt);
    c.count("requests", 1);
    Ok(())
}

pub fn random_config(s: &mut Src) -> Value {
    if s.flip() {
        return json!({});
    }
    json!({
        "inlayHints": {
            "renderColons": s.flip(),
            "typeHints": {"enable": !s.chance(1, 6), "showForTuples": s.flip(), "hideClosureParameter": s.flip()},
            "parameterHints": {"enable": !s.chance(1, 6)},
            "rangeExclusiveHints": {"enable": s.flip()},
        },
        "diagnostics": {
            "enable": !s.chance(1, 8),
            "disabled": match s.below(3) { 0 => json!([]), 1 => json!(["unused-import", "unresolved-reference"]), _ => json!(["missing-const-doc-comment"]) },
            "enableOnly": match s.below(5) { 0 => json!(["type-error"]), _ => json!([]) },
            "needsTypeAnnotation": s.flip(),
        },
        "completion": {"autoimport": {"enable": s.flip()}},
    })
}

fn run(s: &mut Src, c: &mut Case) -> PropResult {
    let o = proj::small(s);
    let w = proj::world(s, o);
    let mut p = proj::from_world(&w, s, true);
    // half of the time with a few errors in the text
    if s.flip() {
        for f in &mut p.files {
            if s.chance(1, 3) && f.text.len() > 10 {
                let o = proj::offset(&f.text, s);
                let t = *s.pick(&[" ", "x", "(", "::", "q.", "\"", "}"]);
                f.text.insert_str(o, t);
            }
        }
    }
    let caps = Caps::random(s);
    let config = random_config(s);
    let mut disk: Vec<String> = vec![];
    // some files have another text on disk than in the editor
    let opened: Vec<bool> = p.files.iter().map(|_| s.flip()).collect();
    let mut keep = vec![];
    for (f, o) in p.files.iter_mut().zip(&opened) {
        keep.push((f.text.clone(), f.crlf));
        if *o && s.flip() {
            f.text = format!("module 0x77::gone{} {{ }}\n", disk.len());
            f.crlf = s.flip();
        }
        disk.push(f.text.clone());
    }
    c.input(format!("{caps:?}\n{config}\n{}", p.show()));
    let mut sv = p.start(caps, config)?;
    for (i, (t, crlf)) in keep.into_iter().enumerate() {
        p.files[i].text = t;
        p.files[i].crlf = crlf;
        if opened[i] {
            p.open(&sv, i, 1)?;
        }
    }
    c.input(format!("{:?} {}\n{}", sv.caps, sv.config, p.show()));
    sv.settle()?;
    let m = M::new(&p);
    for _ in 0..s.range(8, 20) {
        random_request(&p, &m, &mut sv, s, c)?;
    }
    sv.stop()
}

pub fn checks() -> Vec<Check> {
    vec![Check::new(
        "answers-in-client-coordinates",
        "a request of the case has a non-empty answer",
        2500,
        80000,
        run,
    )]
}
#[allow(dead_code)]
pub fn name(m: &str) -> String {
    short(m)
}

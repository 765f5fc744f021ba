//! One question to the analysis, of any kind, with the answer as text and the promises every answer keeps.
use common::engine::Fail;
use common::*;
use ide::annotations::{AnnotationConfig, AnnotationKind, AnnotationLocation};
use ide::inlay_hints::{InlayFieldsToResolve, InlayHintsConfig};
use ide::{Analysis, NavigationTarget};
use ide_completion::config::CompletionConfig;
use ide_db::AllowSnippets;
use ide_db::assist_config::AssistConfig;
use ide_db::assists::AssistResolveStrategy;
use ide_db::source_change::SourceChange;
use ide_db::symbol_index::Query;
use ide_db::text_edit::TextEdit;
use ide_diagnostics::config::DiagnosticsConfig;
use std::collections::HashMap;
use syntax::files::{FilePosition, FileRange};
use syntax::{TextRange, TextSize};
use vfs::FileId;

pub const KINDS: u64 = 22;
#[derive(Clone, Debug)]
pub struct Q {
    pub kind: u64,
    pub file: usize,
    pub a: usize,
    pub b: usize,
    pub flags: u64,
    pub word: String,
}
impl Q {
    pub fn name(&self) -> &'static str {
        [
            "diagnostics", "goto", "goto-multi", "goto-spec", "refs", "hover", "highlight-related", "prepare-rename", "rename",
            "signature", "selection", "structure", "highlight", "highlight-range", "hints", "completion", "symbols", "assists",
            "runnables", "lens", "organize", "types",
        ][self.kind as usize]
    }
}
/// a question about one of the texts
pub fn question(texts: &[String], s: &mut Src) -> Q {
    let file = s.below(texts.len() as u64) as usize;
    let t = &texts[file];
    let bound = |s: &mut Src| {
        let mut o = s.below(t.len() as u64 + 1) as usize;
        while !t.is_char_boundary(o) {
            o -= 1;
        }
        if s.chance(2, 3) {
            // at a word
            let b = t.as_bytes();
            let mut k = o;
            while k < b.len() && !(b[k].is_ascii_alphanumeric() || b[k] == b'_') {
                k += 1;
            }
            if k < b.len() && t.is_char_boundary(k) {
                o = k;
                if s.chance(1, 3) {
                    while o < b.len() && (b[o].is_ascii_alphanumeric() || b[o] == b'_') {
                        o += 1;
                    }
                }
            }
        }
        o
    };
    let (x, y) = (bound(s), bound(s));
    let word: String = t[x..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    let n = s.below(word.chars().count() as u64 + 1) as usize;
    let word: String = if s.chance(1, 4) { "zz_new".to_string() } else { word.chars().take(n.max(1)).collect() };
    let kind = s.below(KINDS);
    Q { kind, file, a: x, b: y, flags: s.u64(), word }
}

pub struct Texts<'a> {
    pub ids: &'a [FileId],
    pub texts: &'a [String],
    pub builtins: FileId,
}
type R<T> = Result<T, Fail>;
impl Texts<'_> {
    fn inside(&self, f: FileId, r: TextRange, what: &str) -> R<()> {
        let (a, b) = (usize::from(r.start()), usize::from(r.end()));
        if f == self.builtins {
            fail!(format!("{what}-in-builtins"), "the answer is {r:?} of the internal builtins file");
        }
        let Some(i) = self.ids.iter().position(|x| *x == f) else {
            fail!(format!("{what}-no-file"), "the answer is in {f:?}, which is none of the files");
        };
        let t = &self.texts[i];
        ensure!(
            a <= b && b <= t.len() && t.is_char_boundary(a) && t.is_char_boundary(b),
            format!("{what}-range"),
            "{r:?} is not a range of file {i} ({} bytes)",
            t.len()
        );
        Ok(())
    }
    fn nav(&self, n: &NavigationTarget, what: &str) -> R<()> {
        self.inside(n.file_id, n.full_range, what)?;
        if let Some(f) = n.focus_range {
            self.inside(n.file_id, f, what)?;
            ensure!(n.full_range.contains_range(f), format!("{what}-focus"), "focus {f:?} is outside of {:?}", n.full_range);
        }
        Ok(())
    }
    fn edit(&self, f: FileId, e: &TextEdit, what: &str) -> R<()> {
        let mut at = TextSize::new(0);
        for (k, ch) in e.iter().enumerate() {
            self.inside(f, ch.range, what)?;
            ensure!(k == 0 || ch.range.start() >= at, format!("{what}-overlap"), "changes of an edit overlap or are out of order: {e:?}");
            at = ch.range.end();
        }
        Ok(())
    }
    fn change(&self, c: &SourceChange, what: &str) -> R<String> {
        let mut v: Vec<String> = vec![];
        for (f, e) in &c.source_file_edits {
            self.edit(*f, e, what)?;
            v.push(format!("{f:?}: {e:?}"));
        }
        v.sort();
        Ok(format!("{v:?} {:?}", c.file_system_edits))
    }
}

/// (the answer as text, is there an answer)
pub fn ask(an: &Analysis, tx: &Texts, q: &Q) -> R<(String, bool)> {
    let f = tx.ids[q.file];
    let pos = FilePosition { file_id: f, offset: TextSize::new(q.a as u32) };
    let (lo, hi) = (q.a.min(q.b), q.a.max(q.b));
    let fr = FileRange { file_id: f, range: TextRange::new(TextSize::new(lo as u32), TextSize::new(hi as u32)) };
    let flag = |k: u64| q.flags >> k & 1 == 1;
    let what = q.name();
    let mut cfg = DiagnosticsConfig::test_sample();
    cfg.needs_type_annotation = flag(0);
    let out = match q.kind {
        0 => {
            let mut v = vec![];
            for d in an.full_diagnostics(&cfg, AssistResolveStrategy::All, f).unwrap() {
                ensure!(d.range.file_id == f, "diagnostics-elsewhere", "a diagnostic of another file: {d:?}");
                tx.inside(f, d.range.range, what)?;
                let mut fx = vec![];
                for a in d.fixes.iter().flatten() {
                    let ch = match &a.source_change {
                        Some(ch) => tx.change(ch, "fix-edit")?,
                        None => fail!("fix-unresolved", "a fix without its edit although all are asked for: {a:?}"),
                    };
                    fx.push(format!("{:?} {:?} {:?} {ch}", a.id, a.label, a.target));
                }
                v.push(format!("{:?} {:?} {} {:?} {} {fx:?}", d.range.range, d.code, d.message, d.severity, d.unused));
            }
            (v.join("\n"), !v.is_empty())
        }
        1 => {
            let r = an.goto_definition(pos).unwrap();
            if let Some(r) = &r {
                tx.inside(f, r.range, what)?;
                tx.nav(&r.info, what)?;
            }
            (format!("{r:?}"), r.is_some())
        }
        2 | 3 => {
            let r = if q.kind == 2 { an.goto_definition_multi(pos).unwrap() } else { an.goto_specification(pos).unwrap() };
            let mut v = vec![];
            if let Some(r) = &r {
                tx.inside(f, r.range, what)?;
                for n in &r.info {
                    tx.nav(n, what)?;
                    v.push(format!("{n:?}"));
                }
            }
            v.sort();
            (format!("{:?} {v:?}", r.map(|r| r.range)), !v.is_empty())
        }
        4 => {
            let r = an.find_all_refs(pos, None).unwrap();
            let mut v = vec![];
            if let Some(r) = &r {
                for (fi, rs) in &r.references {
                    let mut rs = rs.clone();
                    rs.sort_by_key(|r| (r.start(), r.end()));
                    for r in &rs {
                        if *fi != tx.builtins {
                            tx.inside(*fi, *r, what)?;
                        }
                    }
                    v.push(format!("{fi:?} {rs:?}"));
                }
                v.sort();
                if let Some(d) = &r.declaration {
                    tx.nav(d, what)?;
                    v.push(format!("{d:?}"));
                }
            }
            (v.join("\n"), r.is_some())
        }
        5 => {
            let r = an.hover(pos).unwrap();
            if let Some(r) = &r {
                tx.inside(f, r.range, what)?;
            }
            (format!("{r:?}"), r.is_some())
        }
        6 => {
            let r = an.highlight_related(pos).unwrap();
            let mut v = r.clone().unwrap_or_default();
            v.sort_by_key(|r| (r.start(), r.end()));
            for r in &v {
                tx.inside(f, *r, what)?;
            }
            (format!("{v:?}"), !v.is_empty())
        }
        7 => {
            let r = an.prepare_rename(pos).unwrap();
            if let Ok(r) = &r {
                tx.inside(f, r.range, what)?;
                ensure!(r.range.contains_inclusive(pos.offset), "prepare-rename-elsewhere", "{:?} does not hold the cursor {:?}", r.range, pos.offset);
            }
            (format!("{r:?}"), r.is_ok())
        }
        8 => {
            let r = an.rename(pos, if q.word.is_empty() { "zz_new" } else { &q.word }).unwrap();
            match r {
                Ok(ch) => (tx.change(&ch, what)?, true),
                Err(e) => (format!("{e:?}"), false),
            }
        }
        9 => {
            let r = an.signature_help(pos).unwrap();
            if let Some(h) = &r {
                let mut at = TextSize::new(0);
                for p in h.parameter_ranges() {
                    ensure!(
                        p.start() >= at && h.signature.get(usize::from(p.start())..usize::from(p.end())).is_some(),
                        "signature-range",
                        "{p:?} is not a range of `{}`",
                        h.signature
                    );
                    at = p.end();
                }
            }
            (format!("{r:?}"), r.is_some())
        }
        10 => {
            let mut v = vec![];
            let mut r = fr.range;
            for _ in 0..400 {
                let n = an.extend_selection(FileRange { file_id: f, range: r }).unwrap();
                tx.inside(f, n, what)?;
                ensure!(n.contains_range(r), "selection-shrinks", "{r:?} extends to {n:?}");
                if n == r {
                    break;
                }
                v.push(n);
                r = n;
            }
            let all = TextRange::new(TextSize::new(0), TextSize::new(tx.texts[q.file].len() as u32));
            ensure!(r == all, "selection-stops", "the selection stops at {r:?}, before the whole file {all:?}");
            (format!("{v:?}"), !v.is_empty())
        }
        11 => {
            let r = an.file_structure(f).unwrap();
            for (k, n) in r.iter().enumerate() {
                tx.inside(f, n.node_range, what)?;
                tx.inside(f, n.navigation_range, what)?;
                ensure!(n.node_range.contains_range(n.navigation_range), "structure-name", "{n:?}: the name is outside of its item");
                if let Some(p) = n.parent {
                    ensure!(p < k, "structure-order", "{n:?} comes before its parent");
                    ensure!(r[p].node_range.contains_range(n.node_range), "structure-nesting", "{n:?} is outside of its parent {:?}", r[p]);
                }
            }
            (format!("{r:?}"), !r.is_empty())
        }
        12 | 13 => {
            let r = if q.kind == 12 { an.highlight(f).unwrap() } else { an.highlight_range(fr).unwrap() };
            let mut at = TextSize::new(0);
            for h in &r {
                tx.inside(f, h.range, what)?;
                ensure!(h.range.start() >= at, "highlight-overlap", "highlights overlap or are out of order at {:?}", h.range);
                ensure!(!h.range.is_empty(), "highlight-empty", "empty highlight at {:?}", h.range);
                at = h.range.end();
            }
            (format!("{r:?}"), !r.is_empty())
        }
        14 => {
            let hc = InlayHintsConfig {
                render_colons: flag(1),
                type_hints: true,
                tuple_type_hints: flag(2),
                parameter_hints: true,
                range_exclusive_hints: flag(3),
                hide_closure_parameter_hints: flag(4),
                fields_to_resolve: InlayFieldsToResolve::from_client_capabilities(&Default::default()),
            };
            let r = an.inlay_hints(&hc, f, flag(5).then_some(fr.range)).unwrap();
            let mut v = vec![];
            for h in &r {
                tx.inside(f, h.range, what)?;
                if let Some(Some(e)) = h.text_edit.clone().map(|e| e.computed()) {
                    tx.edit(f, &e, "hint-edit")?;
                }
                for p in &h.label.parts {
                    if let Some(Some(l)) = p.linked_location.clone().map(|l| l.computed()) {
                        tx.inside(l.file_id, l.range, "hint-link")?;
                    }
                }
                v.push(format!("{h:?}"));
            }
            v.sort();
            (v.join("\n"), !v.is_empty())
        }
        15 => {
            let cc = CompletionConfig { allow_snippets: AllowSnippets::new(flag(6)), enable_imports_on_the_fly: flag(7) };
            let trig = if flag(8) && flag(9) { Some(':') } else { None };
            let r = an.completions(&cc, pos, trig).unwrap();
            let mut v = vec![];
            for it in r.iter().flatten() {
                tx.inside(f, it.source_range, what)?;
                ensure!(it.source_range.contains_inclusive(pos.offset), "completion-elsewhere", "{:?}: {:?} does not hold the cursor {:?}", it.label, it.source_range, pos.offset);
                tx.edit(f, &it.text_edit, "completion-edit")?;
                let mut more = vec![];
                if let Some((path, scope)) = &it.import_to_add {
                    for e in an.resolve_completion_edits(&cc, pos, path.clone(), *scope).unwrap() {
                        tx.edit(f, &e, "completion-import")?;
                        more.push(format!("{e:?}"));
                    }
                }
                v.push(format!("{:?} {:?} {:?} {} {:?} {} {:?} {:?} {:?} {more:?}", it.label, it.source_range, it.text_edit, it.is_snippet, it.kind, it.lookup, it.detail, it.relevance, it.import_to_add));
            }
            v.sort();
            (v.join("\n"), !v.is_empty())
        }
        16 => {
            let query = Query::new(&q.word, Some(128));
            let r = an.symbol_search(query).unwrap();
            let mut v = vec![];
            for n in &r {
                tx.nav(n, what)?;
                v.push(format!("{n:?}"));
            }
            if r.len() >= 100 {
                v.clear();
            }
            v.sort();
            (v.join("\n"), !v.is_empty())
        }
        17 => {
            let r = an.assists_with_fixes(&AssistConfig { allowed: None }, &cfg, AssistResolveStrategy::All, fr).unwrap();
            let mut v = vec![];
            for a in &r {
                ensure!(a.target.intersect(fr.range).is_some(), "assist-target", "{:?} is outside of the asked {:?}", a.target, fr.range);
                let ch = match &a.source_change {
                    Some(ch) => tx.change(ch, "fix-edit")?,
                    None => String::new(),
                };
                v.push(format!("{:?} {:?} {:?} {ch}", a.id, a.label, a.target));
            }
            (v.join("\n"), !v.is_empty())
        }
        18 => {
            let r = an.runnables(f).unwrap();
            for x in &r {
                tx.nav(&x.nav_item, what)?;
                ensure!(x.nav_item.file_id == f, "runnable-elsewhere", "{x:?}");
            }
            (format!("{r:?}"), !r.is_empty())
        }
        19 => {
            let ac = AnnotationConfig {
                annotate_runnables: flag(0),
                annotate_fun_specs: flag(1),
                location: if flag(2) { AnnotationLocation::AboveName } else { AnnotationLocation::AboveWholeItem },
            };
            let r = an.annotations(&ac, f).unwrap();
            let mut v = vec![];
            for x in r {
                tx.inside(f, x.range, what)?;
                let x = an.resolve_annotation(x).unwrap();
                if let AnnotationKind::HasSpecs { pos, item_spec_refs } = &x.kind {
                    tx.inside(pos.file_id, TextRange::empty(pos.offset), what)?;
                    for n in item_spec_refs.iter().flatten() {
                        tx.nav(n, what)?;
                    }
                }
                v.push(format!("{x:?}"));
            }
            (v.join("\n"), !v.is_empty())
        }
        20 => match an.organize_imports(f).unwrap() {
            Some(a) => match &a.source_change {
                Some(ch) => (tx.change(ch, "organize-edit")?, true),
                None => fail!("organize-unresolved", "organize imports without its edit"),
            },
            None => (String::new(), false),
        },
        _ => {
            let a = an.expr_type_info(pos).unwrap();
            let b = an.call_expr_type_info(pos).unwrap();
            let tree = an.view_syntax_tree(f).unwrap();
            let html = an.highlight_as_html(f, vec![]).unwrap();
            let ok = a.is_some() || b.is_some();
            (format!("{a:?} {b:?} {tree} {html}"), ok)
        }
    };
    Ok(out)
}

/// a digest of what kinds of questions were asked and answered
#[derive(Default)]
pub struct Asked(pub HashMap<&'static str, u64>);

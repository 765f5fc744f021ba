//! Quick fixes and "organize imports" leave a program that is as valid as before.
use crate::diag;
use crate::mutants::errors_of;
use crate::ws::{self, Gen, Ws};
use common::*;
use ide_db::source_change::SourceChange;
use movegen::{Kind, Opts, Role, World};
use std::collections::BTreeMap;

/// The texts after the change; None if the change is not one a client can apply.
pub fn apply(g: &Gen, texts: &[String], ch: &SourceChange, who: &str) -> Result<Vec<String>, Fail> {
    apply_ws(&g.ws, texts, ch, who)
}
pub fn apply_ws(ws: &Ws, texts: &[String], ch: &SourceChange, who: &str) -> Result<Vec<String>, Fail> {
    let mut t = texts.to_vec();
    ensure!(ch.file_system_edits.is_empty(), "moves-files", "{who} moves files");
    for (f, e) in &ch.source_file_edits {
        let Some(i) = ws.files.iter().position(|x| x == f) else {
            fail!("unknown-file", "{who} edits unknown file {f:?}");
        };
        let mut end = 0usize;
        for x in e.iter() {
            let (a, b): (usize, usize) = (x.range.start().into(), x.range.end().into());
            ensure!(end <= a && b <= t[i].len(), "edit-range", "{who}: edit {a}..{b} after {end}, file of {}", t[i].len());
            ensure!(t[i].is_char_boundary(a) && t[i].is_char_boundary(b), "edit-boundary", "{who}: edit {a}..{b} inside a character");
            end = b;
        }
        e.apply(&mut t[i]);
    }
    Ok(t)
}

fn show(w: &World, t: &[String]) -> String {
    w.files.iter().zip(t).map(|(f, t)| format!("//- {}\n{t}", f.path)).collect()
}

type Tokens = Vec<String>;
/// what the lexer of this harness sees: words, numbers, strings and single punctuation marks, no trivia
pub fn tokens(t: &str) -> Tokens {
    let mut v = vec![];
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            let mut d = 0;
            while i < b.len() {
                if b[i] == '/' && b.get(i + 1) == Some(&'*') {
                    d += 1;
                    i += 2;
                } else if b[i] == '*' && b.get(i + 1) == Some(&'/') {
                    d -= 1;
                    i += 2;
                    if d == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if c.is_alphanumeric() || c == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            v.push(b[s..i].iter().collect());
        } else if c == '"' {
            let s = i;
            i += 1;
            while i < b.len() && b[i] != '"' {
                i += 1;
            }
            i = (i + 1).min(b.len());
            v.push(b[s..i].iter().collect());
        } else {
            v.push(c.to_string());
            i += 1;
        }
    }
    v
}

/// Each fix offered for a valid program, applied: the program is still valid and the remark is gone.
fn quick_fixes(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, never: false, ..Opts::default() });
    c.input(g.show());
    let texts: Vec<String> = g.laid.iter().map(|l| l.text.clone()).collect();
    let mut todo = vec![];
    for (fi, _) in g.w.files.iter().enumerate() {
        let ds = diag::all(&g.an, g.ws.files[fi]);
        if ds.iter().any(|d| d.severity == ide_db::Severity::Error) {
            return Ok(()); // C09
        }
        for d in ds {
            for f in d.fixes.iter().flatten() {
                todo.push((fi, diag::code(&d), d.range.range, f.clone(), d.message.clone()));
            }
        }
    }
    if todo.is_empty() {
        return Ok(());
    }
    for _ in 0..2 {
        let ids: std::collections::BTreeSet<&str> = todo.iter().map(|t| t.3.id.0).collect();
        let ids: Vec<&str> = ids.into_iter().collect();
        let id = ids[s.idx(ids.len())];
        let of_id: Vec<_> = todo.iter().filter(|t| t.3.id.0 == id).collect();
        let (fi, code, range, fix, msg) = of_id[s.idx(of_id.len())].clone();
        let who = format!("fix `{}` of {code} ({msg})", fix.id.0);
        c.label(fix.id.0);
        let Some(ch) = &fix.source_change else {
            fail!("no-change", "{who} has no edits");
        };
        let (ra, rb): (usize, usize) = (range.start().into(), range.end().into());
        if fix.id.0 == "replace-with-method-call" && texts[fi][ra..rb].contains("loop") {
            // a loop without an end as the receiver has no methods
            c.label("diverging receiver");
            continue;
        }
        let after = apply(&g, &texts, ch, &who)?;
        ensure!(after != texts, format!("no-effect-{}", fix.id.0), "{who} changes nothing at {}", g.at(fi, ra));
        for (i, t) in after.iter().enumerate() {
            ensure!(i == fi || *t == texts[i], format!("other-file-{}", fix.id.0), "{who} changes another file");
        }
        let (new_ws, errs) = errors_of(&g.w, &after);
        let first = errs.iter().flatten().next();
        ensure!(
            first.is_none(),
            format!("breaks-{}-{}", fix.id.0, first.map(|e| e.0.clone()).unwrap_or_default()),
            "{who} at {} leaves an error: {first:?}\n--- after\n{}",
            g.at(fi, ra),
            after[fi]
        );
        // the remark is gone: one less of its code
        let count = |an: &ide::Analysis, f| diag::all(an, f).iter().filter(|d| diag::code(d) == code).count();
        let (n0, n1) = (count(&g.an, g.ws.files[fi]), count(&new_ws.host.analysis(), new_ws.files[fi]));
        let chained = matches!(code.as_str(), "replace-with-method-call" | "unused-variable" | "unused-import" | "too-broad-scoped-import");
        ensure!(
            n1 < n0 || chained && n1 <= n0,
            format!("stays-{}", fix.id.0),
            "{who} at {}: {n0} of them before, {n1} after\n--- before\n{}\n--- after\n{}",
            g.at(fi, ra),
            &texts[fi][ra..rb],
            after[fi]
        );
        if let Some(why) = rewritten(fix.id.0, &texts[fi], &after[fi], ra, rb) {
            fail!(format!("rewrites-{}", fix.id.0), "{who} at {}: {why}\n--- before\n{}\n--- after\n{}", g.at(fi, ra), &texts[fi][ra..rb], after[fi]);
        }
        c.nontrivial(true);
    }
    Ok(())
}

/// What a fix does to the words (names and numbers) of its place, worked out here from its name:
/// says what is wrong.
fn rewritten(id: &str, before: &str, after: &str, ra: usize, rb: usize) -> Option<String> {
    let words = |t: &[String]| -> Tokens { t.iter().filter(|x| x.starts_with(|c: char| c.is_alphanumeric() || c == '_')).cloned().collect() };
    let (pre, old, post) = (tokens(&before[..ra]), tokens(&before[ra..rb]), tokens(&before[rb..]));
    let new = tokens(after);
    let old = words(&old);
    let elsewhere = matches!(id, "remove-unused-import" | "add-scope-attribute" | "remove-unused-acquires");
    if elsewhere {
        return None;
    }
    // the rest of the file: the same words
    let (pre, new, post) = (words(&pre), words(&new), words(&post));
    if new.len() < pre.len() + post.len() || new[..pre.len()] != pre[..] || new[new.len() - post.len()..] != post[..] {
        return Some("it changes words outside of its place".into());
    }
    let mid = &new[pre.len()..new.len() - post.len()];
    let ok = match id {
        "replace-with-package" => mid == ["package"],
        "replace-with-friend" => mid == ["friend"],
        "rename-with-underscore-prefix" => old.len() == 1 && (*mid == [format!("_{}", old[0])] || *mid == [old[0].clone(), format!("_{}", old[0])]),
        "use-struct-lit-field-shorthand" | "use-struct-pat-field-shorthand" | "use-schema-lit-field-shorthand" => old.len() == 2 && old[0] == old[1] && mid == &old[..1],
        "remove-redundant-coloncolon" => mid == &old[..],
        "remove-redundant-cast" => mid.is_empty() && old.len() == 2 && old[0] == "as",
        // l = l + r -> l += r
        "replace-with-compound-expr" => {
            let k = old.len().saturating_sub(mid.len());
            k > 0 && 2 * k < old.len() + 1 && old[..k] == old[k..2 * k] && *mid == old[k..]
        }
        // *path::borrow<T>(&v, i) -> v[i]; *v.borrow(i) -> v[i]
        "replace-with-index-expr" => {
            let gone = old.len().saturating_sub(mid.len());
            (0..=old.len() - gone).any(|i| gone > 0 && old[i..i + gone].iter().any(|x| x == "borrow" || i == 0) && old[..i] == mid[..i] && old[i + gone..] == mid[i..])
        }
        // path::name<T>(&mut x, rest) -> x.name<T>(rest)
        "replace-with-method-call" => {
            let mut ok = false;
            'all: for p in 1..=old.len() {
                // old = path (p words, the last one the name), type arguments (t), receiver (a), the rest
                for t in 0..=old.len() - p {
                    for a in 0..=old.len() - p - t {
                        let ty = &old[p..p + t];
                        let rcv = &old[p + t..p + t + a];
                        let rest = &old[p + t + a..];
                        for cut in 0..2 {
                            if cut == 1 && rcv.first().map(|x| x.as_str()) != Some("mut") {
                                continue;
                            }
                            let rcv = &rcv[cut..];
                            if mid.len() == rcv.len() + 1 + ty.len() + rest.len()
                                && mid[..rcv.len()] == *rcv
                                && mid[rcv.len() + 1..rcv.len() + 1 + t] == *ty
                                && mid[rcv.len() + 1 + t..] == *rest
                            {
                                ok = true;
                                break 'all;
                            }
                        }
                    }
                }
            }
            ok
        }
        _ => true,
    };
    (!ok).then(|| format!("the words {old:?} become {mid:?}"))
}

/// All fixes of a program, one after the other, come to an end.
fn fix_all(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 1, modules: 2, never: false, ..Opts::default() });
    c.input(g.show());
    let mut texts: Vec<String> = g.laid.iter().map(|l| l.text.clone()).collect();
    let fi = s.idx(texts.len());
    let mut n = 0;
    let mut ws = ws::load_world(&g.w, &texts.iter().map(|t| t.as_str()).collect::<Vec<_>>());
    let mut last = String::new();
    loop {
        let an = ws.host.analysis();
        let ds = diag::all(&an, ws.files[fi]);
        if let Some(e) = ds.iter().find(|d| d.severity == ide_db::Severity::Error) {
            ensure!(n == 0, format!("all-breaks-{last}-{}", diag::code(e)), "after {n} fixes, the last one {last}: {} {}\n{}", diag::code(e), e.message, texts[fi]);
            return Ok(());
        }
        let fixes: Vec<_> = ds.iter().flat_map(|d| d.fixes.iter().flatten().cloned()).collect();
        if fixes.is_empty() || n > 150 {
            break;
        }
        let f = fixes[s.idx(fixes.len())].clone();
        last = f.id.0.to_string();
        texts = apply_ws(&ws, &texts, f.source_change.as_ref().unwrap(), f.id.0)?;
        ws = ws::load_world(&g.w, &texts.iter().map(|t| t.as_str()).collect::<Vec<_>>());
        n += 1;
    }
    ensure!(n <= 150, "endless", "still fixes after {n}, the last one {last}:\n{}", show(&g.w, &texts));
    c.count("fixes", n);
    c.nontrivial(n >= 5);
    Ok(())
}

/// Organize imports: valid as before, nothing unused is left, nothing used is lost, a second time changes nothing.
fn organize(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, ..Opts::default() });
    c.input(g.show());
    let texts: Vec<String> = g.laid.iter().map(|l| l.text.clone()).collect();
    let fi = s.idx(texts.len());
    let unused = |an: &ide::Analysis, f| diag::all(an, f).iter().filter(|d| diag::code(d) == "unused-import").count();
    let before = unused(&g.an, g.ws.files[fi]);
    let Some(a) = g.an.organize_imports(g.ws.files[fi]).unwrap() else {
        ensure!(before == 0, "nothing-organized", "{before} unused imports, nothing offered in {}", texts[fi]);
        return Ok(());
    };
    let after = apply(&g, &texts, a.source_change.as_ref().unwrap(), "organize imports")?;
    for (i, t) in after.iter().enumerate() {
        ensure!(i == fi || *t == texts[i], "other-file", "organize imports changes another file");
    }
    let (nws, errs) = errors_of(&g.w, &after);
    let e = errs.iter().flatten().next();
    ensure!(e.is_none(), format!("organize-breaks-{}", e.map(|e| e.0.clone()).unwrap_or_default()), "error after organize imports: {e:?}\n--- after\n{}", after[fi]);
    let an = nws.host.analysis();
    let left = unused(&an, nws.files[fi]);
    ensure!(left == 0, "organize-leaves", "{left} of {before} unused imports are left\n--- after\n{}", after[fi]);
    // only imports change: the rest of the tokens is as before
    let strip = |t: &str| {
        let v = tokens(t);
        let mut r = vec![];
        let mut i = 0;
        while i < v.len() {
            // `#[test_only] use ...;` or `use ...;`
            if v[i] == "use" {
                if r.len() >= 4 && r[r.len() - 4..] == ["#", "[", "test_only", "]"] {
                    r.truncate(r.len() - 4);
                }
                while v[i] != ";" {
                    i += 1;
                }
            } else {
                r.push(v[i].clone());
            }
            i += 1;
        }
        r
    };
    let (a, b) = (strip(&texts[fi]), strip(&after[fi]));
    if a != b {
        let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        fail!("organize-touches", "organize imports changes more than imports, near {:?} / {:?}\n--- after\n{}", &a[k.saturating_sub(3)..(k + 5).min(a.len())], &b[k.saturating_sub(3)..(k + 5).min(b.len())], after[fi]);
    }
    if let Some(x) = an.organize_imports(nws.files[fi]).unwrap() {
        if let Some(ch) = &x.source_change {
            let again = apply_ws(&nws, &after, ch, "organize imports again")?;
            ensure!(again == after, "organize-twice", "a second time changes the file again\n--- once\n{}\n--- twice\n{}", after[fi], again[fi]);
        }
    }
    c.count("unused", before as u64);
    c.nontrivial(before > 0 && after != texts);
    Ok(())
}

/// A name whose import is removed: the offered import makes it mean the same item again.
fn auto_import(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, ..Opts::default() });
    c.input(g.show());
    // an import statement of its own that is not an alias
    let mut v = vec![];
    for (i, x) in g.w.syms.iter().enumerate() {
        if x.kind != Kind::Import || x.aliased || x.test_only {
            continue;
        }
        let (f, p) = x.def.unwrap();
        let ps = &g.w.files[f].pieces;
        if ps[p + 1].text != ";" || ps[p].text == "Self" {
            continue;
        }
        // next to another import of that name (for tests, or in another block) the new one can get in its way
        let same = |y: &movegen::Sym| y.kind == Kind::Import && y.name == x.name && y.def.is_some_and(|d| d.0 == f && d.1 != p);
        if g.w.syms.iter().any(same) {
            continue;
        }
        let mut k = p;
        while ps[k].text != "use" {
            k -= 1;
        }
        let uses: Vec<usize> = (0..ps.len()).filter(|q| ps[*q].occ.as_ref().is_some_and(|o| o.via == Some(i))).collect();
        if !uses.is_empty() {
            v.push((i, f, k, p + 1, uses));
        }
    }
    if v.is_empty() {
        return Ok(());
    }
    let (imp, f, from, to, uses) = v[s.idx(v.len())].clone();
    let mut texts: Vec<String> = g.laid.iter().map(|l| l.text.clone()).collect();
    let (a, b) = (g.laid[f].at[from].0, g.laid[f].at[to].1);
    texts[f].replace_range(a..b, " ");
    let ws1 = ws::load_world(&g.w, &texts.iter().map(|t| t.as_str()).collect::<Vec<_>>());
    let an = ws1.host.analysis();
    let u = uses[s.idx(uses.len())];
    let shift = |x: usize| if x > a { x + 1 - (b - a) } else { x };
    let at = shift(g.laid[f].at[u].0);
    let ds = diag::all(&an, ws1.files[f]);
    let name = g.w.sym(imp).name.clone();
    let Some(d) = ds.iter().find(|d| diag::code(d) == "unresolved-reference" && usize::from(d.range.range.start()) == at) else {
        // another meaning (a builtin, an item of the module)
        c.label("still resolved");
        return Ok(());
    };
    let target = g.w.sym(imp).target.unwrap();
    let fixes: Vec<_> = d.fixes.iter().flatten().filter(|x| x.id.0.contains("import")).collect();
    let o = g.w.files[f].pieces[u].occ.as_ref().unwrap();
    c.label(format!("{:?}", g.w.sym(target).kind));
    ensure!(!fixes.is_empty(), format!("no-import-{:?}-{:?}", g.w.sym(target).kind, o.role), "no import is offered for `{name}` at {}\n{:?}\n{}", g.at(f, g.laid[f].at[u].0), d.message, texts[f]);
    let mut ok = false;
    let mut shown = vec![];
    let mut last = String::new();
    for x in fixes {
        let after = apply_ws(&ws1, &texts, x.source_change.as_ref().unwrap(), x.id.0)?;
        let (nws, errs) = errors_of(&g.w, &after);
        let syn = errs.iter().flatten().find(|e| e.0 == "syntax-error");
        ensure!(syn.is_none(), "import-syntax", "{}: {syn:?}\n{}", x.label, after[f]);
        // it resolves, there
        let an = nws.host.analysis();
        let left = errs[f].iter().filter(|e| e.0 == "unresolved-reference").count();
        let n0 = ds.iter().filter(|e| diag::code(e) == "unresolved-reference").count();
        shown.push(x.label.to_string());
        let _ = an;
        last = format!("{:?}\n{}", errs.iter().flatten().next(), after[f]);
        // an import for test code does not serve the uses outside of it
        let for_tests = after[f].matches("#[test_only]").count() > texts[f].matches("#[test_only]").count();
        let only_unresolved = errs.iter().flatten().all(|e| e.0 == "unresolved-reference");
        ok |= errs.iter().all(|e| e.is_empty()) || for_tests && only_unresolved && left < n0;
    }
    ensure!(ok, format!("import-wrong-{:?}", g.w.sym(target).kind), "none of the imports offered for `{name}` ({shown:?}) makes the program valid again: {last}\n{}", texts[f]);
    c.nontrivial(true);
    Ok(())
}

#[allow(unused)]
type X = (BTreeMap<(), ()>, Role);

pub fn checks_fixes() -> Vec<Check> {
    vec![
        Check::new("quick_fixes", "a fix was applied", 1500, 60000, quick_fixes),
        Check::new("fix_all", "five or more fixes", 200, 10000, fix_all),
        Check::new("auto_import", "an import was applied", 2500, 60000, auto_import),
    ]
}
pub fn checks_organize() -> Vec<Check> {
    vec![Check::new("organize", "an unused import was removed", 3000, 60000, organize)]
}

//! C18: completion. While a name is being typed that means something at that place, it is on offer and accepting it
//! writes it; and whatever is on offer means something once it is accepted, together with the import it brings.
use crate::resolve::target;
use crate::ws::{self, Gen};
use base_db::change::FileChanges;
use common::*;
use ide_completion::config::CompletionConfig;
use ide_completion::item::{CompletionItem, CompletionItemKind};
use ide_db::{AllowSnippets, SymbolKind};
use lang::nameres as _;
use movegen::{Kind, Opts, Role};
use std::collections::BTreeSet;
use syntax::TextSize;

struct Box_ {
    g: Gen,
}
impl Box_ {
    fn set(&mut self, f: usize, t: &str) {
        // no snapshot may be alive while the text changes
        let mut ch = FileChanges::new();
        ch.change_file(self.g.ws.files[f], Some(t.to_string()));
        let an = std::mem::replace(&mut self.g.an, ws::load(&[], &[]).host.analysis());
        drop(an);
        self.g.ws.host.apply_change(ch);
        self.g.an = self.g.ws.host.analysis();
    }
}

/// name and full range of what the place leads to
fn goto(g: &Gen, f: usize, off: usize) -> BTreeSet<(u32, u32, u32)> {
    g.an.goto_definition_multi(g.pos(f, off))
        .unwrap()
        .map(|r| {
            r.info
                .into_iter()
                .map(|t| {
                    let x = t.focus_range.unwrap_or(t.full_range);
                    (t.file_id.index(), x.start().into(), x.end().into())
                })
                .collect()
        })
        .unwrap_or_default()
}

fn accept(t: &str, it: &CompletionItem) -> String {
    let mut x = t.to_string();
    it.text_edit.apply(&mut x);
    x
}
fn plain(x: &str) -> String {
    x.replace("$0", "")
}

fn well_formed(it: &CompletionItem, text: &str, a: usize, at: usize, snippets: bool) -> Result<(), Fail> {
    ensure!(it.text_edit.len() == 1, "edits", "`{}` has {} edits", it.label.primary, it.text_edit.len());
    let ch = it.text_edit.iter().next().unwrap();
    let (x, y): (usize, usize) = (ch.range.start().into(), ch.range.end().into());
    ensure!(x <= at && at <= y && y <= text.len(), "edit-place", "`{}` replaces {x}..{y}, cursor at {at}", it.label.primary);
    ensure_eq!((x, y), (a, at), "edit-range", "`{}` replaces `{}`, the word before the cursor is `{}`", it.label.primary, &text[x..y], &text[a..at]);
    if it.is_snippet {
        ensure!(snippets, "snippet", "`{}` is a snippet", it.label.primary);
        ensure_eq!(ch.new_text.matches("$0").count(), 1, "snippet-cursor", "`{}` inserts `{}`", it.label.primary, ch.new_text);
    } else {
        ensure!(!ch.new_text.contains("$0"), "snippet-raw", "`{}` inserts `{}`", it.label.primary, ch.new_text);
    }
    Ok(())
}

fn check(s: &mut Src, c: &mut Case) -> Result<(), Fail> {
    let o = Opts { pkgs: 2, modules: 3, ..Opts::default() };
    let g = ws::generate(s, o);
    let mut b = Box_ { g };
    c.input(b.g.show());
    let mut all: Vec<(usize, usize)> = vec![];
    for (fi, f) in b.g.w.files.iter().enumerate() {
        for (pi, p) in f.pieces.iter().enumerate() {
            if let Some(o) = &p.occ {
                if !o.def {
                    all.push((fi, pi));
                }
            }
        }
    }
    if all.is_empty() {
        return Ok(());
    }
    let mut n = 0;
    let mut log = String::new();
    for _ in 0..10 {
        let (fi, pi) = *s.pick(&all);
        let piece = b.g.w.files[fi].pieces[pi].clone();
        let o = piece.occ.clone().unwrap();
        let sym = b.g.w.sym(o.sym).clone();
        let (a, z) = b.g.laid[fi].at[pi];
        let orig = b.g.laid[fi].text.clone();
        let name = piece.text.clone();
        if name.starts_with('\'') || !name.is_ascii() {
            continue;
        }
        let k = match s.below(4) {
            0 => 0,
            1 => 1.min(name.len()),
            2 => name.len(),
            _ => s.range(0, name.len()),
        };
        let pieces = &b.g.w.files[fi].pieces;
        // a method is being typed: its arguments are not there yet
        let mut rest = z;
        if o.role == Role::Method {
            let (mut p, mut depth) = (pi + 1, 0);
            while p < pieces.len() {
                match pieces[p].text.as_str() {
                    "(" => depth += 1,
                    ")" => depth -= 1,
                    _ => {}
                }
                p += 1;
                if depth == 0 && pieces[p - 1].text == ")" {
                    break;
                }
            }
            rest = b.g.laid[fi].at[p - 1].1;
        }
        // the last segment of the path
        let mut last = pi;
        while last + 2 < pieces.len() && pieces[last + 1].text == "::" && pieces[last + 2].occ.is_some() {
            last += 2;
        }
        let vector_lit = matches!(o.role, Role::Type | Role::Qualifier) && (in_vector_literal(pieces, pi) || literal(pieces, last));
        let last = pieces[last].occ.as_ref().map(|o| o.role).unwrap();
        let text = format!("{}{}{}", &orig[..a], &name[..k], &orig[rest..]);
        let at = a + k;
        let snippets = s.flip();
        let flyimport = s.flip();
        let config = CompletionConfig {
            allow_snippets: if snippets { AllowSnippets::new(true) } else { None },
            enable_imports_on_the_fly: flyimport,
        };
        b.set(fi, &text);
        let ask = |g: &Gen| g.an.completions(&config, g.pos(fi, at), None).unwrap();
        let Some(items) = ask(&b.g) else {
            c.label(format!("none-{:?}-{:?}", o.role, sym.kind));
            b.set(fi, &orig);
            if offered(o.role, last, k) && !vector_lit {
                fail!(format!("nothing-{:?}-{:?}", o.role, sym.kind), "no items for `{}` of `{name}` at {}", &name[..k], b.g.at(fi, a));
            }
            continue;
        };
        let show = |it: &CompletionItem| {
            format!("{} [{:?}] {:?} import {:?}", it.label.primary, it.kind, it.text_edit.iter().map(|c| c.new_text.clone()).collect::<Vec<_>>(), it.import_to_add.as_ref().map(|x| x.0.clone()))
        };
        let place = format!("`{}|` of `{name}` at {}", &name[..k], b.g.at(fi, a));
        log.push_str(&format!("{place}\n"));
        for it in &items {
            if it.is_snippet && !snippets {
                fail!("snippet-unwanted", "{place}: {}", show(it));
            }
            if let Err(mut e) = well_formed(it, &text, a, at, snippets) {
                e.msg = format!("{place}: {}", e.msg);
                return Err(e);
            }
            if !flyimport {
                ensure!(it.import_to_add.is_none(), "import-unwanted", "{place}: {}", show(it));
            }
        }
        n += 1;
        // complete: the name is on offer
        if offered(o.role, last, k) && !vector_lit {
            c.label(format!("{:?}-{:?}", o.role, sym.kind));
            let good = |it: &CompletionItem| {
                if it.lookup() != name || it.import_to_add.is_some() {
                    return false;
                }
                let got = plain(&accept(&text, it));
                let mut fine = vec![format!("{}{}", &orig[..z], &orig[rest..])];
                for x in ["()", "<>", " "] {
                    fine.push(format!("{}{}{}", &orig[..z], x, &orig[rest..]));
                }
                fine.contains(&got)
            };
            if !items.iter().any(good) {
                let near: Vec<String> = items.iter().filter(|i| i.lookup().contains(&name) || i.label.primary.contains(&name)).map(show).collect();
                let via = o.via.is_some_and(|i| b.g.w.sym(i).aliased);
                let has = if near.is_empty() { "missing" } else { "other" };
                b.set(fi, &orig);
                fail!(
                    format!("{has}-{:?}-{:?}{}", o.role, sym.kind, if via { "-alias" } else { "" }),
                    "{place}: the name is not on offer; near: {near:?}; {} items: {:?}", items.len(), items.iter().map(|i| i.lookup().to_string()).collect::<Vec<_>>()
                );
            }
        }
        // sound: what is on offer means something
        let refs: Vec<&CompletionItem> = items
            .iter()
            .filter(|i| i.lookup().starts_with(&name[..k]) && k > 0)
            // not an import of a name that is taken
            .filter(|i| i.import_to_add.is_none() || !items.iter().any(|j| j.import_to_add.is_none() && j.lookup() == i.lookup()))
            .filter(|i| matches!(i.kind, CompletionItemKind::SymbolKind(k) if sound(o.role, k)))
            .collect();
        let mut todo: Vec<CompletionItem> = vec![];
        for _ in 0..3 {
            if !refs.is_empty() {
                todo.push((*s.pick(&refs)).clone());
            }
        }
        if let Some(i) = refs.iter().find(|i| i.import_to_add.is_some()) {
            todo.push((*i).clone());
        }
        for it in todo {
            let word = it.text_edit.iter().next().unwrap().new_text.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect::<String>();
            if word.is_empty() {
                continue;
            }
            let mut edit = it.text_edit.clone();
            let mut moved = TextSize::new(a as u32);
            if let Some((path, scope)) = &it.import_to_add {
                b.set(fi, &text);
                let extra = b.g.an.resolve_completion_edits(&config, b.g.pos(fi, at), path.clone(), *scope).unwrap();
                for e in extra {
                    moved = e.apply_to_offset(TextSize::new(a as u32)).unwrap_or(moved);
                    ensure!(edit.union(e).is_ok(), "import-overlap", "{place}: {} and its import overlap", show(&it));
                }
            }
            let mut t2 = text.clone();
            edit.apply(&mut t2);
            let t2 = plain(&t2);
            let off = usize::from(moved);
            let mut t2 = t2;
            if matches!(o.role, Role::Method | Role::FieldAccess) && it.kind == CompletionItemKind::SymbolKind(SymbolKind::Function) && t2[off..].starts_with(&word) && !t2[off + word.len()..].starts_with('(') {
                t2.insert_str(off + word.len(), "()");
            }
            b.set(fi, &t2);
            ensure!(t2[off..].starts_with(&word), "import-place", "{place}: {} after the import the name is not at {off}\n{t2}", show(&it));
            let mut tgt = goto(&b.g, fi, off);
            let mut t2 = t2;
            if tgt.is_empty() && matches!(it.kind, CompletionItemKind::SymbolKind(SymbolKind::Module | SymbolKind::Enum)) {
                // the beginning of a longer path
                t2.insert_str(off + word.len(), "::x");
                b.set(fi, &t2);
                tgt = goto(&b.g, fi, off);
            }
            let builtin = lang::builtins_file::BUILTINS_FILE.contains(&format!(" {word}"));
            if it.import_to_add.is_some() {
                c.label("import");
            }
            c.count("accepted", 1);
            if tgt.is_empty() && !builtin {
                let kind = match it.kind {
                    CompletionItemKind::SymbolKind(k) => format!("{k:?}"),
                    _ => String::new(),
                };
                fail!(
                    format!("dead-{:?}-{kind}{}", o.role, if it.import_to_add.is_some() { "-import" } else { "" }),
                    "{place}: accepting {} gives a name that leads nowhere\n{t2}", show(&it)
                );
            }
            if let Some((path, _)) = &it.import_to_add {
                // the name leads to the item of that path
                let want: Vec<_> = (0..b.g.w.syms.len())
                    .filter(|i| b.g.w.syms[*i].def.is_some() && path.ends_with(&format!("::{}", b.g.w.syms[*i].name)))
                    .map(|i| b.g.w.files[b.g.w.syms[i].def.unwrap().0].path.clone())
                    .collect();
                if !want.is_empty() {
                    let got: Vec<String> = tgt.iter().filter_map(|t| b.g.ws.files.iter().position(|f| f.index() == t.0).map(|i| b.g.w.files[i].path.clone())).collect();
                    let taken = pieces_with(&b.g.w.files[fi].pieces, &word, pi);
                    let ok = if taken { got.iter().any(|p| want.contains(p)) } else { got.iter().all(|p| want.contains(p)) && tgt.len() == 1 };
                    ensure!(ok, "import-target", "{place}: {} leads to {got:?}, not one of {want:?}\n{t2}", show(&it));
                }
            }
        }
        b.set(fi, &orig);
    }
    let _ = target;
    c.count("places", n);
    c.nontrivial(n >= 5);
    Ok(())
}

/// items that are not filtered by more than their name are left out: types among values, modules among types and so on
fn sound(role: Role, kind: SymbolKind) -> bool {
    use SymbolKind::*;
    match role {
        Role::Value => matches!(kind, Function | Const | Local | GlobalVariableDecl),
        // a call looks at functions as well, and may see a test-only one of the variable's name
        Role::Call => matches!(kind, Function | Const),
        Role::FieldAccess | Role::Method => matches!(kind, Field | Method | Function),
        Role::Type => matches!(kind, Struct | Enum | TypeParam),
        _ => false,
    }
}

/// the uses for which a name has to be on offer
fn offered(role: Role, last: Role, k: usize) -> bool {
    if k == 0 {
        return false;
    }
    match role {
        Role::Value | Role::Call | Role::Type | Role::FieldAccess | Role::Method | Role::UseSpeck | Role::Schema | Role::SpecTarget => true,
        Role::Qualifier => matches!(last, Role::Value | Role::Call | Role::Type | Role::UseSpeck),
        _ => false,
    }
}
/// the word is written elsewhere in the file
fn pieces_with(p: &[movegen::Piece], word: &str, but: usize) -> bool {
    p.iter().enumerate().any(|(i, x)| i != but && x.text == word)
}
/// nothing is offered for the paths of struct literals
fn literal(p: &[movegen::Piece], last: usize) -> bool {
    let mut k = last + 1;
    let mut depth = 0;
    while k < p.len() {
        match p[k].text.as_str() {
            "<" => depth += 1,
            ">" => depth -= 1,
            "{" if depth == 0 => return true,
            "::" if depth == 0 => {}
            _ if depth == 0 => return false,
            _ => {}
        }
        k += 1;
    }
    false
}
/// nothing is offered for the types of `vector<T>[..]`
fn in_vector_literal(p: &[movegen::Piece], mut i: usize) -> bool {
    loop {
        let mut depth = 0;
        let open = (0..i).rev().find(|k| {
            match p[*k].text.as_str() {
                ">" => depth += 1,
                "<" => depth -= 1,
                ";" | "{" | "}" => depth = -2,
                _ => {}
            }
            depth < 0
        });
        let Some(open) = open else { return false };
        if p[open].text != "<" || open == 0 {
            return false;
        }
        if p[open - 1].text == "vector" {
            let mut depth = 0;
            let close = (open..p.len()).find(|k| {
                match p[*k].text.as_str() {
                    ">" => depth -= 1,
                    "<" => depth += 1,
                    _ => {}
                }
                depth == 0
            });
            if close.is_some_and(|c| p.get(c + 1).is_some_and(|x| x.text == "[")) {
                return true;
            }
        }
        i = open;
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("completion", "at least 5 names being typed in a generated program", 2500, 60000, check)]
}

use crate::resolve::target;
use crate::ws::{self, Gen};
use common::*;
use movegen::{Kind, Opts, Role, SymId};
use std::collections::{BTreeMap, BTreeSet};

pub type Place = (usize, usize); // file, piece

/// every place where the name of `sym` itself (not an alias) is written, without the declaration
pub fn references(g: &Gen, sym: SymId) -> BTreeSet<Place> {
    let mut v = BTreeSet::new();
    let name = &g.w.sym(sym).name;
    for (fi, f) in g.w.files.iter().enumerate() {
        for (pi, p) in f.pieces.iter().enumerate() {
            let Some(o) = &p.occ else { continue };
            if p.text != *name {
                continue;
            }
            if o.sym == sym && !(o.def && g.w.sym(sym).def == Some((fi, pi))) || o.also == Some(sym) {
                v.insert((fi, pi));
            }
        }
    }
    v
}

/// A place from which `sym` can be asked about: its declaration or a reference that means only it.
fn query_places(g: &Gen, sym: SymId, refs: &BTreeSet<Place>) -> Vec<Place> {
    let mut v: Vec<Place> = g.w.sym(sym).def.into_iter().collect();
    for (f, p) in refs {
        let o = g.w.files[*f].pieces[*p].occ.as_ref().unwrap();
        if matches!(o.role, Role::LitShorthand | Role::PatShorthand) {
            continue;
        }
        v.push((*f, *p));
    }
    v
}

pub fn nameable_syms(g: &Gen) -> Vec<SymId> {
    (0..g.w.syms.len())
        .filter(|i| {
            let s = g.w.sym(*i);
            s.def.is_some() && !s.builtin && !matches!(s.kind, Kind::Import | Kind::Label)
        })
        .collect()
}

fn find_refs(s: &mut Src, c: &mut Case) -> PropResult {
    let o = Opts { pkgs: 2, modules: 3, ..Opts::default() };
    let g = ws::generate(s, o);
    c.input(g.show());
    let mut n = 0;
    for sym in nameable_syms(&g) {
        let want = references(&g, sym);
        let places = query_places(&g, sym, &want);
        let (qf, qp) = places[s.idx(places.len())];
        let (a, b) = g.laid[qf].at[qp];
        let off = if b - a > 1 && s.flip() { a + 1 } else { a };
        let r = g.an.find_all_refs(g.pos(qf, off), None).unwrap();
        let kind = g.w.sym(sym).kind;
        let lib = g.w.pkgs[g.w.sym(sym).pkg].lib;
        let Some(r) = r else {
            fail!(format!("refs-none-{kind:?}"), "no search result for {kind:?} `{}` at {}", g.w.sym(sym).name, g.at(qf, a));
        };
        let want: BTreeSet<(String, u32, u32)> = want
            .iter()
            .map(|(f, p)| {
                let x = g.piece_range(*f, *p);
                (g.w.files[*f].path.clone(), x.start().into(), x.end().into())
            })
            .collect();
        let mut got = BTreeSet::new();
        for (f, rs) in &r.references {
            for x in rs {
                let name = g.file_index(*f).map(|i| g.w.files[i].path.clone()).unwrap_or("?".into());
                ensure!(got.insert((name, x.start().into(), x.end().into())), "refs-dup", "reported twice: {x:?}");
            }
        }
        n += want.len() as u64;
        c.label(format!("{kind:?}"));
        let missing: Vec<_> = want.difference(&got).collect();
        let extra: Vec<_> = got.difference(&want).collect();
        let shown = |v: &Vec<&(String, u32, u32)>| {
            v.iter()
                .map(|(f, a, _)| match g.w.files.iter().position(|x| x.path == *f) {
                    Some(i) => g.at(i, *a as usize),
                    None => f.clone(),
                })
                .collect::<Vec<_>>()
                .join("\n     ")
        };
        ensure!(
            missing.is_empty() && extra.is_empty(),
            format!("refs-{kind:?}-{}{}", if missing.is_empty() { "" } else { "missing" }, if extra.is_empty() { "" } else { "extra" }),
            "references of {kind:?} {} (lib {lib}) asked at {}:\n missing {}\n extra {}",
            g.w.path_of(sym),
            g.at(qf, a),
            shown(&missing),
            shown(&extra)
        );
        // the part in this file
        let hl = g.an.highlight_related(g.pos(qf, off)).unwrap().unwrap_or_default();
        let hl: BTreeSet<(u32, u32)> = hl.into_iter().map(|x| (x.start().into(), x.end().into())).collect();
        let mut hw: BTreeSet<(u32, u32)> =
            want.iter().filter(|x| x.0 == g.w.files[qf].path).map(|x| (x.1, x.2)).collect();
        let t = target(&g, sym);
        if t.0 == g.w.files[qf].path {
            hw.insert((t.1, t.2));
        }
        ensure!(hl == hw, format!("highlight-{kind:?}"), "highlighted around {}: {hl:?}, expected {hw:?}", g.at(qf, a));
        // the declaration
        let t = target(&g, sym);
        let d = r.declaration.map(|d| {
            let x = d.focus_range.unwrap_or(d.full_range);
            (g.file_index(d.file_id).map(|i| g.w.files[i].path.clone()).unwrap_or_default(), u32::from(x.start()), u32::from(x.end()))
        });
        ensure!(d == Some(t.clone()), format!("refs-decl-{kind:?}"), "declaration of {}: {:?}, expected {:?}", g.w.path_of(sym), d, t);
    }
    c.count("references", n);
    c.nontrivial(n >= 10);
    Ok(())
}

// ------------------------------------------------------------------------------------------ rename
/// The new texts after renaming `sym`, from the generator's knowledge.
fn renamed(g: &Gen, sym: SymId, new: &str) -> Vec<String> {
    let refs = references(g, sym);
    let old = g.w.sym(sym).name.clone();
    let is_field = g.w.sym(sym).kind == Kind::Field;
    let mut out = vec![];
    for (fi, l) in g.laid.iter().enumerate() {
        let pieces = &g.w.files[fi].pieces;
        // (start, end, replacement)
        let mut ed: Vec<(usize, usize, String)> = vec![];
        for (pi, p) in pieces.iter().enumerate() {
            let here = (fi, pi);
            let is_def = g.w.sym(sym).def == Some(here);
            if !is_def && !refs.contains(&here) {
                continue;
            }
            let (a, b) = l.at[pi];
            let o = p.occ.as_ref().unwrap();
            match o.role {
                Role::LitShorthand | Role::PatShorthand if is_field => ed.push((a, b, format!("{new}: {old}"))),
                Role::LitShorthand | Role::PatShorthand => ed.push((a, b, format!("{old}: {new}"))),
                Role::LitField | Role::PatField if is_field => {
                    // `f: v` becomes `v` when the field takes the name of what it is set to
                    let next = &pieces[pi + 2];
                    let single = match &pieces.get(pi + 3) {
                        Some(n) => matches!(n.text.as_str(), "," | "}"),
                        None => false,
                    };
                    if next.text == new && single {
                        ed.push((a, l.at[pi + 2].1, new.to_string()));
                    } else {
                        ed.push((a, b, new.to_string()));
                    }
                }
                _ => ed.push((a, b, new.to_string())),
            }
        }
        let mut t = l.text.clone();
        for (a, b, r) in ed.into_iter().rev() {
            t.replace_range(a..b, &r);
        }
        out.push(t);
    }
    out
}

fn rename(s: &mut Src, c: &mut Case) -> PropResult {
    let o = Opts { pkgs: 2, modules: 2, stmts: 4, ..Opts::default() };
    let g = ws::generate(s, o);
    c.input(g.show());
    let syms = nameable_syms(&g);
    let mut n = 0;
    for _ in 0..6 {
        let sym = syms[s.idx(syms.len())];
        let x = g.w.sym(sym);
        if x.name == "_" || x.kind == Kind::Label && s.flip() {
            continue;
        }
        let positional = x.kind == Kind::Field && x.name.starts_with(|c: char| c.is_ascii_digit());
        if positional {
            continue;
        }
        let refs = references(&g, sym);
        let places = query_places(&g, sym, &refs);
        let (qf, qp) = places[s.idx(places.len())];
        let (a, b) = g.laid[qf].at[qp];
        let off = if b - a > 1 && s.flip() { a + 1 } else { a };
        let new = match x.kind {
            Kind::Label => "'fresh".to_string(),
            Kind::Field if s.flip() => {
                // the name of something it is set to
                let mut near: Vec<&str> = vec![];
                for (f, p) in &refs {
                    let ps = &g.w.files[*f].pieces;
                    if matches!(ps[*p].occ.as_ref().unwrap().role, Role::LitField | Role::PatField) {
                        for q in ps.iter().skip(p + 2).take(4) {
                            if q.occ.as_ref().is_some_and(|o| g.w.sym(o.sym).kind == Kind::Local) && q.text != "_" {
                                near.push(&q.text);
                            }
                        }
                    }
                }
                let cand: Vec<&str> = if near.is_empty() || s.chance(1, 4) { movegen::items::LOCALS.to_vec() } else { near };
                let sib: Vec<String> = g.w.sym(x.parent.unwrap()).fields.iter().map(|f| g.w.sym(*f).name.clone()).collect();
                let n = cand[s.idx(cand.len())];
                if sib.iter().any(|x| x == n) { "fresh_name".to_string() } else { n.to_string() }
            }
            _ => (*s.pick(&["fresh_name", "Fresh2", "_fresh", "f9_"])).to_string(),
        };
        c.label(format!("{:?}", x.kind));
        let what = format!("rename of {:?} {} to {new} asked at {}", x.kind, g.w.path_of(sym), g.at(qf, a));
        let lib = g.w.pkgs[x.pkg].lib;
        let p = g.an.prepare_rename(g.pos(qf, off)).unwrap();
        let r = g.an.rename(g.pos(qf, off), &new).unwrap();
        let aliased = g.w.files[qf].pieces[qp].text != x.name;
        let refused = lib || aliased;
        let Ok(change) = r else {
            ensure!(refused, format!("rename-refused-{:?}", x.kind), "{what}: refused: {:?}", r.err());
            continue;
        };
        ensure!(!refused, format!("rename-not-refused-{:?}", x.kind), "{what}: not refused");
        ensure!(p.is_ok(), "prepare-rename", "{what}: prepare_rename refuses what rename does");
        ensure!(change.file_system_edits.is_empty(), "rename-fs", "{what}: touches the file system");
        n += 1;
        let want = renamed(&g, sym, &new);
        let mut got: Vec<String> = g.laid.iter().map(|l| l.text.clone()).collect();
        for (f, e) in &change.source_file_edits {
            let i = g.file_index(*f);
            ensure!(i.is_some(), "rename-file", "{what}: edits an unknown file");
            e.apply(&mut got[i.unwrap()]);
        }
        for i in 0..got.len() {
            if got[i] != want[i] {
                let short = refs.iter().chain(x.def.iter()).any(|(f, p)| {
                    matches!(g.w.files[*f].pieces[*p].occ.as_ref().unwrap().role, Role::LitShorthand | Role::PatShorthand)
                });
                let (w, g2): (Vec<&str>, Vec<&str>) = (want[i].lines().collect(), got[i].lines().collect());
                let k = w.iter().zip(&g2).position(|(a, b)| a != b).unwrap_or(0);
                fail!(
                    format!("rename-text-{:?}-{}-{:?}", x.kind, if short { "short" } else { "plain" }, x.role),
                    "{what}: {}:{}\n expected {}\n      got {}",
                    g.w.files[i].path,
                    k + 1,
                    w.get(k).unwrap_or(&""),
                    g2.get(k).unwrap_or(&"")
                );
            }
        }
    }
    c.count("renames", n);
    c.nontrivial(n >= 2);
    Ok(())
}

/// Names that are not identifiers are refused.
fn bad_names(s: &mut Src, c: &mut Case) -> PropResult {
    let o = Opts { pkgs: 1, modules: 1, stmts: 2, depth: 1, ..Opts::default() };
    let g = ws::generate(s, o);
    let syms = nameable_syms(&g);
    let sym = syms[s.idx(syms.len())];
    let refs = references(&g, sym);
    let places = query_places(&g, sym, &refs);
    let (qf, qp) = places[s.idx(places.len())];
    let bad = *s.pick(&[
        "", " ", "1a", "a b", "a-b", "fun", "module", "let", "if", "struct", "+", "::", "a::b", "//", "'", "\"", "x y", "a\n", "0x1", "true", "use",
        "const", "spec", "while", "loop", "return", "ünï", "😀", "a,", "acquires", "public", "native", "mut", "as", "move", "break",
    ]);
    c.input(format!("{} -> {bad:?}\n{}", g.w.path_of(sym), g.show()));
    c.nontrivial(true);
    let r = g.an.rename(g.pos(qf, g.laid[qf].at[qp].0), bad).unwrap();
    ensure!(r.is_err(), "rename-bad-name", "rename of {} to {bad:?} is accepted", g.w.path_of(sym));
    Ok(())
}

pub fn checks_refs() -> Vec<Check> {
    vec![Check::new("find_refs", "at least 10 references in the program", 30000, 150000, find_refs)]
}
pub fn checks_rename() -> Vec<Check> {
    vec![
        Check::new("rename", "at least 2 renames carried out and compared", 50000, 150000, rename),
        Check::new("bad_names", "every case", 3000, 30000, bad_names),
    ]
}

#[allow(dead_code)]
pub type Index = BTreeMap<SymId, BTreeSet<Place>>;

use crate::ws::{self, Gen};
use common::*;
use movegen::{Kind, Opts, Role, SymId};
use std::collections::BTreeSet;

/// (file, start, end) of the name of the declaration; builtins by their name
pub fn target(g: &Gen, sym: SymId) -> (String, u32, u32) {
    let s = g.w.sym(sym);
    if s.builtin {
        let t = lang::builtins_file::BUILTINS_FILE;
        let pat = if s.kind == Kind::Const { format!("const {}:", s.name) } else { format!("native fun {}<", s.name) };
        let skip = if s.kind == Kind::Const { 6 } else { 11 };
        let a = t.find(&pat).unwrap() + skip;
        return ("builtins".into(), a as u32, (a + s.name.len()) as u32);
    }
    let (f, p) = s.def.unwrap_or_else(|| panic!("no definition of {} recorded", s.name));
    let r = g.piece_range(f, p);
    (g.w.files[f].path.clone(), r.start().into(), r.end().into())
}

pub fn goto(g: &Gen, file: usize, off: usize) -> BTreeSet<(String, u32, u32)> {
    let r = g.an.goto_definition_multi(g.pos(file, off)).unwrap();
    r.map(|r| {
        r.info
            .into_iter()
            .map(|t| {
                let f = g.file_index(t.file_id).map(|i| g.w.files[i].path.clone()).unwrap_or("builtins".into());
                let x = t.focus_range.unwrap_or(t.full_range);
                (f, x.start().into(), x.end().into())
            })
            .collect()
    })
    .unwrap_or_default()
}

fn goto_check(s: &mut Src, c: &mut Case) -> PropResult {
    let o = Opts { pkgs: 2, modules: 3, ..Opts::default() };
    let g = ws::generate(s, o);
    c.input(g.show());
    let mut n = 0;
    for (fi, f) in g.w.files.iter().enumerate() {
        for (pi, p) in f.pieces.iter().enumerate() {
            let Some(o) = &p.occ else { continue };
            let (a, b) = g.laid[fi].at[pi];
            let off = if p.text.len() > 1 && s.flip() { b - 1 } else { a };
            let mut want = BTreeSet::new();
            match o.role {
                Role::PatShorthand => {
                    want.insert(target(&g, o.also.unwrap()));
                }
                _ => {
                    want.insert(target(&g, o.sym));
                    if let Some(x) = o.also {
                        want.insert(target(&g, x));
                    }
                }
            }
            if o.def && g.w.sym(o.sym).kind == Kind::Label {
                continue;
            }
            // the built-in module has no file a user could be taken to
            if g.w.sym(o.sym).builtin {
                want.clear();
            }
            let got = goto(&g, fi, off);
            n += 1;
            c.label(format!("{:?}-{:?}", o.role, g.w.sym(o.sym).kind));
            if got != want {
                let role = format!("{:?}-{:?}{}", o.role, g.w.sym(o.sym).kind, if o.via.is_some_and(|i| g.w.sym(i).aliased) { "-alias" } else { "" });
                return Err(Fail::new(
                    format!("goto-{role}"),
                    format!("`{}` at {}\n   goes to {:?}\n expected {:?} ({})", p.text, g.at(fi, a), got, want, g.w.path_of(o.sym)),
                ));
            }
        }
    }
    c.count("references", n);
    c.nontrivial(n >= 10);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check::new("goto", "at least 10 names of a generated multi-package program resolved", 12000, 150000, goto_check)]
}

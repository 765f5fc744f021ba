//! Unused variables and imports are reported, used ones are not.
use crate::diag;
use crate::ws::{self, Gen};
use common::*;
use ide_db::Severity;
use movegen::{Kind, LocalRole, Opts, Role, SymId};
use std::collections::BTreeMap;

type At = (usize, usize);

fn uses_of(g: &Gen, sym: SymId) -> usize {
    let mut n = 0;
    for f in &g.w.files {
        for p in &f.pieces {
            if let Some(o) = &p.occ {
                if !o.def && (o.sym == sym || o.also == Some(sym)) || o.def && o.also == Some(sym) && o.sym != sym {
                    n += 1;
                }
            }
        }
    }
    n
}

fn variables(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, ..Opts::default() });
    c.input(g.show());
    let (mut n, mut m) = (0, 0);
    for (fi, _) in g.w.files.iter().enumerate() {
        let mut got: BTreeMap<At, String> = BTreeMap::new();
        for d in diag::all(&g.an, g.ws.files[fi]) {
            if diag::code(&d) == "unused-variable" {
                ensure!(d.severity == Severity::Warning, "severity", "unused variable as {:?}", d.severity);
                let r = (d.range.range.start().into(), d.range.range.end().into());
                ensure!(got.insert(r, d.message.clone()).is_none(), "twice", "reported twice at {}", g.at(fi, r.0));
            }
        }
        for (i, x) in g.w.syms.iter().enumerate() {
            let Some((df, dp)) = x.def else { continue };
            if df != fi || !matches!(x.kind, Kind::Local | Kind::Param) {
                continue;
            }
            let at = g.laid[fi].at[dp];
            let used = uses_of(&g, i) > 0;
            let fun = x.parent.map(|p| g.w.sym(p));
            let exempt = x.name.starts_with('_')
                || x.kind == Kind::Param
                    && (x.name == "self" || fun.is_some_and(|f| f.native || f.is_test));
            let want = if used || exempt {
                None
            } else {
                let kind = if x.kind == Kind::Param || x.role == LocalRole::Lambda { "parameter" } else { "variable" };
                let kind = match kind_of(x.kind, x.role) {
                    Some(k) => k,
                    None => kind,
                };
                Some(format!("Unused {kind} '{}'", x.name))
            };
            n += 1;
            m += want.is_some() as u64;
            let h = got.remove(&at);
            ensure!(
                h == want,
                format!("var-{:?}-{:?}-{used}", x.kind, x.role),
                "{:?} {} is used {} times: reported {h:?}, expected {want:?}\n at {}",
                x.kind,
                x.name,
                uses_of(&g, i),
                g.at(fi, at.0)
            );
        }
        if let Some((r, d)) = got.iter().next() {
            fail!("var-extra", "{d} at {}", g.at(fi, r.0));
        }
    }
    c.count("variables", n);
    c.count("unused", m);
    c.nontrivial(m > 0 && n > m);
    Ok(())
}
fn kind_of(_k: Kind, _r: LocalRole) -> Option<&'static str> {
    None
}

/// An import through which a name is resolved is used. One whose name is not written anywhere else is not.
fn imports(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, ..Opts::default() });
    c.input(g.show());
    let (mut n, mut m) = (0, 0);
    for (fi, f) in g.w.files.iter().enumerate() {
        let ds: Vec<(String, usize, usize)> = diag::all(&g.an, g.ws.files[fi])
            .iter()
            .filter(|d| matches!(diag::code(d).as_str(), "unused-import" | "too-broad-scoped-import"))
            .map(|d| (diag::code(d), d.range.range.start().into(), d.range.range.end().into()))
            .collect();
        let mut covered = vec![false; ds.len()];
        for (i, x) in g.w.syms.iter().enumerate() {
            if x.kind != Kind::Import || x.def.is_none_or(|d| d.0 != fi) {
                continue;
            }
            let dp = x.def.unwrap().1;
            // imports of a script itself are not looked at
            if !block_import(&g, fi, dp) && !g.w.syms.iter().any(|x| x.kind == Kind::Module && x.extent.is_some_and(|(f, a, b)| f == fi && a <= dp && dp < b)) {
                continue;
            }
            let at = g.laid[fi].at[dp];
            let vias: Vec<usize> =
                (0..f.pieces.len()).filter(|p| f.pieces[*p].occ.as_ref().is_some_and(|o| o.via == Some(i))).collect();
            let written = (0..f.pieces.len()).any(|p| {
                let q = &f.pieces[p];
                q.text == x.name && p != dp && q.occ.as_ref().is_none_or(|o| o.role != Role::UseSpeck)
            });
            let mut hit = |code: &str| {
                let mut any = None;
                for (k, d) in ds.iter().enumerate() {
                    if d.0 == code && d.1 <= at.0 && at.1 <= d.2 {
                        any = Some((d.1, d.2));
                        covered[k] = true;
                    }
                }
                any
            };
            let (un, broad) = (hit("unused-import"), hit("too-broad-scoped-import"));
            n += 1;
            let what = g.w.sym(x.target.unwrap()).kind;
            if !vias.is_empty() {
                ensure!(un.is_none(), format!("import-used-{what:?}"), "import {} of {what:?} is used at {} but reported as unused", x.name, g.at(fi, g.laid[fi].at[vias[0]].0));
            } else if !written {
                m += 1;
                ensure!(un.is_some(), format!("import-unused-{what:?}"), "import {} of {what:?} is not used, not reported\n at {}", x.name, g.at(fi, at.0));
            }
            // a broader scope than needed: only when nothing outside tests uses it
            let main_use = vias.iter().any(|p| !in_test(&g, fi, *p));
            if main_use || x.test_only || un.is_some() {
                ensure!(broad.is_none(), "import-broad", "import {} is used outside tests ({main_use}) or is test-only ({}), but reported as too broad\n at {}", x.name, x.test_only, g.at(fi, at.0));
            } else if !vias.is_empty() && vias.len() == (0..f.pieces.len()).filter(|p| *p != dp && f.pieces[*p].text == x.name).count() && !block_import(&g, fi, dp) {
                c.label("test only");
                ensure!(broad.is_some(), "import-not-broad", "import {} is used in tests only, not reported\n at {}", x.name, g.at(fi, at.0));
            }
        }
        if let Some(k) = covered.iter().position(|x| !x) {
            let d = &ds[k];
            fail!("import-extra", "{} on `{}`", d.0, &g.laid[fi].text[d.1..d.2]);
        }
    }
    c.count("imports", n);
    c.count("unused", m);
    c.nontrivial(n >= 2 && m > 0);
    Ok(())
}

/// inside an item that only exists in tests
fn in_test(g: &Gen, fi: usize, p: usize) -> bool {
    g.w.syms.iter().any(|x| (x.test_only || x.is_test) && x.extent.is_some_and(|(f, a, b)| f == fi && a <= p && p < b))
}
/// the import is inside a function
fn block_import(g: &Gen, fi: usize, p: usize) -> bool {
    g.w.syms.iter().any(|x| x.kind == Kind::Fun && x.extent.is_some_and(|(f, a, b)| f == fi && a <= p && p < b))
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("variables", "some variables are used and some are not", 2500, 60000, variables),
        Check::new("imports", "at least two imports, one unused", 2500, 60000, imports),
    ]
}

//! C17: what the editor paints, selects and offers to run.
use crate::total::{mutate, soup};
use crate::types::addr_text;
use crate::ws::{self, Gen};
use common::*;
use ide::{Analysis, HlRange};
use ide::runnables::RunnableKind;
use movegen::{Kind, Opts, Role};
use syntax::files::FileRange;
use syntax::{TextRange, TextSize};
use vfs::FileId;

fn opts() -> Opts {
    Opts { pkgs: 2, modules: 3, stmts: 4, depth: 3, ..Opts::default() }
}

fn tag_of(k: Kind) -> &'static str {
    match k {
        Kind::Module => "module",
        Kind::Fun | Kind::SpecFun => "function",
        Kind::Struct | Kind::Schema => "struct",
        Kind::Enum => "enum",
        Kind::Variant => "enum_variant",
        Kind::Field | Kind::SchemaField => "field",
        Kind::Const => "constant",
        Kind::TypeParam => "type_param",
        Kind::GlobalVar => "global",
        Kind::Label => "label",
        Kind::Param | Kind::Local | Kind::SpecLocal | Kind::Import => "variable",
    }
}

const KEYWORDS: &[&str] = &[
    "fun", "let", "if", "else", "while", "loop", "return", "abort", "break", "continue", "const", "use", "module",
    "script", "as", "mut", "true", "false", "public", "native", "acquires", "struct",
];

/// the ranges follow one another and fill the text
fn tiled(hl: &[HlRange], a: usize, b: usize, text: &str) -> Result<(), Fail> {
    let mut at = a;
    for h in hl {
        let (x, y): (usize, usize) = (h.range.start().into(), h.range.end().into());
        ensure!(x == at && y > x && y <= b, "paint-tiles", "painted {x}..{y} after {at} in {a}..{b}");
        ensure!(text.is_char_boundary(x) && text.is_char_boundary(y), "paint-bounds", "painted {x}..{y} inside of a letter");
        at = y;
    }
    ensure!(at == b || hl.is_empty() && a == b, "paint-tiles", "nothing painted from {at} to {b}");
    Ok(())
}

fn escape(t: &str) -> String {
    t.replace('<', "&lt;").replace('>', "&gt;")
}

/// painting a part is the part of the painting; the html shows the text
fn parts(an: &Analysis, file: FileId, text: &str, s: &mut Src, c: &mut Case) -> Result<Vec<HlRange>, Fail> {
    let all = an.highlight(file).unwrap();
    tiled(&all, 0, text.len(), text)?;
    let mut of: Vec<&str> = vec![];
    let names: Vec<String> = all.iter().map(|h| h.highlight.to_string()).collect();
    for (h, n) in all.iter().zip(&names) {
        of.resize(h.range.end().into(), n.as_str());
    }
    let n = text.len() as u64;
    for _ in 0..4 {
        let (mut a, mut b) = (s.below(n + 1) as usize, s.below(n + 1) as usize);
        if s.flip() {
            b = (a + s.below(40) as usize).min(n as usize);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        while !text.is_char_boundary(a) {
            a -= 1;
        }
        while !text.is_char_boundary(b) {
            b += 1;
        }
        let r = TextRange::new(TextSize::from(a as u32), TextSize::from(b as u32));
        let part = an.highlight_range(FileRange { file_id: file, range: r }).unwrap();
        if let (Some(f), Some(l)) = (part.first(), part.last()) {
            let (x, y) = (usize::from(f.range.start()), usize::from(l.range.end()));
            tiled(&part, x, y, text)?;
            ensure!(x <= a && b <= y, "paint-part-covers", "asked for {a}..{b}, painted {x}..{y}");
        } else {
            ensure!(a == b, "paint-part-covers", "nothing painted in {a}..{b}");
        }
        for h in &part {
            for i in usize::from(h.range.start()).max(a)..usize::from(h.range.end()).min(b) {
                ensure!(
                    of[i] == h.highlight.to_string(),
                    "paint-part",
                    "byte {i} of `{}` ({a}..{b}) is {} in the part and {} in the whole file",
                    &text[usize::from(h.range.start())..usize::from(h.range.end())],
                    h.highlight,
                    of[i]
                );
            }
        }
        c.count("parts", 1);
    }
    let html = an.highlight_as_html_no_style(file).unwrap();
    let want: String = all
        .iter()
        .zip(&names)
        .map(|(h, n)| {
            let t = escape(&text[usize::from(h.range.start())..usize::from(h.range.end())]);
            if h.highlight.is_empty() { t } else { format!("<{n}>{t}</{n}>") }
        })
        .collect();
    ensure_eq!(html, want, "paint-html", "the html");
    Ok(all)
}

fn paint(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, opts());
    c.input(g.show());
    let mut n = 0;
    for (f, st) in g.w.files.iter().enumerate() {
        let text = &g.laid[f].text;
        let all = parts(&g.an, g.ws.files[f], text, s, c)?;
        let find = |a: usize, b: usize| -> Option<String> {
            let i = all.partition_point(|h| usize::from(h.range.end()) <= a);
            let h = all.get(i)?;
            let r = (usize::from(h.range.start()), usize::from(h.range.end()));
            (r == (a, b)).then(|| h.highlight.to_string())
        };
        for (p, x) in st.pieces.iter().enumerate() {
            let (a, b) = g.laid[f].at[p];
            let want = match &x.occ {
                Some(o) => {
                    n += 1;
                    let k = g.w.sym(o.sym).kind;
                    if k == Kind::Label {
                        continue; // labels have no colour
                    }
                    match o.role {
                        Role::PatShorthand => "field",
                        // two meanings at once, no colour of one of them
                        Role::LitShorthand => continue,
                        Role::Def if o.also.is_some() => continue,
                        // a name alone in a pattern is a reference which looks like a declaration
                        Role::PatPath if find(a, b).as_deref() == Some("none") || find(a, b).is_none() => {
                            let sure = st.pieces[p - 1].text == "::"
                                || matches!(st.pieces[p + 1].text.as_str(), "::" | "{" | "(" | "<");
                            ensure!(!sure, "paint-Pattern", "`{}` at {} is not painted", x.text, g.at(f, a));
                            continue;
                        }
                        _ => tag_of(k),
                    }
                }
                None if KEYWORDS.contains(&x.text.as_str()) => match x.text.as_str() {
                    "true" | "false" => "bool_literal",
                    _ => "keyword",
                },
                None if x.text.starts_with(|c: char| c.is_ascii_digit()) => "numeric_literal",
                None if x.text.starts_with("b\"") || x.text.starts_with("x\"") => "string_literal",
                None if x.text.starts_with("//") => "comment",
                None => continue,
            };
            let got = find(a, b);
            if let Some(o) = &x.occ {
                c.label(format!("{:?}-{want}", o.role));
            }
            if got.as_deref() != Some(want) {
                let role = x.occ.as_ref().map(|o| format!("{:?}-{:?}", o.role, g.w.sym(o.sym).kind)).unwrap_or("token".into());
                return Err(Fail::new(
                    format!("paint-{role}-{}", got.as_deref().unwrap_or("other range")),
                    format!("`{}` at {} is {got:?}, expected {want}", x.text, g.at(f, a)),
                ));
            }
        }
    }
    c.nontrivial(n >= 30);
    Ok(())
}

/// any text
fn texts(s: &mut Src, g: &Gen) -> (Vec<String>, bool) {
    let mut t: Vec<String> = g.laid.iter().map(|l| l.text.clone()).collect();
    let other = t[s.idx(t.len())].clone();
    let broken = s.chance(2, 3);
    for x in &mut t {
        if broken {
            for _ in 0..s.range(1, 4) {
                mutate(x, &other, s);
            }
        }
        if s.chance(1, 20) {
            *x = soup(s, 30);
        }
        if s.chance(1, 60) {
            x.clear();
        }
        if x.contains("include") {
            *x = x.replace("&&", "||");
        }
    }
    (t, broken)
}

fn paint_any(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 1, modules: 2, stmts: 3, depth: 2, ..Opts::default() });
    let (t, _) = texts(s, &g);
    c.input(t.join("\n//----\n"));
    let w = ws::load_world(&g.w, &t.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let an = w.host.analysis();
    let mut n = 0;
    for (f, x) in t.iter().enumerate() {
        let all = parts(&an, w.files[f], x, s, c)?;
        n += all.len();
    }
    c.nontrivial(n >= 20);
    Ok(())
}

fn select(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 1, modules: 2, stmts: 3, depth: 3, ..Opts::default() });
    let (t, broken) = texts(s, &g);
    c.input(t.join("\n//----\n"));
    let w = ws::load_world(&g.w, &t.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    let an = w.host.analysis();
    let mut steps = 0;
    let chain = |f: usize, a: usize, b: usize| -> Result<Vec<(usize, usize)>, Fail> {
        let x = &t[f];
        let (mut a, mut b) = (a, b);
        let mut v = vec![];
        loop {
            let r = TextRange::new(TextSize::from(a as u32), TextSize::from(b as u32));
            let y = an.extend_selection(FileRange { file_id: w.files[f], range: r }).unwrap();
            let (p, q): (usize, usize) = (y.start().into(), y.end().into());
            ensure!(p <= a && b <= q && q <= x.len(), "select-shrinks", "{a}..{b} is extended to {p}..{q}");
            ensure!(x.is_char_boundary(p) && x.is_char_boundary(q), "select-bounds", "{a}..{b} is extended to {p}..{q}, inside of a letter");
            if (p, q) == (a, b) {
                break;
            }
            v.push((p, q));
            (a, b) = (p, q);
        }
        ensure!(v.last().copied().unwrap_or((a, b)) == (0, x.len()), "select-stops", "the selection stops at {a}..{b} `{}` of {}", &x[a..b], x.len());
        Ok(v)
    };
    for _ in 0..10 {
        let f = s.idx(t.len());
        let x = &t[f];
        let mut a = s.below(x.len() as u64 + 1) as usize;
        let mut b = if s.flip() { a } else { (a + s.below(30) as usize).min(x.len()) };
        while !x.is_char_boundary(a) {
            a -= 1;
        }
        while !x.is_char_boundary(b) {
            b += 1;
        }
        let v = chain(f, a, b)?;
        steps += v.len();
    }
    if !broken && t.iter().zip(&g.laid).all(|(a, b)| *a == b.text) {
        // on the way from a word to the whole file are the expressions and declarations around it
        for sp in &g.w.spans {
            if !s.chance(1, 4) {
                continue;
            }
            let (a, b) = (g.laid[sp.file].at[sp.from].0, g.laid[sp.file].at[sp.to - 1].1);
            let first = g.laid[sp.file].at[sp.from];
            let mut v = chain(sp.file, first.0, first.1)?;
            v.push(first);
            ensure!(v.contains(&(a, b)), format!("select-expr-{}", sp.what), "no selection from {} is `{}`: {v:?}", g.at(sp.file, a), &t[sp.file][a..b]);
            c.label(sp.what);
        }
        for y in &g.w.syms {
            let (Some((f, _, to)), Some((_, p))) = (y.extent, y.def) else { continue };
            let (a, b) = g.laid[f].at[p];
            let end = g.laid[f].at[to - 1].1;
            let v = chain(f, a, b)?;
            ensure!(v.iter().any(|r| r.1 == end && r.0 < a), format!("select-item-{:?}", y.kind), "no selection from {} ends with the declaration ({end}): {v:?}", g.at(f, a));
        }
    }
    c.count("steps", steps as u64);
    c.nontrivial(steps >= 30);
    Ok(())
}

fn runs(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 4, stmts: 2, depth: 1, tests: true, ..Opts::default() });
    c.input(g.show());
    let mut n = 0;
    for f in 0..g.w.files.len() {
        let mut want: Vec<(usize, usize, String)> = vec![];
        for x in &g.w.syms {
            let Some((df, p)) = x.def else { continue };
            if df != f {
                continue;
            }
            let (a, b) = g.laid[f].at[p];
            match x.kind {
                Kind::Fun => {
                    let Some(m) = x.module.filter(|m| g.w.sym(*m).def.is_some()) else { continue };
                    let mn = &g.w.sym(m).name;
                    if x.is_test {
                        want.push((a, b, format!("test {mn}::{}", x.name)));
                    } else if x.entry {
                        want.push((a, b, format!("txn {}::{mn}::{}", addr_text(&g, m), x.name)));
                    }
                }
                Kind::Module => {
                    let me = g.w.syms.iter().position(|y| std::ptr::eq(y, x));
                    if g.w.syms.iter().any(|y| y.kind == Kind::Fun && y.is_test && y.module == me) {
                        want.push((a, b, format!("test {}::", x.name)));
                    }
                }
                _ => (),
            }
        }
        want.sort();
        let got = g.an.runnables(g.ws.files[f]).unwrap();
        let mut have = vec![];
        let mut last = 0;
        for r in &got {
            let at: usize = r.nav_item.full_range.start().into();
            ensure!(at >= last, "run-order", "`{}` is out of order", r.label());
            last = at;
            let x = r.nav_item.focus_range.unwrap_or(r.nav_item.full_range);
            have.push((usize::from(x.start()), usize::from(x.end()), r.label()));
            let title = r.title();
            match &r.kind {
                RunnableKind::Test { test_path } => {
                    ensure!(title.ends_with(if test_path.ends_with("::") { "Run Tests" } else { "Run Test" }), "run-title", "{title} for {}", r.label())
                }
                RunnableKind::Transaction { .. } => ensure!(title.ends_with("Debug Transaction"), "run-title", "{title}"),
                _ => (),
            }
        }
        have.retain(|x| !x.2.starts_with("prove"));
        have.sort();
        n += want.len();
        for x in &want {
            c.label(x.2.split(' ').next().unwrap());
        }
        if have != want {
            let miss: Vec<_> = want.iter().filter(|x| !have.contains(x)).collect();
            let extra: Vec<_> = have.iter().filter(|x| !want.contains(x)).collect();
            let w = miss.first().or(extra.first()).map(|x| x.2.split(' ').next().unwrap().to_string()).unwrap_or("same".into());
            return Err(Fail::new(format!("run-{w}"), format!("{}: missing {miss:?}, not expected {extra:?}", g.w.files[f].path)));
        }
    }
    c.nontrivial(n >= 2);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("painted-as-meant", "at least 30 names", 3000, 40000, paint),
        Check::new("painted-parts", "at least 20 painted ranges", 3000, 40000, paint_any),
        Check::new("selection-grows", "at least 30 extensions", 3000, 40000, select),
        Check::new("runnables", "at least two tests or entry functions", 3000, 40000, runs),
    ]
}

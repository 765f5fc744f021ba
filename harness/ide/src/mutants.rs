//! Programs with one planted mistake: the mistake is reported, and where it was made.
use crate::diag;
use crate::ws::{self, Gen, Ws};
use common::*;
use movegen::{Kind, Opts, Role, Site, SiteKind, SymId, Ty, Vis, World};

pub struct Edit {
    pub file: usize,
    pub from: usize,
    pub to: usize,
    pub text: String,
}

pub type Errs = Vec<Vec<(String, String, usize, usize)>>;
/// (code, message, start, end) of the errors of each file
pub fn errors_of(w: &World, texts: &[String]) -> (Ws, Errs) {
    let refs: Vec<&str> = texts.iter().map(|t| t.as_str()).collect();
    let ws = ws::load_world(w, &refs);
    let an = ws.host.analysis();
    let v = ws
        .files
        .iter()
        .map(|f| {
            diag::errors(&an, *f)
                .into_iter()
                .map(|d| (diag::code(&d), d.message.clone(), d.range.range.start().into(), d.range.range.end().into()))
                .collect()
        })
        .collect();
    (ws, v)
}
fn errors_after(g: &Gen, e: &Edit) -> (Vec<String>, Errs) {
    let mut texts: Vec<String> = g.laid.iter().map(|l| l.text.clone()).collect();
    texts[e.file].replace_range(e.from..e.to, &e.text);
    let (_, v) = errors_of(&g.w, &texts);
    (texts, v)
}

fn line(t: &str, off: usize) -> String {
    let a = t[..off].rfind('\n').map(|x| x + 1).unwrap_or(0);
    let b = t[off..].find('\n').map(|x| x + off).unwrap_or(t.len());
    t[a..b].to_string()
}

fn opts() -> Opts {
    Opts { pkgs: 2, modules: 2, stmts: 4, never: false, ..Opts::default() }
}

/// An expression that has none of the types `ty` could be taken for.
fn wrong(s: &mut Src, ty: &Ty) -> Option<&'static str> {
    Some(match ty {
        Ty::Int(_) => *s.pick(&["true", "@0x1", "b\"ab\"", "vector[1u8]", "(1, 2)"]),
        Ty::Bool => *s.pick(&["1u8", "@0x1", "7", "b\"ab\"", "(true, false)"]),
        Ty::Address => *s.pick(&["true", "1", "2u64", "vector[@0x1]"]),
        Ty::Vec(_) => *s.pick(&["true", "1u64", "@0x1", "5"]),
        Ty::Adt(..) | Ty::Param(_) => *s.pick(&["true", "1u64", "@0x1", "5", "b\"\""]),
        Ty::Ref(..) => *s.pick(&["true", "1u64", "@0x1"]),
        Ty::Tuple(_) => *s.pick(&["true", "@0x1"]),
        _ => return None,
    })
}

/// An expression of another type where the context requires one type.
fn wrong_type(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, opts());
    let sites: Vec<&Site> =
        g.w.sites.iter().filter(|x| matches!(&x.kind, SiteKind::Typed(..) | SiteKind::Operand(_)) && x.to > x.from).collect();
    if sites.is_empty() || g.w.poisoned {
        c.input("no site");
        return Ok(());
    }
    let x = sites[s.idx(sites.len())];
    let (new, why) = match &x.kind {
        SiteKind::Typed(t, why) => {
            // a literal of another integer type, where no inference is involved
            if let (Ty::Int(k), "argument" | "field" | "return" | "tail", true) = (t, *why, s.flip()) {
                (Some(if *k == 1 { "1u64" } else { "1u8" }), *why)
            } else {
                (wrong(s, t), *why)
            }
        }
        _ => (Some(*s.pick(&["true", "@0x1", "b\"x\""])), "operand"),
    };
    let Some(new) = new else {
        c.input("no value");
        return Ok(());
    };
    let r = g.span_range(x.file, x.from, x.to);
    let (a, b): (usize, usize) = (r.start().into(), r.end().into());
    let word = |k: Option<char>| k.is_some_and(|k| k.is_alphanumeric() || k == '_');
    let old = &g.laid[x.file].text;
    let pre = if word(old[..a].chars().last()) { " " } else { "" };
    let post = if word(old[b..].chars().next()) { " " } else { "" };
    let e = Edit { file: x.file, from: a, to: b, text: format!("{pre}{new}{post}") };
    let (texts, errs) = errors_after(&g, &e);
    c.input(format!("{new} for `{}` ({why}) at {}\n{}", &g.laid[x.file].text[a..b], line(&texts[x.file], a), texts[x.file]));
    c.label(why);
    c.nontrivial(true);
    let (na, nb) = (a + pre.len(), a + pre.len() + new.len());
    let hit = errs[x.file].iter().any(|d| d.0 == "type-error" && d.2 <= nb && d.3 >= na);
    ensure!(
        hit,
        format!("not-reported-{why}-{}", kind_of(&x.kind)),
        "`{new}` as {why} where {:?} is required is not reported: {}\n errors: {:?}",
        x.kind,
        line(&texts[x.file], a),
        errs[x.file]
    );
    // nothing outside the function is affected
    let module_only = errs.iter().enumerate().all(|(i, v)| i == x.file || v.is_empty());
    ensure!(module_only, format!("reported-elsewhere-{why}"), "`{new}` at {}: errors in other files {errs:?}", line(&texts[x.file], a));
    Ok(())
}
/// `let x: T = e` with another T.
fn annotation(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, opts());
    let mut v = vec![];
    for x in &g.w.sites {
        let SiteKind::Typed(t, "let") = &x.kind else { continue };
        let ps = &g.w.files[x.file].pieces;
        if x.from >= 3 && ps[x.from - 1].text == "=" && ps[x.from - 3].text == ":" && matches!(t, Ty::Int(_) | Ty::Bool | Ty::Address) {
            v.push((x, t));
        }
    }
    if v.is_empty() || g.w.poisoned {
        c.input("no annotation");
        return Ok(());
    }
    let (x, t) = v[s.idx(v.len())];
    let ps = &g.w.files[x.file].pieces;
    // an exact type: one variable, or a call (method or function) and nothing else
    let var = x.to == x.from + 1 && ps[x.from].occ.as_ref().is_some_and(|o| matches!(g.w.sym(o.sym).kind, Kind::Local | Kind::Param));
    let new = match t {
        Ty::Int(k) if var => *s.pick(&[if *k == 1 { "u64" } else { "u8" }, "bool", "address", "vector<u8>"]),
        Ty::Int(_) => *s.pick(&["bool", "address"]),
        Ty::Bool => *s.pick(&["u8", "address", "vector<bool>"]),
        _ => *s.pick(&["bool", "u64"]),
    };
    let (a, b) = g.laid[x.file].at[x.from - 2];
    let e = Edit { file: x.file, from: a, to: b, text: new.to_string() };
    let init = &g.laid[x.file].text[g.laid[x.file].at[x.from].0..g.laid[x.file].at[x.to - 1].1];
    let (texts, errs) = errors_after(&g, &e);
    c.input(format!("{new} for the type in {}\n{}", line(&texts[x.file], a), texts[x.file]));
    // (its value may be a block that never ends)
    c.nontrivial(true);
    c.label(if var { "variable" } else { "expression" });
    if ["abort", "loop", "return", "break", "continue"].iter().any(|w| init.contains(w)) {
        return Ok(());
    }
    let shift = |p: usize| p + new.len() - (b - a);
    let (na, nb) = (shift(g.laid[x.file].at[x.from].0), shift(g.laid[x.file].at[x.to - 1].1));
    ensure!(
        errs[x.file].iter().any(|d| d.0 == "type-error" && d.2 < nb && d.3 > na),
        format!("annotation-{}", what_of(&g, x)),
        "`{init}` as {new} is not reported: {}\n errors: {:?}",
        line(&texts[x.file], a),
        errs[x.file]
    );
    Ok(())
}
fn what_of(g: &Gen, x: &Site) -> &'static str {
    g.w.spans.iter().find(|y| y.file == x.file && y.from == x.from && y.to == x.to).map_or("?", |y| y.what)
}
fn kind_of(k: &SiteKind) -> String {
    match k {
        SiteKind::Typed(t, _) => match t {
            Ty::Int(_) => "int".into(),
            Ty::Adt(..) => "adt".into(),
            Ty::Ref(..) => "ref".into(),
            Ty::Vec(_) => "vec".into(),
            Ty::Tuple(_) => "tuple".into(),
            t => format!("{t:?}").split('(').next().unwrap().to_string(),
        },
        SiteKind::Operand(o) => o.to_string(),
        _ => String::new(),
    }
}

/// One argument too few or too many.
fn arity(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, opts());
    let sites: Vec<&Site> = g.w.sites.iter().filter(|x| matches!(&x.kind, SiteKind::Args { .. })).collect();
    if sites.is_empty() {
        c.input("no call");
        return Ok(());
    }
    let x = sites[s.idx(sites.len())];
    let SiteKind::Args { callee, args, method, .. } = &x.kind else { unreachable!() };
    let at = |p: usize| g.laid[x.file].at[p];
    let want_n = g.w.sym(*callee).params.len() - *method as usize;
    ensure!(want_n == args.len(), "harness", "generator wrote {} arguments for {want_n} parameters", args.len());
    let close = at(x.to - 1).0;
    let (e, got_n, expect) = if args.is_empty() || s.flip() {
        // one more at the end
        let extra = *s.pick(&["1", "true", "@0x1", "1u8 + 2", "(1)"]);
        let (text, skip) = match args.last() {
            Some(l) => {
                let end = at(l.1 - 1).1;
                // a trailing comma may follow
                let comma = x.to - 1 > l.1;
                if comma { (format!(" {extra}"), (close, close, 1)) } else { (format!(", {extra}"), (end, end, 2)) }
            }
            None => (extra.to_string(), (close, close, 0)),
        };
        let st = skip.0 + skip.2;
        (Edit { file: x.file, from: skip.0, to: skip.1, text }, args.len() + 1, (st, st + extra.len()))
    } else {
        let k = s.idx(args.len());
        let (from, to) = if args.len() == 1 {
            (at(x.from).1, close)
        } else if k + 1 < args.len() {
            (at(args[k].0).0, at(args[k + 1].0).0)
        } else {
            (at(args[k - 1].1 - 1).1, at(args[k].1 - 1).1)
        };
        let p = close - (to - from);
        (Edit { file: x.file, from, to, text: String::new() }, args.len() - 1, (p, p + 1))
    };
    let (texts, errs) = errors_after(&g, &e);
    let t = &texts[x.file];
    c.input(format!("{got_n} arguments for {want_n}: {}\n{t}", line(t, e.from)));
    c.nontrivial(true);
    c.label(if got_n > want_n { "too many" } else { "too few" });
    let msg = format!("This function takes {want_n} parameters, but {got_n} parameters were supplied");
    let found: Vec<_> = errs[x.file].iter().filter(|d| d.0 == "arguments-number-mismatch").collect();
    ensure!(
        found.len() == 1 && found[0].1 == msg && (found[0].2, found[0].3) == expect,
        format!("arity-{}", if got_n > want_n { "more" } else { "less" }),
        "{got_n} arguments for {want_n} ({}): {found:?}, expected {msg} at {expect:?}\n in {}",
        g.w.path_of(*callee),
        line(t, e.from)
    );
    Ok(())
}

/// A literal without one of its fields, or with one that does not exist.
fn lit_fields(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, opts());
    let sites: Vec<&Site> =
        g.w.sites.iter().filter(|x| matches!(&x.kind, SiteKind::Lit { fields, .. } if !fields.is_empty())).collect();
    if sites.is_empty() {
        c.input("no literal");
        return Ok(());
    }
    let x = sites[s.idx(sites.len())];
    let SiteKind::Lit { fields, .. } = &x.kind else { unreachable!() };
    let at = |p: usize| g.laid[x.file].at[p];
    let k = s.idx(fields.len());
    let name = g.w.sym(fields[k].0).name.clone();
    c.nontrivial(true);
    if s.flip() {
        let (from, to) = if fields.len() == 1 {
            (at(x.from).1, at(x.to - 1).0)
        } else if k + 1 < fields.len() {
            (at(fields[k].1).0, at(fields[k + 1].1).0)
        } else {
            (at(fields[k - 1].2 - 1).1, at(fields[k].2 - 1).1)
        };
        let e = Edit { file: x.file, from, to, text: " ".into() };
        let (texts, errs) = errors_after(&g, &e);
        c.input(format!("field {name} is missing: {}\n{}", line(&texts[x.file], from), texts[x.file]));
        let m: Vec<_> = errs[x.file].iter().filter(|d| d.0 == "missing-lit-fields").collect();
        ensure!(
            m.len() == 1 && m[0].1.starts_with("Missing field for `") && m[0].1.ends_with(&format!(" initializer: `{name}`")) && m[0].3 <= at(x.from).0,
            "missing-field",
            "literal without {name}: {m:?}\n in {}",
            line(&texts[x.file], from)
        );
    } else {
        let (a, b) = at(fields[k].1);
        let short = fields[k].2 == fields[k].1 + 1;
        let e = Edit { file: x.file, from: a, to: b, text: "zz_no".into() };
        let (texts, errs) = errors_after(&g, &e);
        c.input(format!("field zz_no for {name}: {}\n{}", line(&texts[x.file], a), texts[x.file]));
        let u = errs[x.file].iter().any(|d| d.0 == "unresolved-reference" && (d.2, d.3) == (a, a + 5));
        let m = errs[x.file].iter().any(|d| d.0 == "missing-lit-fields" && d.1.ends_with(&format!("`{name}`")));
        ensure!(u && m, format!("unknown-field{}", if short { "-short" } else { "" }), "unknown field zz_no for {name}: {:?}\n in {}", errs[x.file], line(&texts[x.file], a));
    }
    Ok(())
}

/// A name that means nothing is reported, exactly where it is written.
fn unresolved(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, opts());
    let mut places = vec![];
    for (fi, f) in g.w.files.iter().enumerate() {
        for (pi, p) in f.pieces.iter().enumerate() {
            if let Some(o) = &p.occ {
                let k = g.w.sym(o.sym).kind;
                let shape = o.role == Role::PatPath && f.pieces.get(pi.wrapping_sub(1)).is_none_or(|q| q.text != "::");
                if !o.def && !shape && k != Kind::Label && !matches!(o.role, Role::Def | Role::PatShorthand | Role::Label) {
                    places.push((fi, pi));
                }
            }
        }
    }
    if places.is_empty() {
        c.input("no name");
        return Ok(());
    }
    let (fi, pi) = places[s.idx(places.len())];
    let o = g.w.files[fi].pieces[pi].occ.clone().unwrap();
    let (a, b) = g.laid[fi].at[pi];
    let e = Edit { file: fi, from: a, to: b, text: "zzq".into() };
    let (texts, errs) = errors_after(&g, &e);
    c.input(format!("zzq for {} ({:?}): {}\n{}", g.w.files[fi].pieces[pi].text, o.role, line(&texts[fi], a), texts[fi]));
    c.label(format!("{:?}", o.role));
    c.nontrivial(true);
    let hit = errs[fi].iter().any(|d| {
        d.0 == "unresolved-reference" && (d.2, d.3) == (a, a + 3) && d.1 == "Unresolved reference `zzq`: cannot resolve"
    });
    ensure!(
        hit,
        format!("unresolved-{:?}-{:?}", o.role, g.w.sym(o.sym).kind),
        "zzq for {} ({:?}) is not reported: {}\n errors: {:?}",
        g.w.files[fi].pieces[pi].text,
        o.role,
        line(&texts[fi], a),
        errs[fi]
    );
    Ok(())
}

/// A function that loses its `public`: every use in another module is an error, no use in its own module is.
fn private(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, ..opts() });
    let cand: Vec<SymId> = (0..g.w.syms.len())
        .filter(|i| {
            let x = g.w.sym(*i);
            x.kind == Kind::Fun && x.vis != Vis::Private && x.def.is_some() && !x.builtin
        })
        .collect();
    if cand.is_empty() {
        c.input("no public function");
        return Ok(());
    }
    // prefer one that is used from elsewhere
    let f = {
        let far: Vec<SymId> = cand.iter().copied().filter(|f| uses(&g, *f).iter().any(|u| !u.2)).collect();
        if far.is_empty() { cand[s.idx(cand.len())] } else { far[s.idx(far.len())] }
    };
    let (df, dp) = g.w.sym(f).def.unwrap();
    let ps = &g.w.files[df].pieces;
    // [public [(..)]] | friend  before  entry/native/inline fun
    let mut k = dp;
    while matches!(ps[k - 1].text.as_str(), "fun" | "native" | "entry" | "inline" | "public" | "(" | ")" | "package" | "friend" | "~(" | "~)") {
        k -= 1;
        if matches!(ps[k].text.as_str(), "public") || matches!(ps[k].text.as_str(), "friend" | "package") && ps[k - 1].text != "(" {
            break;
        }
    }
    let mut end = k + 1;
    if ps[end].text == "(" {
        end += 3;
    }
    let from = g.laid[df].at[k].0;
    let to = g.laid[df].at[end].0;
    let head = g.laid[df].text[from..to].to_string();
    ensure!(head.starts_with("public") || head.starts_with("friend") || head.starts_with("package"), "harness", "visibility of {} not found: {head:?}", g.w.path_of(f));
    let e = Edit { file: df, from, to, text: String::new() };
    let (texts, errs) = errors_after(&g, &e);
    c.input(format!("{} made private\n{}", g.w.path_of(f), texts.join("\n//-\n")));
    let mut n = 0;
    let mut broken = vec![];
    for (uf, up, same) in uses(&g, f) {
        let (a, b) = g.laid[uf].at[up];
        let shift = |x: usize| if uf == df && x > from { x - (to - from) } else { x };
        let (a, b) = (shift(a), shift(b));
        let hit = errs[uf].iter().find(|d| d.0 == "unresolved-reference" && (d.2, d.3) == (a, b));
        let o = g.w.files[uf].pieces[up].occ.as_ref().unwrap();
        n += 1;
        // what follows an unresolved call may have an unknown type, whose methods are unknown too
        // (and a name that is imported may find something else once its import is in error)
        if !same && (o.role == Role::Method || o.via.is_some()) && broken.contains(&uf) && hit.is_none() {
            continue;
        }
        if !same {
            broken.push(uf);
        }
        c.label(if same { "own module" } else { "other module" });
        ensure!(
            hit.is_some() == !same,
            format!("private-{same}-{:?}{}", o.role, if o.via.is_some() { "-import" } else { "" }),
            "{} made private (`{head}` removed): use in {} {:?} {}: {hit:?}\n errors {:?}",
            g.w.path_of(f),
            if same { "its own module" } else { "another module" },
            o.role,
            line(&texts[uf], a),
            errs[uf]
        );
    }
    c.nontrivial(n > 0);
    Ok(())
}
/// (file, piece, same module)
fn uses(g: &Gen, f: SymId) -> Vec<(usize, usize, bool)> {
    let mut v = vec![];
    let home = g.w.sym(f).module;
    for (fi, l) in g.w.files.iter().enumerate() {
        for (pi, p) in l.pieces.iter().enumerate() {
            if let Some(o) = &p.occ {
                if o.sym == f && !o.def {
                    v.push((fi, pi, module_at(g, fi, pi) == home));
                }
            }
        }
    }
    v
}
/// the module whose declaration most recently began
fn module_at(g: &Gen, fi: usize, pi: usize) -> Option<SymId> {
    let ps = &g.w.files[fi].pieces;
    let mut m = None;
    for p in &ps[..pi] {
        if let Some(o) = &p.occ {
            if o.def && g.w.sym(o.sym).kind == Kind::Module {
                m = Some(o.sym);
            }
        }
        if p.text == "script" {
            m = None;
        }
    }
    m
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("wrong_type", "an expression was replaced", 3500, 100000, wrong_type),
        Check::new("annotation", "an annotated let was changed", 2500, 80000, annotation),
        Check::new("arity", "a call was changed", 1800, 60000, arity),
        Check::new("lit_fields", "a literal was changed", 1800, 60000, lit_fields),
        Check::new("unresolved", "a name was changed", 2500, 80000, unresolved),
        Check::new("private", "the function is used somewhere", 1800, 60000, private),
    ]
}

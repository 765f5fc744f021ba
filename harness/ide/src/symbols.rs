//! C20: symbol search and the outline of a file. C19: signature help.
use crate::types::show_ty;
use crate::ws::{self, Gen};
use common::*;
use ide_db::SymbolKind;
use ide_db::symbol_index::Query;
use movegen::{Kind, Opts, Role, SiteKind, SymId, Ty};
use std::collections::{BTreeMap, BTreeSet};

fn opts() -> Opts {
    Opts { pkgs: 2, modules: 4, stmts: 3, depth: 2, ..Opts::default() }
}

/// the letters of the query in this order, a lower-case letter stands for both cases
fn matches(query: &str, name: &str) -> bool {
    let mut n = name.chars();
    if name.starts_with("__") && !query.starts_with("__") {
        return false;
    }
    query.chars().all(|q| n.by_ref().any(|c| c == q || c == q.to_ascii_uppercase()))
}

fn query(s: &mut Src, names: &[String]) -> String {
    if s.chance(1, 12) {
        return String::new();
    }
    let mut q = String::new();
    let n = s.pick(names).clone();
    match s.below(6) {
        0 => q = n,
        1 => q = n.to_lowercase(),
        2 => q = n.to_uppercase(),
        3 => {
            for _ in 0..s.range(1, 4) {
                q.push(*s.pick(&['a', 'e', 'o', 'r', 'b', 'x', 'S', 'T', '_', 'm', '1', 'é', 'É', '-']));
            }
        }
        _ => {
            for c in n.chars() {
                if s.chance(2, 3) {
                    q.push(if s.chance(1, 6) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() });
                }
            }
        }
    }
    if s.chance(1, 10) {
        q = format!("__{q}");
    }
    q
}

fn symbol_kind(k: Kind) -> Option<SymbolKind> {
    Some(match k {
        Kind::Module => SymbolKind::Module,
        Kind::Fun => SymbolKind::Function,
        Kind::Struct => SymbolKind::Struct,
        Kind::Enum => SymbolKind::Enum,
        Kind::Variant => SymbolKind::EnumVariant,
        Kind::Field => SymbolKind::Field,
        Kind::Const => SymbolKind::Const,
        Kind::TypeParam => SymbolKind::TypeParam,
        Kind::Param | Kind::Local | Kind::Import => SymbolKind::Local,
        _ => return None,
    })
}

fn search(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, opts());
    c.input(g.show());
    // every item of every module, the fields and the variants
    let mut want: BTreeMap<(usize, usize, usize), (String, Kind)> = BTreeMap::new();
    for x in &g.w.syms {
        let Some((f, p)) = x.def else { continue };
        let item = match x.kind {
            Kind::Module | Kind::Fun | Kind::Struct | Kind::Enum | Kind::Const | Kind::Variant => true,
            Kind::Field => !x.name.is_empty() && x.name == g.w.files[f].pieces[p].text,
            _ => false,
        };
        // functions of scripts are not items of a module
        if item && (x.kind == Kind::Module || x.module.is_some_and(|m| g.w.sym(m).def.is_some())) {
            let (a, b) = g.laid[f].at[p];
            want.insert((f, a, b), (x.name.clone(), x.kind));
        }
    }
    let names: Vec<String> = want.values().map(|x| x.0.clone()).collect();
    if names.is_empty() {
        return Ok(());
    }
    let mut hits = 0;
    for _ in 0..6 {
        let q = query(s, &names);
        c.input(format!("{}\nquery {q:?}", g.show()));
        let got = g.an.symbol_search(Query::new(&q, None)).unwrap();
        let mut seen: BTreeMap<(usize, usize, usize), String> = BTreeMap::new();
        for t in &got {
            let Some(f) = g.file_index(t.file_id) else {
                // builtin functions have no place in the workspace
                continue;
            };
            let Some(r) = t.focus_range else { fail!("symbol-range", "`{}` has no range of its name", t.name) };
            ensure!(t.full_range.contains_range(r), "symbol-range", "name of `{}` is outside of it", t.name);
            let k = (f, usize::from(r.start()), usize::from(r.end()));
            ensure!(seen.insert(k, t.name.clone()).is_none(), "symbol-twice", "`{}` found twice for {q:?}", t.name);
            let Some((n, kind)) = want.get(&k) else {
                fail!("symbol-extra", "`{}` at {} found for {q:?} is no item", t.name, g.at(f, k.1));
            };
            ensure_eq!(&t.name, n, "symbol-name", "name of a result");
            ensure_eq!(t.kind, symbol_kind(*kind), "symbol-kind", "kind of `{n}`");
            ensure!(matches(&q, n), "symbol-unasked", "`{n}` found for {q:?}");
        }
        for (k, (n, kind)) in &want {
            if matches(&q, n) {
                hits += 1;
                ensure!(seen.contains_key(k), format!("symbol-missing-{kind:?}"), "{kind:?} `{n}` at {} is not found for {q:?}", g.at(k.0, k.1));
            }
        }
        // a limit only cuts the list
        let lim = s.idx(8);
        let few = g.an.symbol_search(Query::new(&q, Some(lim))).unwrap();
        ensure_eq!(few.len(), lim.min(got.len()), "symbol-limit", "results for {q:?} with limit {lim}");
        for (a, b) in few.iter().zip(&got) {
            ensure_eq!((a.file_id, a.full_range), (b.file_id, b.full_range), "symbol-limit", "a limited list is not the beginning of the whole one");
        }
    }
    c.count("hits", hits);
    c.nontrivial(hits >= 5);
    Ok(())
}

fn outline(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { stmts: 5, depth: 3, ..opts() });
    c.input(g.show());
    let mut total = 0;
    for (f, st) in g.w.files.iter().enumerate() {
        let text = &g.laid[f].text;
        let got = g.an.file_structure(g.ws.files[f]).unwrap();
        // the declarations in the order of the text
        let mut want: Vec<(usize, usize, SymId)> = vec![];
        let mut bare = BTreeSet::new();
        for (p, x) in st.pieces.iter().enumerate() {
            if let Some(o) = &x.occ {
                if o.def {
                    // a shorthand pattern declares the variable
                    let id = match o.also {
                        Some(l) if matches!(g.w.sym(l).kind, Kind::Local) => l,
                        _ => o.sym,
                    };
                    if symbol_kind(g.w.sym(id).kind).is_some() {
                        let (a, b) = g.laid[f].at[p];
                        want.push((a, b, id));
                    }
                } else if o.role == Role::PatPath
                    && st.pieces[p - 1].text != "::"
                    && !matches!(st.pieces[p + 1].text.as_str(), "::" | "{" | "(" | "<")
                {
                    // a name alone in a pattern: the outline does not know whether it is a variant or a variable
                    let (a, b) = g.laid[f].at[p];
                    want.push((a, b, o.sym));
                    bare.insert(a);
                } else if let (Role::PatShorthand, Some(l)) = (o.role, o.also) {
                    let (a, b) = g.laid[f].at[p];
                    want.push((a, b, l));
                }
            }
        }
        let mut outer: Vec<usize> = vec![];
        for (i, n) in got.iter().enumerate() {
            let (a, b): (usize, usize) = (n.navigation_range.start().into(), n.navigation_range.end().into());
            ensure!(n.node_range.contains_range(n.navigation_range), "outline-range", "the name of `{}` is outside of it", n.label);
            ensure_eq!(n.label.as_str(), &text[a..b], "outline-label", "label of {a}..{b}");
            let Some((wa, wb, id)) = want.get(i).copied() else { fail!("outline-extra", "`{}` at {} is no declaration", n.label, g.at(f, a)) };
            if (wa, wb) != (a, b) {
                if wa < a {
                    fail!(format!("outline-missing-{:?}", g.w.sym(id).kind), "{:?} `{}` at {} is not in the outline", g.w.sym(id).kind, g.w.sym(id).name, g.at(f, wa));
                }
                fail!("outline-extra", "`{}` at {} is no declaration", n.label, g.at(f, a));
            }
            if bare.contains(&a) {
                ensure_eq!(n.parent, outer.iter().rev().find(|o| got[**o].node_range.contains_range(n.node_range)).copied(), "outline-parent", "parent of `{}`", n.label);
                continue;
            }
            ensure_eq!(Some(n.kind), symbol_kind(g.w.sym(id).kind), "outline-kind", "kind of `{}`", n.label);
            // the parent is the innermost of the entries around it
            while let Some(&o) = outer.last() {
                if got[o].node_range.contains_range(n.node_range) && got[o].node_range != n.node_range {
                    break;
                }
                outer.pop();
            }
            ensure_eq!(n.parent, outer.last().copied(), "outline-parent", "parent of `{}` at {}", n.label, g.at(f, a));
            let parent = n.parent.map(|p| want[p].2);
            match g.w.sym(id).kind {
                Kind::Module => ensure_eq!(parent, None, "outline-nesting", "parent of module `{}`", n.label),
                Kind::Struct | Kind::Enum | Kind::Const => ensure_eq!(parent, g.w.sym(id).module, "outline-nesting", "parent of `{}`", n.label),
                Kind::Fun => ensure!(parent.is_none() || parent == g.w.sym(id).module, "outline-nesting", "parent of `{}`", n.label),
                Kind::Field | Kind::Variant => ensure_eq!(parent, g.w.sym(id).parent, "outline-nesting", "parent of `{}`", n.label),
                _ => (),
            }
            outer.push(i);
        }
        ensure!(got.len() == want.len(), "outline-missing", "{:?} is not in the outline", want.get(got.len()).map(|w| g.at(f, w.0)));
        total += got.len();
    }
    c.nontrivial(total >= 20);
    Ok(())
}

pub fn c20() -> Vec<Check> {
    vec![
        Check::new("symbol-search", "queries with at least five hits altogether", 4000, 60000, search),
        Check::new("outline", "at least 20 declarations", 4000, 60000, outline),
    ]
}

/// What is said at a place: the parameters and the active one
#[derive(Debug, PartialEq)]
struct Want {
    params: Vec<(String, Option<String>)>,
    active: usize,
    empty: &'static str,
}

fn has_int(t: &Ty) -> bool {
    match t {
        Ty::Int(_) => true,
        Ty::Vec(t) | Ty::Ref(_, t) => has_int(t),
        Ty::Adt(_, a) | Ty::Tuple(a) => a.iter().any(has_int),
        Ty::Fun(a, r) => a.iter().any(has_int) || has_int(r),
        _ => false,
    }
}

fn judge(g: &Gen, f: usize, off: usize, w: &Want, what: &str) -> Result<(), Fail> {
    let at = || format!("{} (`|` after {:?})", g.at(f, off), g.laid[f].text[..off].chars().rev().take(20).collect::<Vec<_>>().into_iter().rev().collect::<String>());
    let Some(h) = g.an.signature_help(g.pos(f, off)).unwrap() else {
        fail!(format!("none-{what}"), "no signature at {}", at());
    };
    let labels: Vec<&str> = h.parameter_labels().collect();
    if w.params.is_empty() {
        ensure_eq!(h.signature.as_str(), w.empty, format!("empty-{what}"), "signature at {}", at());
        ensure!(labels.is_empty(), format!("empty-{what}"), "parameters {labels:?} at {}", at());
        return Ok(());
    }
    ensure_eq!(h.signature, labels.join(", "), format!("signature-{what}"), "the parameters are not the parts of the signature at {}", at());
    ensure!(labels.len() == w.params.len(), format!("count-{what}"), "parameters {labels:?} at {}, expected {:?}", at(), w.params);
    for (l, (name, ty)) in labels.iter().zip(&w.params) {
        match ty {
            Some(t) => ensure_eq!(l.to_string(), format!("{name}{t}"), format!("param-{what}"), "parameter at {}", at()),
            None => ensure!(l.starts_with(name.as_str()), format!("param-{what}"), "parameter {l:?} at {}, expected to start with {name:?}", at()),
        }
    }
    ensure_eq!(h.active_parameter, Some(w.active), format!("active-{what}"), "active parameter at {}", at());
    Ok(())
}

/// nothing in these pieces opens a list of its own
fn flat(g: &Gen, f: usize, a: usize, b: usize) -> bool {
    g.w.files[f].pieces[a..b].iter().all(|p| !matches!(p.text.as_str(), "(" | "{" | "[" | "<" | "|"))
}

fn bounds(g: &Gen, p: SymId) -> String {
    let (f, d) = g.w.sym(p).def.unwrap();
    let ps = &g.w.files[f].pieces;
    let mut out = vec![];
    if ps[d + 1].text == ":" {
        let mut k = d + 2;
        while !matches!(ps[k].text.as_str(), "," | ">") {
            if ps[k].text != "+" {
                out.push(ps[k].text.clone());
            }
            k += 1;
        }
    }
    if out.is_empty() { String::new() } else { format!(": {}", out.join(" + ")) }
}

fn signatures(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, ..Opts::default() });
    c.input(g.show());
    if g.w.poisoned {
        return Ok(());
    }
    let (mut calls, mut lits, mut targs) = (0, 0, 0);
    for x in &g.w.sites {
        let f = x.file;
        let at = &g.laid[f].at;
        // places: (offset, number of the element)
        let mut places: Vec<(usize, usize)> = vec![];
        let spans: Vec<(usize, usize)> = match &x.kind {
            SiteKind::Args { args, .. } => args.clone(),
            SiteKind::Lit { fields, .. } => fields.iter().map(|x| (x.1, x.2)).collect(),
            _ => continue,
        };
        for (i, (a, b)) in spans.iter().enumerate() {
            places.push((at[*a].0, i));
            places.push((at[*b - 1].1, i));
            if flat(&g, f, *a, *b) {
                for p in *a..*b {
                    places.push((s.range(at[p].0, at[p].1), i));
                }
            }
        }
        if spans.is_empty() {
            // `(` or `{`
            places.push((at[x.from].1, 0));
        }
        match &x.kind {
            SiteKind::Args { callee, method, inst, .. } => {
                let cs = g.w.sym(*callee);
                if cs.builtin && cs.name.starts_with("assert") {
                    continue;
                }
                let params = match cs.kind {
                    Kind::Fun => cs.params[*method as usize..]
                        .iter()
                        .map(|p| {
                            let (n, t) = (&g.w.sym(*p).name, &g.w.sym(*p).ty);
                            let real = t.subst(inst);
                            // literals without a suffix leave the type open
                            let ty = (*t == real || !has_int(&real)).then(|| show_ty(&g, &real, Some(g.w.files[f].pkg)));
                            (format!("{n}: "), ty)
                        })
                        .collect(),
                    _ => continue,
                };
                for (off, i) in places {
                    calls += 1;
                    let w = Want { params: Vec::clone(&params), active: i, empty: "<no arguments>" };
                    judge(&g, f, off, &w, if *method { "method" } else if cs.builtin { "builtin" } else { "call" })?;
                }
            }
            SiteKind::Lit { adt, fields } => {
                let owner = fields.first().map(|x| g.w.sym(x.0).parent.unwrap()).unwrap_or(*adt);
                let all = g.w.sym(owner).fields.clone();
                let pkg = g.w.files[g.w.sym(owner).def.map(|d| d.0).unwrap_or(f)].pkg;
                let params: Vec<_> = all.iter().map(|p| (format!("{}: ", g.w.sym(*p).name), Some(show_ty(&g, &g.w.sym(*p).ty, Some(pkg))))).collect();
                for (off, i) in places {
                    lits += 1;
                    let active = fields.get(i).and_then(|x| all.iter().position(|y| *y == x.0)).unwrap_or(0);
                    judge(&g, f, off, &Want { params: params.clone(), active, empty: "<no fields>" }, "lit")?;
                }
            }
            _ => (),
        }
    }
    // type arguments
    for (f, st) in g.w.files.iter().enumerate() {
        let at = &g.laid[f].at;
        for (p, x) in st.pieces.iter().enumerate() {
            let Some(o) = &x.occ else { continue };
            if o.def || !matches!(o.role, Role::Call | Role::Type | Role::Method | Role::Ctor | Role::PatPath) {
                continue;
            }
            let sy = g.w.sym(o.sym);
            if sy.tparams.is_empty() || sy.builtin {
                continue;
            }
            let mut k = p + 1;
            if st.pieces.get(k).is_some_and(|x| x.text == "::") {
                k += 1;
            }
            if st.pieces.get(k).is_none_or(|x| x.text != "<") {
                continue;
            }
            let params: Vec<_> = sy.tparams.iter().map(|t| (format!("{}{}", g.w.sym(*t).name, bounds(&g, *t)), Some(String::new()))).collect();
            // elements of the list
            let (mut depth, mut i, mut q, mut start) = (1, 0, k + 1, k + 1);
            let mut round = 0;
            loop {
                let t = st.pieces[q].text.as_str();
                match t {
                    "<" => depth += 1,
                    ">" => depth -= 1,
                    "(" => round += 1,
                    ")" => round -= 1,
                    _ => (),
                }
                if depth == 0 || (depth == 1 && round == 0 && t == ",") {
                    if q > start && flat(&g, f, start, q) {
                        for off in [at[start].0, at[q - 1].1] {
                            targs += 1;
                            judge(&g, f, off, &Want { params: params.clone(), active: i, empty: "<no arguments>" }, &format!("types-{:?}", o.role))?;
                        }
                    }
                    i += 1;
                    start = q + 1;
                    if depth == 0 {
                        break;
                    }
                }
                q += 1;
            }
        }
    }
    c.count("calls", calls);
    c.count("literals", lits);
    c.count("type arguments", targs);
    c.nontrivial(calls + lits + targs >= 10);
    Ok(())
}

pub fn c19() -> Vec<Check> {
    vec![Check::new("signature-help", "at least ten places asked", 3000, 40000, signatures)]
}

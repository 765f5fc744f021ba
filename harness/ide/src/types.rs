//! Types shown to the user: inlay hints, type of the expression under the cursor.
use crate::ws::{self, Gen};
use common::*;
use ide::inlay_hints::{InlayFieldsToResolve, InlayHintPosition, InlayHintsConfig, InlayKind};
use movegen::{Kind, LocalRole, Opts, Role, SiteKind, SymId, Ty, INTS};
use std::collections::BTreeMap;

pub fn hint_config() -> InlayHintsConfig {
    InlayHintsConfig {
        render_colons: true,
        type_hints: true,
        tuple_type_hints: true,
        parameter_hints: true,
        range_exclusive_hints: true,
        hide_closure_parameter_hints: false,
        fields_to_resolve: InlayFieldsToResolve::empty(),
    }
}

/// the address as written in the declaration of the module
pub fn addr_text(g: &Gen, m: SymId) -> String {
    let (f, p) = g.w.sym(m).def.unwrap();
    let ps = &g.w.files[f].pieces;
    // `addr :: name`, or `address addr { module name`
    if ps[p - 1].text == "::" { ps[p - 2].text.clone() } else { ps[p - 3].text.clone() }
}

/// None: fully qualified; Some(package): as shown in a file of that package
pub fn show_ty(g: &Gen, t: &Ty, ctx: Option<usize>) -> String {
    let list = |v: &[Ty]| v.iter().map(|t| show_ty(g, t, ctx)).collect::<Vec<_>>().join(", ");
    match t {
        Ty::Bool => "bool".into(),
        Ty::Int(k) => INTS[*k as usize].into(),
        Ty::Address => "address".into(),
        Ty::Signer => "signer".into(),
        Ty::Unit => "()".into(),
        Ty::Num => "num".into(),
        Ty::Vec(t) => format!("vector<{}>", show_ty(g, t, ctx)),
        Ty::Ref(m, t) => format!("{}{}", if *m { "&mut " } else { "&" }, show_ty(g, t, ctx)),
        Ty::Param(p) => g.w.sym(*p).name.clone(),
        Ty::Tuple(v) => format!("({})", list(v)),
        Ty::Fun(a, r) => format!("|{}| -> {}", list(a), show_ty(g, r, ctx)),
        Ty::Adt(s, a) => {
            let m = g.w.sym(*s).module.unwrap();
            let (mn, n) = (&g.w.sym(m).name, &g.w.sym(*s).name);
            let addr = addr_text(g, m);
            let head = match ctx {
                None => format!("{addr}::{mn}::{n}"),
                Some(p) if addr == "std" || p == g.w.sym(*s).pkg => n.clone(),
                Some(_) => format!("{mn}::{n}"),
            };
            if a.is_empty() { head } else { format!("{head}<{}>", list(a)) }
        }
    }
}

/// Is the type of this local written down? (`let p: T`, `|x: T|`)
fn annotated(g: &Gen, l: SymId) -> bool {
    let (f, p) = g.w.sym(l).def.unwrap();
    let ps = &g.w.files[f].pieces;
    if g.w.sym(l).role == LocalRole::Lambda {
        return ps[p + 1].text == ":";
    }
    let mut k = p;
    while ps[k].text != "let" {
        k -= 1;
    }
    let mut d = 0;
    loop {
        match ps[k].text.as_str() {
            "(" | "{" => d += 1,
            ")" | "}" => d -= 1,
            ":" if d == 0 => return true,
            "=" | ";" if d == 0 => return false,
            _ => {}
        }
        k += 1;
    }
}

/// Inlay hints of every file: the types of the variables whose type is not written, the parameter names of arguments.
fn hints(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, ..Opts::default() });
    c.input(g.show());
    if g.w.poisoned {
        return Ok(());
    }
    let (mut types, mut params) = (0, 0);
    for (fi, f) in g.w.files.iter().enumerate() {
        let got = g.an.inlay_hints(&hint_config(), g.ws.files[fi], None).unwrap();
        let text = &g.laid[fi].text;
        let mut got_t: BTreeMap<(usize, usize), String> = BTreeMap::new();
        let mut got_p: BTreeMap<(usize, usize), String> = BTreeMap::new();
        let mut got_r = vec![];
        for h in &got {
            let r: (usize, usize) = (h.range.start().into(), h.range.end().into());
            let label = h.label.to_string();
            let dup = match h.kind {
                InlayKind::Type => {
                    ensure!(matches!(h.position, InlayHintPosition::After), "type-hint-position", "type hint before {r:?}");
                    got_t.insert(r, label)
                }
                InlayKind::Parameter => {
                    ensure!(matches!(h.position, InlayHintPosition::Before), "param-hint-position", "parameter hint after {r:?}");
                    got_p.insert(r, label)
                }
                InlayKind::RangeExclusive => {
                    got_r.push(r);
                    None
                }
                k => fail!("hint-kind", "unexpected hint {k:?}"),
            };
            ensure!(dup.is_none(), "hint-twice", "two hints of a kind at {r:?} {:?}", &text[r.0..r.1]);
        }
        // types
        let mut want_t = BTreeMap::new();
        for (i, x) in g.w.syms.iter().enumerate() {
            let Some((df, dp)) = x.def else { continue };
            if df != fi || x.kind != Kind::Local || x.name.starts_with('_') {
                continue;
            }
            if x.role == LocalRole::LetShorthand {
                // not shown at present; if it were, it would have to be right
                if let Some(h) = got_t.remove(&g.laid[fi].at[dp]) {
                    ensure_eq!(h, format!(": {}", show_ty(&g, &x.ty, Some(f.pkg))), "type-hint-short", "type shown for {}", x.name);
                }
                continue;
            }
            if !matches!(x.role, LocalRole::Let | LocalRole::Lambda) || annotated(&g, i) {
                continue;
            }
            want_t.insert(g.laid[fi].at[dp], (format!(": {}", show_ty(&g, &x.ty, Some(f.pkg))), i));
        }
        for (r, (w, i)) in &want_t {
            types += 1;
            let h = got_t.remove(r);
            ensure!(
                h.as_ref() == Some(w),
                format!("type-hint-{:?}-{}", g.w.sym(*i).role, kind(&g.w.sym(*i).ty)),
                "type shown for {}: {h:?}, expected {w:?}\n at {}",
                g.w.sym(*i).name,
                g.at(fi, r.0)
            );
        }
        if let Some((r, h)) = got_t.iter().next() {
            fail!("type-hint-extra", "unexpected type hint {h:?} on `{}` at {}", &text[r.0..r.1], g.at(fi, r.0));
        }
        // parameters
        let mut want_p = BTreeMap::new();
        for x in g.w.sites.iter().filter(|x| x.file == fi) {
            let SiteKind::Args { callee, args, method, .. } = &x.kind else { continue };
            let cs = g.w.sym(*callee);
            if ["borrow_global", "borrow_global_mut", "move_to", "move_from", "freeze", "exists"].contains(&cs.name.as_str()) {
                continue;
            }
            let ps = &cs.params[*method as usize..];
            if ps.len() == 1 {
                continue;
            }
            for (p, (a, b)) in ps.iter().zip(args) {
                let r = (g.laid[fi].at[*a].0, g.laid[fi].at[*b - 1].1);
                let name = g.w.sym(*p).name.trim_start_matches('_');
                if text[r.0..r.1].to_lowercase().contains(&name.to_lowercase()) {
                    continue;
                }
                want_p.insert(r, format!("{name}:"));
            }
        }
        for (r, w) in &want_p {
            params += 1;
            let h = got_p.remove(r).map(|h| h.trim_end().to_string());
            ensure!(h.as_ref() == Some(w), "param-hint", "parameter shown for `{}`: {h:?}, expected {w:?}\n at {}", &text[r.0..r.1], g.at(fi, r.0));
        }
        if let Some((r, h)) = got_p.iter().next() {
            fail!("param-hint-extra", "unexpected parameter hint {h:?} on `{}` at {}", &text[r.0..r.1], g.at(fi, r.0));
        }
        // a part of the file has the hints of that part
        let n = text.len();
        let mut cut = |s: &mut Src| {
            let mut x = s.idx(n + 1);
            while !text.is_char_boundary(x) {
                x -= 1;
            }
            x
        };
        let (a, b) = (cut(s), cut(s));
        let (a, b) = (a.min(b), a.max(b));
        let part = g.an.inlay_hints(&hint_config(), g.ws.files[fi], Some(ws::range(a, b))).unwrap();
        let lim = |r: &syntax::TextRange| usize::from(r.start()) >= a && usize::from(r.end()) <= b;
        let all: Vec<String> = got.iter().filter(|h| lim(&h.range)).map(|h| format!("{:?} {:?} {}", h.range, h.kind, h.label)).collect();
        let part: Vec<String> = part.iter().map(|h| format!("{:?} {:?} {}", h.range, h.kind, h.label)).collect();
        ensure_eq!(part, all, "hints-part", "hints of {a}..{b}");
    }
    c.count("type hints", types);
    c.count("parameter hints", params);
    c.nontrivial(types >= 3 && params >= 2);
    Ok(())
}
fn kind(t: &Ty) -> &'static str {
    match t {
        Ty::Int(_) => "int",
        Ty::Adt(..) => "adt",
        Ty::Vec(_) => "vec",
        Ty::Ref(..) => "ref",
        Ty::Tuple(_) => "tuple",
        Ty::Param(_) => "param",
        Ty::Fun(..) => "fun",
        _ => "prim",
    }
}

/// The type of the expression under the cursor.
fn exprs(s: &mut Src, c: &mut Case) -> PropResult {
    let g = ws::generate(s, Opts { pkgs: 2, modules: 3, never: false, ..Opts::default() });
    c.input(g.show());
    if g.w.poisoned {
        return Ok(());
    }
    let mut n = 0;
    for (fi, f) in g.w.files.iter().enumerate() {
        for (pi, p) in f.pieces.iter().enumerate() {
            let Some(o) = &p.occ else { continue };
            let x = g.w.sym(o.sym);
            if o.def || !matches!(x.kind, Kind::Local | Kind::Param) || o.role != Role::Value {
                continue;
            }
            n += 1;
            let a = g.laid[fi].at[pi].0;
            let got = g.an.expr_type_info(g.pos(fi, a)).unwrap();
            let want = show_ty(&g, &x.ty, None);
            ensure!(
                got.as_ref() == Some(&want),
                format!("var-type-{:?}-{}", x.role, kind(&x.ty)),
                "type of `{}`: {got:?}, expected {want:?}\n at {}",
                x.name,
                g.at(fi, a)
            );
        }
    }
    // compound expressions: at an operator or parenthesis that belongs to no smaller expression
    let mut m = 0;
    for (k, x) in g.w.spans.iter().enumerate() {
        let ps = &g.w.files[x.file].pieces;
        let inner: Vec<(usize, usize)> = g
            .w
            .spans
            .iter()
            .enumerate()
            .filter(|(j, y)| *j != k && y.file == x.file && y.from >= x.from && y.to <= x.to)
            .map(|(_, y)| (y.from, y.to))
            .collect();
        if inner.contains(&(x.from, x.to)) {
            continue;
        }
        let direct: Vec<usize> = (x.from..x.to).filter(|p| !inner.iter().any(|(a, b)| a <= p && p < b)).collect();
        if direct.iter().any(|p| matches!(ps[*p].text.as_str(), "{" | ";" | "let" | "|" | "if" | "match" | "::<")) {
            continue;
        }
        let ops = ["&", "*", "!", ".", "+", "-", "/", "%", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "^", "as", "is"];
        let Some(p) = direct.iter().find(|p| ops.contains(&ps[**p].text.as_str())) else { continue };
        m += 1;
        let a = g.laid[x.file].at[*p].0;
        // not the end of the operand before it
        if a > 0 && g.laid[x.file].at.get(p - 1).is_some_and(|q| q.1 == a) {
            continue;
        }
        let got = g.an.expr_type_info(g.pos(x.file, a)).unwrap();
        let want = show_ty(&g, &x.ty, None);
        // an operand may diverge; an unsuffixed integer where any integer will do
        let ok = got.as_ref() == Some(&want) || !x.synth && x.ty.is_int() && got.as_deref() == Some("integer") || got.as_ref().is_some_and(|t| t.contains("<never>"));
        ensure!(
            ok,
            format!("expr-type-{}-{}-{}", x.what, x.synth, kind(&x.ty)),
            "type of {} `{}`: {got:?}, expected {want:?}\n at {}",
            x.what,
            &g.laid[x.file].text[g.laid[x.file].at[x.from].0..g.laid[x.file].at[x.to - 1].1],
            g.at(x.file, a)
        );
    }
    c.count("compound expressions", m);
    c.count("variables", n);
    c.nontrivial(n >= 5);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("hints", "at least 3 type and 2 parameter hints", 8000, 80000, hints),
        Check::new("exprs", "at least 5 variables used", 8000, 80000, exprs),
    ]
}

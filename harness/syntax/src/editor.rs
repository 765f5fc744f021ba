//! C04: tree edits do to the tree what a splice does to the text; node pointers find their node again.
use crate::structure::dump;
use crate::text::{any_text, check_tree, valid};
use common::{Case, Check, PropResult, Src, ensure, ensure_eq};
use syntax::syntax_editor::{Position, SyntaxEditor};
use syntax::{NodeOrToken, SourceFile, SyntaxElement, SyntaxNode, SyntaxNodePtr, TextRange};

fn range(e: &SyntaxElement) -> (usize, usize) {
    let r = e.text_range();
    (r.start().into(), r.end().into())
}

/// A detached mutable element to be inserted.
fn fresh(s: &mut Src, pool: &SyntaxNode) -> SyntaxElement {
    let all: Vec<_> = pool.descendants_with_tokens().skip(1).filter(|e| !e.text_range().is_empty()).collect();
    if all.is_empty() {
        return pool.clone_subtree().clone_for_update().into();
    }
    let e = s.pick(&all).clone();
    match e {
        NodeOrToken::Node(n) => n.clone_subtree().clone_for_update().into(),
        NodeOrToken::Token(t) => {
            let root = t.parent().unwrap().clone_subtree().clone_for_update();
            let t = root.children_with_tokens().nth(t.index()).unwrap();
            let t = t.into_token().unwrap();
            t.detach();
            t.into()
        }
    }
}

fn edits(s: &mut Src, c: &mut Case) -> PropResult {
    let text = if s.flip() { valid(s, 60) } else { any_text(s, c) };
    let root = SourceFile::parse(&text).syntax_node();
    let donor_text = valid(s, 30);
    let donor = SourceFile::parse(&donor_text).syntax_node();
    let all: Vec<SyntaxElement> = root.descendants_with_tokens().skip(1).filter(|e| !e.text_range().is_empty()).collect();
    if all.is_empty() {
        return Ok(());
    }
    let mut ed = SyntaxEditor::new(root.clone());
    // spans already used, in the old text; edits never touch or overlap one another
    let mut used: Vec<(usize, usize)> = vec![];
    let mut splices: Vec<(usize, usize, String)> = vec![];
    let mut log = vec![];
    let m = s.range(1, 6);
    let mut inserted = 0;
    for _ in 0..m {
        let e = s.pick(&all).clone();
        let (a, b) = range(&e);
        let clash = |a: usize, b: usize, used: &Vec<(usize, usize)>| used.iter().any(|&(x, y)| a <= y && x <= b);
        match s.below(8) {
            0 => {
                if clash(a, b, &used) {
                    continue;
                }
                ed.delete(e.clone());
                log.push(format!("delete {:?}", e));
                splices.push((a, b, String::new()));
                used.push((a, b));
            }
            1 | 2 => {
                if clash(a, b, &used) {
                    continue;
                }
                let x = fresh(s, &donor);
                let t = x.to_string();
                log.push(format!("replace {e:?} with {t:?}"));
                ed.replace(e, x);
                splices.push((a, b, t));
                used.push((a, b));
            }
            3 => {
                if clash(a, b, &used) {
                    continue;
                }
                let xs: Vec<_> = (0..s.range(0, 3)).map(|_| fresh(s, &donor)).collect();
                let t: String = xs.iter().map(|x| x.to_string()).collect();
                log.push(format!("replace {e:?} with many {t:?}"));
                ed.replace_with_many(e, xs);
                splices.push((a, b, t));
                used.push((a, b));
            }
            4 => {
                // a run of siblings
                let Some(p) = e.parent() else { continue };
                let kids: Vec<_> = p.children_with_tokens().filter(|x| !x.text_range().is_empty()).collect();
                let i = kids.iter().position(|x| *x == e).unwrap();
                let j = (i + s.idx(4)).min(kids.len() - 1);
                let (a, b) = (range(&kids[i]).0, range(&kids[j]).1);
                // an empty node in between belongs to the run
                if clash(a, b, &used) {
                    continue;
                }
                let xs: Vec<_> = (0..s.range(0, 3)).map(|_| fresh(s, &donor)).collect();
                let t: String = xs.iter().map(|x| x.to_string()).collect();
                log.push(format!("replace {:?}..={:?} with {t:?}", kids[i], kids[j]));
                ed.replace_all(kids[i].clone()..=kids[j].clone(), xs);
                splices.push((a, b, t));
                used.push((a, b));
            }
            5 | 6 => {
                let after = s.flip();
                let p = if after { b } else { a };
                // what ends together with the node and is replaced inside of it does not touch an insertion after it
                let inside = |x: usize, y: usize| after && matches!(e, NodeOrToken::Node(_)) && x < y && y == p && a < x;
                if used.iter().any(|&(x, y)| x <= p && p <= y && !inside(x, y)) {
                    continue;
                }
                let many = s.chance(1, 3);
                let pos = if after { Position::after(e.clone()) } else { Position::before(e.clone()) };
                inserted += 1;
                if many {
                    let xs: Vec<_> = (0..s.range(0, 3)).map(|_| fresh(s, &donor)).collect();
                    let t: String = xs.iter().map(|x| x.to_string()).collect();
                    log.push(format!("insert {t:?} {} {e:?}", if after { "after" } else { "before" }));
                    ed.insert_all(pos, xs);
                    splices.push((p, p, t));
                } else {
                    let x = fresh(s, &donor);
                    let t = x.to_string();
                    log.push(format!("insert {t:?} {} {e:?}", if after { "after" } else { "before" }));
                    ed.insert(pos, x);
                    splices.push((p, p, t));
                }
                used.push((p, p));
            }
            _ => {
                let NodeOrToken::Node(n) = &e else { continue };
                let first = s.flip();
                let p = if first { a } else { b };
                if clash(p, p, &used) {
                    continue;
                }
                let x = fresh(s, &donor);
                let t = x.to_string();
                log.push(format!("insert {t:?} as {} child of {e:?}", if first { "first" } else { "last" }));
                ed.insert(if first { Position::first_child_of(n) } else { Position::last_child_of(n) }, x);
                splices.push((p, p, t));
                used.push((p, p));
                inserted += 1;
            }
        }
    }
    c.input(format!("{text:?}: {log:#?}"));
    c.nontrivial(splices.len() >= 2 && inserted >= 1);
    let mut want = text.clone();
    splices.sort_by_key(|x| (x.0, x.1));
    for (a, b, t) in splices.iter().rev() {
        want.replace_range(*a..*b, t);
    }
    let edit = ed.finish();
    ensure_eq!(edit.new_root().text().to_string(), want, "edit", "the edited tree does not have the edited text");
    ensure_eq!(edit.old_root().text().to_string(), text, "old-root", "the original tree was changed");
    ensure_eq!(root.text().to_string(), text, "original", "the original tree was changed");
    check_tree(edit.new_root(), &want)?;
    for x in edit.changed_elements() {
        ensure!(x.ancestors().any(|n| n == *edit.new_root()), "changed-elements", "{x:?} is reported as changed but is not in the new tree");
    }
    Ok(())
}

fn list_element(s: &mut Src, c: &mut Case) -> PropResult {
    // deleting one element of a comma separated list leaves the list of the others
    let n = s.range(1, 6);
    let k = s.idx(n);
    let names = ["a", "bb", "c1", "d", "e", "f"];
    let trailing = s.flip();
    let mut list = String::new();
    let mut gap = |s: &mut Src| -> &'static str { s.pick(&["", " ", "\n    ", "  ", "/*,*/", " /* c */ ", " // l, m\n  ", "\n// c\n"]) };
    for i in 0..n {
        list.push_str(gap(s));
        list.push_str(names[i]);
        list.push_str(gap(s));
        if i + 1 < n || trailing {
            list.push(',');
        }
    }
    list.push_str(gap(s));
    let (pre, post, kind) = *s.pick(&[
        ("module 0x1::m { use 0x1::m::{", "}; }", "USE_SPECK"), ("module 0x1::m { fun f() { g(", "); } }", "VALUE_ARG"),
        ("module 0x1::m { fun f() { let S {", "} = s; } }", "STRUCT_PAT_FIELD"), ("module 0x1::m { fun f<", ">() {} }", "TYPE_PARAM"),
    ]);
    let text = format!("{pre}{list}{post}");
    c.input(text.clone());
    c.nontrivial(n >= 2);
    let p = SourceFile::parse(&text);
    ensure!(p.errors().is_empty(), "generator", "list does not parse: {:?}", p.errors());
    let root = p.syntax_node();
    let els: Vec<SyntaxNode> = root
        .descendants()
        .filter(|x| format!("{:?}", x.kind()) == kind && usize::from(x.text_range().start()) >= pre.len())
        .collect();
    ensure_eq!(els.len(), n, "generator", "elements");
    let mut ed = SyntaxEditor::new(root);
    ed.delete_comma_sep_list_element(&els[k]);
    let got = ed.finish().new_root().text().to_string();
    let want: Vec<&str> = (0..n).filter(|i| *i != k).map(|i| names[i]).collect();
    ensure!(got.starts_with(pre) && got.ends_with(post), "outside", "text outside of the list changed: {got:?}");
    let q = SourceFile::parse(&got);
    let mut strip = String::new();
    for t in q.syntax_node().descendants_with_tokens().filter_map(|e| e.into_token()) {
        let r = t.text_range();
        if usize::from(r.start()) >= pre.len() && usize::from(r.end()) <= got.len() - post.len() && !matches!(format!("{:?}", t.kind()).as_str(), "WHITESPACE" | "COMMENT") {
            strip.push_str(t.text());
        }
    }
    let a = want.join(",");
    ensure!(
        strip == a || (trailing && !want.is_empty() && strip == format!("{a},")),
        "list",
        "after deleting {:?} from the list, it is {strip:?}",
        names[k]
    );
    if !want.is_empty() {
        ensure!(q.errors().is_empty(), "list-parse", "the shortened list does not parse: {got:?} {:?}", q.errors());
    }
    Ok(())
}

fn pointers(s: &mut Src, c: &mut Case) -> PropResult {
    let text = any_text(s, c);
    c.input(format!("{text:?}"));
    let root = SourceFile::parse(&text).syntax_node();
    let other = SourceFile::parse(&text).syntax_node();
    // a pointer is a kind and a range: an empty node cannot be told from its neighbours
    let nodes: Vec<_> = root.descendants().filter(|n| !n.text_range().is_empty()).collect();
    c.nontrivial(nodes.len() > 10);
    for n in nodes {
        let ptr = SyntaxNodePtr::new(&n);
        ensure_eq!(ptr.text_range(), n.text_range(), "ptr-range", "pointer range of {n:?}");
        ensure_eq!(ptr.kind(), n.kind(), "ptr-kind", "pointer kind of {n:?}");
        let back = ptr.to_node(&root);
        // nested nodes of one kind and range cannot be told apart by a pointer
        ensure!(back.kind() == n.kind() && back.text_range() == n.text_range(), "ptr", "{n:?} became {back:?}");
        let back = ptr.to_node(&other);
        let (mut a, mut b) = (String::new(), String::new());
        dump(&n, &mut a);
        dump(&back, &mut b);
        ensure!(back.text_range() == n.text_range() && back.kind() == n.kind(), "ptr-reparse", "{n:?} became {back:?} in an equal tree");
        // what covers a range does cover it, and nothing below does
        let cover = root.covering_element(n.text_range());
        ensure!(cover.text_range().contains_range(n.text_range()), "covering", "{cover:?} does not cover {n:?}");
    }
    // every offset finds the tokens around it
    let offs: Vec<usize> = (0..=text.len()).filter(|i| text.is_char_boundary(*i)).collect();
    for o in offs.iter().step_by(1 + offs.len() / 50) {
        let around: Vec<TextRange> = root.token_at_offset((*o as u32).into()).map(|t| t.text_range()).collect();
        let want: Vec<TextRange> = root
            .descendants_with_tokens()
            .filter_map(|e| e.into_token())
            .map(|t| t.text_range())
            .filter(|r| usize::from(r.start()) <= *o && *o <= usize::from(r.end()))
            .collect();
        ensure_eq!(around, want, "token-at-offset", "tokens at offset {o}");
        let anc: Vec<_> = syntax::algo::ancestors_at_offset(&root, (*o as u32).into()).map(|n| usize::from(n.text_range().len())).collect();
        ensure!(anc.windows(2).all(|w| w[0] <= w[1]), "ancestors", "ancestors at {o} are not ordered by length: {anc:?}");
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new(
            "tree_edits",
            "1-6 non-overlapping insert/replace/delete edits on random trees against text splices; non-trivial: at least two edits, one of them an insertion",
            60_000,
            2_000_000,
            edits,
        ),
        Check::new("list_element", "deleting one element of a comma separated list; non-trivial: at least two elements", 20_000, 400_000, list_element),
        Check::new("pointers", "node pointers and offset lookups on arbitrary texts; non-trivial: more than 10 nodes", 10_000, 400_000, pointers),
    ]
}

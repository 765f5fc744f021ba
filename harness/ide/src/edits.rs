//! C05: the edits handed to the editor. A TextEdit applies as the list of its changes says; joining two edits applies
//! both or refuses; an offset moves with its text; the difference of two trees, written as an edit, turns the text of
//! the first into the text of the second.
use crate::total::{mutate, words};
use common::*;
use ide_db::source_change::SourceChange;
use ide_db::syntax_helpers::tree_diff::tree_diff;
use ide_db::text_edit::{TextChange, TextEdit, TextEditBuilder};
use movegen::{Opts, layout};
use syntax::{AstNode, SourceFile, TextRange, TextSize};
use vfs::FileId;

#[derive(Clone, Debug, PartialEq)]
struct Ch {
    a: usize,
    b: usize,
    new: String,
}
const BITS: [&str; 9] = ["", "x", "é", "名前", "\n", "long text here", "😀", " ", "fun f() {}"];

fn text(s: &mut Src) -> String {
    let n = s.below(60);
    (0..n).map(|_| *s.pick(&["a", "b", "é", "名", "😀", "\n", " ", "{", "zz"])).collect()
}
fn bounds(t: &str) -> Vec<usize> {
    (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect()
}
/// pairwise disjoint changes in order of position; insertions may share a position with each other and with the ends
/// of the replaced ranges, but two insertions at one place are given in the order they were added
fn changes(s: &mut Src, t: &str, most: u64) -> Vec<Ch> {
    let bs = bounds(t);
    let mut v: Vec<Ch> = vec![];
    let mut i = 0;
    let p = s.range(1, 8) as u64;
    while i < bs.len() && (v.len() as u64) < most {
        if s.chance(1, p) {
            let j = (i + s.below(5) as usize).min(bs.len() - 1);
            let new = s.pick(&BITS).to_string();
            let c = Ch { a: bs[i], b: bs[j], new };
            if !(c.a == c.b && c.new.is_empty()) && v.last() != Some(&c) {
                v.push(c);
            }
            i = j;
            // the next change starts where this one ended, or later
            if j == bs.len() - 1 || s.flip() {
                i += 1;
            }
            continue;
        }
        i += 1;
    }
    // an insertion at the very place where a replaced range starts sorts before it
    v.sort_by_key(|c| (c.a, c.b));
    v.dedup();
    v
}
fn model(t: &str, v: &[Ch]) -> String {
    let mut out = String::new();
    let mut at = 0;
    for c in v {
        out.push_str(&t[at..c.a]);
        out.push_str(&c.new);
        at = c.b;
    }
    out + &t[at..]
}
fn r(c: &Ch) -> TextRange {
    TextRange::new(TextSize::new(c.a as u32), TextSize::new(c.b as u32))
}
fn add(b: &mut TextEditBuilder, c: &Ch, s: &mut Src) {
    if c.a == c.b && s.flip() {
        b.insert(TextSize::new(c.a as u32), c.new.clone());
    } else if c.new.is_empty() && s.flip() {
        b.delete(r(c));
    } else {
        b.replace(r(c), c.new.clone());
    }
}
/// the changes in any order that keeps insertions at one place in order
fn shuffled(s: &mut Src, v: &[Ch]) -> Vec<Ch> {
    let mut keyed: Vec<(u64, usize)> = (0..v.len()).map(|i| (s.u64(), i)).collect();
    for i in 1..v.len() {
        if v[i].a == v[i - 1].a && v[i].b == v[i - 1].b {
            keyed[i].0 = keyed[i - 1].0;
        }
    }
    keyed.sort();
    keyed.into_iter().map(|(_, i)| v[i].clone()).collect()
}
fn built(s: &mut Src, v: &[Ch]) -> TextEdit {
    let mut b = TextEdit::builder();
    for c in shuffled(s, v) {
        add(&mut b, &c, s);
    }
    b.finish()
}
fn sorted(e: &TextEdit, sig: &str, input: &str) -> Result<(), Fail> {
    let v: Vec<&TextChange> = e.iter().collect();
    for w in v.windows(2) {
        ensure!(w[0].range.end() <= w[1].range.start(), sig, "changes overlap or are out of order: {:?} {:?} in {input}", w[0], w[1]);
    }
    Ok(())
}

fn apply_check(s: &mut Src, case: &mut Case) -> Result<(), Fail> {
    let t = text(s);
    let most = *s.pick(&[3u64, 10, 40]);
    let v = changes(s, &t, most);
    let input = format!("{t:?} {v:?}");
    case.input(input.clone());
    case.count("changes", v.len() as u64);
    if v.len() > 1 && t.len() > 3 {
        case.nontrivial(true);
    }
    if v.len() > 16 {
        case.label("more than 16 changes");
    }
    let want = model(&t, &v);
    let e = built(s, &v);
    sorted(&e, "order", &input)?;
    ensure_eq!(e.is_empty(), v.is_empty(), "empty", "{input}");
    let mut got = t.clone();
    e.apply(&mut got);
    ensure_eq!(got, want, "apply", "{input}");
    // the changes one by one from the end, as an editor applies them
    let mut hand = t.clone();
    let list: Vec<TextChange> = e.clone().into_iter().collect();
    for c in list.iter().rev() {
        hand.replace_range(usize::from(c.range.start())..usize::from(c.range.end()), &c.new_text);
    }
    ensure_eq!(hand, want, "changes", "{input}");
    // where an offset goes
    for o in bounds(&t) {
        let inside = v.iter().any(|c| c.a < o && o < c.b);
        // changes that touch each other may be joined into one; an offset where they touch is then inside
        let touch = v.iter().any(|c| c.b == o && c.a < o) && v.iter().any(|c| c.a == o);
        let shift = |incl: bool| {
            let mut n = o as i64;
            for c in &v {
                if c.a < o || (incl && c.a == o && c.b == o) {
                    n += c.new.len() as i64 - (c.b - c.a) as i64;
                }
            }
            n
        };
        match e.apply_to_offset(TextSize::new(o as u32)) {
            None => ensure!(inside || touch, "offset-lost", "offset {o} is in no replaced range of {input}"),
            Some(n) => {
                ensure!(!inside, "offset-kept", "offset {o} is inside a replaced range of {input}, moved to {n:?}");
                let n = u32::from(n) as i64;
                let (lo, hi) = (shift(false), shift(true));
                if !touch {
                    ensure!(lo <= n && n <= hi, "offset", "offset {o} moves to {lo}..={hi}, not {n}, in {input}");
                    if !v.iter().any(|c| c.a == o) {
                        ensure_eq!(n, lo, "offset", "{input} at {o}");
                    }
                }
            }
        }
    }
    for o in bounds(&t) {
        let mut b = TextEdit::builder();
        for c in &v {
            add(&mut b, c, s);
        }
        let touched = v.iter().any(|c| c.a <= o && o <= c.b);
        ensure_eq!(b.invalidates_offset(TextSize::new(o as u32)), touched, "invalidates", "{input} at {o}");
        if s.chance(3, 4) {
            break;
        }
    }
    Ok(())
}

fn union_check(s: &mut Src, case: &mut Case) -> Result<(), Fail> {
    let t = text(s);
    let v = changes(s, &t, 20);
    // the changes divided between the two edits; now and then one belongs to both, or one is shifted into another
    let (mut x, mut y, mut both): (Vec<Ch>, Vec<Ch>, usize) = (vec![], vec![], 0);
    for c in &v {
        match s.below(9) {
            0..=3 => x.push(c.clone()),
            4..=7 => y.push(c.clone()),
            _ => {
                x.push(c.clone());
                y.push(c.clone());
                both += 1;
            }
        }
    }
    if s.chance(1, 4) {
        y = changes(s, &t, 6);
    }
    let input = format!("{t:?} {x:?} and {y:?}");
    case.input(input.clone());
    if x.len() > 1 && y.len() > 1 {
        case.nontrivial(true);
    }
    if both > 0 {
        case.label("a change in both");
    }
    let (ex, ey) = (built(s, &x), built(s, &y));
    let list = |e: &TextEdit| -> Vec<Ch> {
        e.iter().map(|c| Ch { a: c.range.start().into(), b: c.range.end().into(), new: c.new_text.clone() }).collect()
    };
    let (lx, ly) = (list(&ex), list(&ey));
    // what counts are the changes of the two edits
    let clash = lx.iter().any(|c| {
        ly.iter().any(|d| {
            if c == d {
                return false;
            }
            let (c0, c1, d0, d1) = (c.a, c.b, d.a, d.b);
            (c0 < d1 && d0 < c1) && !(c0 == c1 && d0 == d1)
        })
    });
    // two different changes that start at one place: whether they can be joined depends on their order
    let tie = lx.iter().any(|c| ly.iter().any(|d| c != d && c.a == d.a && (c.a < c.b) != (d.a < d.b)));
    let mut e = ex.clone();
    let joined = e.union(ey.clone());
    if clash {
        case.label("overlap");
        ensure!(joined.is_err(), "union-accepted", "overlapping edits were joined: {input}");
    } else if !tie {
        ensure!(joined.is_ok(), "union-refused", "disjoint edits were not joined: {input}");
    }
    if joined.is_err() {
        ensure_eq!(list(&e), lx, "union-changed", "a refused union changed the edit: {input}");
        return Ok(());
    }
    case.label("joined");
    sorted(&e, "union-order", &input)?;
    let mut all: Vec<Ch> = lx.clone();
    for d in &ly {
        if d.a == d.b || !lx.contains(d) {
            all.push(d.clone());
        }
    }
    all.sort_by_key(|c| (c.a, c.b));
    let want = model(&t, &all);
    let mut got = t.clone();
    e.apply(&mut got);
    // insertions of both edits at one place come in either order
    let shared = lx.iter().any(|c| c.a == c.b && ly.iter().any(|d| d.a == c.a && d.b == d.a && d != c));
    if shared {
        case.label("insertions at one place");
        let sort = |x: &str| {
            let mut v: Vec<char> = x.chars().collect();
            v.sort();
            v
        };
        ensure_eq!(sort(&got), sort(&want), "union-apply", "{input}");
    } else {
        ensure_eq!(got, want, "union-apply", "{input}");
    }
    // the same through SourceChange, over several files
    let f = |n| FileId::from_raw(n);
    let mut one = SourceChange::from_text_edit(f(1), ex.clone());
    one.insert_source_edit(f(2), ey.clone());
    let mut two = SourceChange::default();
    two.insert_source_edit(f(1), ey.clone());
    let m = one.merge(two);
    ensure_eq!(m.source_file_edits.len(), 2, "merge-files", "{input}");
    let mut g1 = t.clone();
    m.get_source_edit(f(1)).unwrap().apply(&mut g1);
    ensure_eq!(g1, got, "merge", "{input}");
    let mut g2 = t.clone();
    m.get_source_edit(f(2)).unwrap().apply(&mut g2);
    ensure_eq!(g2, model(&t, &ly), "merge-other", "{input}");
    Ok(())
}

fn diff_check(s: &mut Src, case: &mut Case) -> Result<(), Fail> {
    let mut o = Opts::default();
    o.modules = 1;
    o.stmts = 3;
    let w = movegen::world(s, o);
    let k = s.below(w.files.len() as u64) as usize;
    let from = layout::random(&w.files[k], s).text;
    let mut to = from.clone();
    let n = 1 + s.small(6);
    for _ in 0..n {
        mutate(&mut to, &from, s);
    }
    if s.chance(1, 12) {
        to = layout::random(&w.files[s.below(w.files.len() as u64) as usize], s).text;
    }
    case.input(format!("{from}\n---- to\n{to}"));
    if from != to && words(&from).len() > 20 {
        case.nontrivial(true);
    }
    let (p, q) = (SourceFile::parse(&from).tree(), SourceFile::parse(&to).tree());
    let d = tree_diff(p.syntax(), q.syntax());
    if from == to {
        ensure!(d.is_empty(), "diff-equal", "equal trees differ");
    }
    let mut b = TextEdit::builder();
    d.into_text_edit(&mut b);
    let e = b.finish();
    let mut got = p.syntax().text().to_string();
    let want = q.syntax().text().to_string();
    e.apply(&mut got);
    ensure_eq!(got, want, "diff", "the edit of the difference does not lead to the other text");
    case.count("changes", e.len() as u64);
    // a part of the tree against a part of the other
    let pick = |x: &SourceFile, s: &mut Src| {
        let v: Vec<_> = x.syntax().descendants().take(400).collect();
        v[s.below(v.len() as u64) as usize].clone()
    };
    for _ in 0..3 {
        let (x, y) = (pick(&p, s), pick(&q, s));
        if x.text_range().is_empty() {
            continue;
        }
        let d = tree_diff(&x, &y);
        let mut b = TextEdit::builder();
        d.into_text_edit(&mut b);
        let mut got = p.syntax().text().to_string();
        let (a, z) = (usize::from(x.text_range().start()), usize::from(x.text_range().end()));
        let want = format!("{}{}{}", &got[..a], y.text(), &got[z..]);
        b.finish().apply(&mut got);
        ensure_eq!(got, want, "diff-part", "{:?} {a}..{z} replaced by {:?} {:?}", x.kind(), y.kind(), y.text().to_string());
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new("edit-applies-as-listed", "at least two changes of a text of several characters", 20000, 400000, apply_check),
        Check::new("edits-join", "two edits of at least two changes each", 20000, 400000, union_check),
        Check::new("tree-difference", "two different texts of more than 20 words", 4000, 80000, diff_check),
    ]
}

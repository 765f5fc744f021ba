//! C03: a valid program parses without errors, to exactly the intended tree.
use crate::grammar::{Gen, ambiguous_less, print};
use common::{Case, Check, PropResult, Src, ensure};
use syntax::{NodeOrToken, SourceFile, SyntaxNode};

/// `KIND[child child token]` without trivia.
pub fn dump(n: &SyntaxNode, out: &mut String) {
    out.push_str(&format!("{:?}", n.kind()));
    out.push('[');
    let mut first = true;
    for c in n.children_with_tokens() {
        match c {
            NodeOrToken::Node(x) => {
                if !first {
                    out.push(' ');
                }
                first = false;
                dump(&x, out);
            }
            NodeOrToken::Token(t) => {
                if t.kind().is_trivia() {
                    continue;
                }
                if !first {
                    out.push(' ');
                }
                first = false;
                out.push_str(t.text());
            }
        }
    }
    out.push(']');
}

fn structure(s: &mut Src, c: &mut Case) -> PropResult {
    let fuel = 40 + s.below(160) as i32;
    let bare_less = s.chance(1, 3);
    let mut g = Gen { s, spec: false, kinds: Default::default(), fuel, bare_less };
    let t = g.file(4);
    if bare_less && ambiguous_less(&t) {
        c.label("discarded: ambiguous <");
        return Ok(());
    }
    let kinds = std::mem::take(&mut g.kinds);
    let text = print(&t, s);
    c.input(text.clone());
    c.nontrivial(kinds.len() >= 12);
    for k in &kinds {
        c.label(*k);
    }
    let mut want = String::new();
    t.dump(&mut want);
    let parse = SourceFile::parse(&text);
    let errs = parse.errors();
    let mut got = String::new();
    dump(&parse.syntax_node(), &mut got);
    ensure!(
        errs.is_empty(),
        "rejected",
        "a valid program is reported as wrong: {:?}\nintended: {want}\n     got: {got}",
        errs.iter().map(|e| format!("{} at {:?}", e, e.range())).collect::<Vec<_>>()
    );
    if got != want {
        let p = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
        let at = p.saturating_sub(60);
        let cut = |x: &str| x.get(at..).unwrap_or(x).chars().take(200).collect::<String>();
        common::fail!("structure", "parsed to another tree than the text means; first difference:\nintended: …{}\n     got: …{}", cut(&want), cut(&got));
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check::new(
        "structure",
        "a random Move file made production by production together with its intended syntax tree; non-trivial: at least 12 different node kinds",
        120_000,
        3_000_000,
        structure,
    )]
}

//! C16: whatever the text, every question has an answer that keeps the promises of its kind.
//! C12: after any history of edits the answers are those of a fresh analysis of the same text.
use crate::probe::{self, Q, Texts};
use crate::ws::{self, Pack, Ws};
use base_db::change::FileChanges;
use common::*;
use movegen::{Opts, World, layout};

const WORDS: &[&str] = &[
    "module", "script", "fun", "struct", "enum", "const", "use", "friend", "spec", "schema", "public", "entry", "native",
    "inline", "package", "phantom", "has", "copy", "drop", "store", "key", "let", "mut", "if", "else", "while", "loop", "for", "in",
    "match", "return", "abort", "break", "continue", "move", "as", "is", "acquires", "reads", "writes", "pure", "invariant",
    "requires", "ensures", "aborts_if", "aborts_with", "modifies", "emits", "include", "apply", "to", "except", "pragma", "global",
    "local", "forall", "exists", "where", "assert", "assume", "old", "with", "choose", "update", "axiom", "post", "internal",
    "true", "false", "Self", "self", "vector", "address", "signer", "bool", "u8", "u64", "u256", "i64", "0x1", "@0x1", "@std",
    "1", "0u8", "18446744073709551616", "b\"x\"", "x\"0a\"", "'label", "_", "m", "f", "S", "x", "T", "{", "}", "(", ")", "[", "]",
    "<", ">", ",", ";", ":", "::", "=", "==", "=>", "==>", "..", ".", "&", "&mut", "|", "||", "#[test]",
];
const SPACE: [&str; 6] = [" ", "\n", "  ", "/*é*/", "// 名\n", "\t"];

pub fn soup(s: &mut Src, n: u64) -> String {
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(*s.pick(&WORDS));
        t.push_str(if s.chance(1, 12) { *s.pick(&SPACE) } else { " " });
    }
    t
}
fn bound(t: &str, mut o: usize) -> usize {
    o = o.min(t.len());
    while !t.is_char_boundary(o) {
        o -= 1;
    }
    o
}
/// the pieces of the text: words, single other characters, white space runs
pub fn words(t: &str) -> Vec<(usize, usize)> {
    let b = t.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let a = i;
        i += 1;
        if w(b[a]) {
            while i < b.len() && w(b[i]) {
                i += 1;
            }
        } else {
            while !t.is_char_boundary(i) {
                i += 1;
            }
        }
        if !b[a].is_ascii_whitespace() {
            v.push((a, i));
        }
    }
    v
}
/// one random change
pub fn mutate(t: &mut String, other: &str, s: &mut Src) {
    let ws = words(t);
    if ws.is_empty() {
        t.push_str(&soup(s, 3));
        return;
    }
    let (a, b) = *s.pick(&ws);
    match s.below(12) {
        0 | 1 => t.replace_range(a..b, ""),
        2 => {
            let x = t[a..b].to_string();
            t.insert_str(b, &format!(" {x}"));
        }
        3 | 4 => t.insert_str(a, &format!("{} ", s.pick(&WORDS))),
        5 => t.replace_range(a..b, *s.pick(&WORDS)),
        6 => {
            let (c, d) = *s.pick(&ws);
            let x = t[c..d].to_string();
            t.replace_range(a..b, &x);
        }
        7 => {
            // a longer deletion
            let k = ws.iter().position(|w| w.0 == a).unwrap();
            let e = ws[(k + 1 + s.below(12) as usize).min(ws.len() - 1)].1;
            if e > a {
                t.replace_range(a..e, "");
            }
        }
        8 => {
            // the text stops here, as while typing
            let e = bound(t, b);
            t.truncate(e);
        }
        9 => {
            // a piece of the other file
            let ow = words(other);
            if !ow.is_empty() {
                let k = s.below(ow.len() as u64) as usize;
                let e = (k + 1 + s.below(25) as usize).min(ow.len() - 1);
                let x = other[ow[k].0..ow[e].1.max(ow[k].1)].to_string();
                t.insert_str(a, &format!("{x} "));
            }
        }
        10 => {
            let n = s.range(1, 6) as u64;
            let x = soup(s, n);
            t.insert_str(a, &x);
        }
        _ => t.insert_str(b, *s.pick(&["/*", "*/", "//", "\"", "b\"", "x\"", "'", "😀", "é", "\u{a0}", "#[", "`", "$", "\\", "0x"])),
    }
}
/// `include` with `&&` is a known finding of the parser (C02)
fn tame(t: &mut String) {
    if t.contains("include") {
        *t = t.replace("&&", "||");
    }
}

fn packs(w: &World) -> Vec<Pack<'_>> {
    w.pkgs.iter().map(|p| Pack { name: &p.name, lib: p.lib, deps: p.deps.clone(), addrs: p.addrs.clone() }).collect()
}
fn load(w: &World, texts: &[String]) -> Ws {
    let files: Vec<(usize, &str, &str)> =
        w.files.iter().zip(texts).map(|(f, t)| (f.pkg, f.path.as_str(), t.as_str())).collect();
    ws::load(&packs(w), &files)
}
fn show(w: &World, texts: &[String]) -> String {
    w.files.iter().zip(texts).map(|(f, t)| format!("//- {} (package {})\n{t}\n", f.path, w.pkgs[f.pkg].name)).collect()
}
fn world(s: &mut Src) -> (World, Vec<String>) {
    let o = Opts { pkgs: s.range(1, 3), modules: s.range(1, 4), stmts: 3, depth: 3, ..Opts::default() };
    let w = movegen::world(s, o);
    let rnd = s.chance(1, 3);
    let texts = w.files.iter().map(|f| if rnd { layout::random(f, s).text } else { layout::natural(f).text }).collect();
    (w, texts)
}
const SPECS: [&str; 12] = [
    "spec module { pragma verify = true; invariant forall a: address where exists<S>(a): global<S>(a).f == 0; axiom forall x: u64: x + 1 > x; }",
    "spec f { requires x > 0; ensures result == old(x); aborts_if !exists<S>(@0x1) with 1; modifies global<S>(@0x1); let post y = x; }",
    "spec schema Sch<T> { x: T; requires x == x; include Sch<T>; }",
    "spec S { invariant f > 0; }",
    "spec fun g(a: num): bool { a > 0 && forall i in 0..a: i >= 0 }",
    "spec f { include Sch<u64> { x: 1 }; apply Sch<u64> to *<T>, f except g; pragma opaque, aborts_if_is_partial = false; }",
    "fun f(x: u64): u64 { spec { assert x > 0; assume x < 10; }; while (x > 0) { x = x - 1; } spec { invariant x >= 0; }; x }",
    "#[test_only] fun t() {} #[test(a = @0x1, b = @std)] #[expected_failure(abort_code = 1, location = Self)] fun tt(a: &signer, b: signer) { assert!(true, 1); abort 1 }",
    "friend 0x1::m; public(friend) fun p() {} public(package) fun q() {} package fun r() {}",
    "enum E has drop { A, B { x: u64 }, C(u8, bool) } fun e(e: E): u64 { match (e) { E::A => 1, E::B { x } if (x > 0) => x, E::C(a, _) => (a as u64), _ => { 0 } } }",
    "use 0x1::m::{Self, f as g, S}; use std::vector; use 0x1::m::*;",
    "fun l() { let v = vector<u64>[1, 2]; let c = |x, y| x + y; 'a: loop { break 'a }; for (i in 0..10) { v[i] = 1; }; *(&mut v) = vector[]; v.push_back(1u64 as u64); }",
];

fn total(s: &mut Src, c: &mut Case) -> PropResult {
    let (w, mut texts) = world(s);
    let n = texts.len();
    for i in 0..n {
        match s.below(10) {
            0 => texts[i] = { let n = s.range(0, 60) as u64; soup(s, n) },
            1 => {
                let n = s.range(1, 40) as u64;
                texts[i] = format!("module 0x1::m {{ {} }}", soup(s, n));
            }
            2..=4 => {
                let mut t = String::from("module 0x1::m {\nstruct S has key { f: u64 }\n");
                for _ in 0..s.range(1, 5) {
                    t.push_str(*s.pick(&SPECS));
                    t.push('\n');
                }
                texts[i] = t + "}\n";
            }
            5 => {
                // a spec file of the module before
                let x = *s.pick(&SPECS);
                if let Some(k) = texts[i].rfind('}') {
                    texts[i].insert_str(k, x);
                }
            }
            _ => (),
        }
        for _ in 0..s.below(8) {
            let j = s.below(n as u64) as usize;
            let other = texts[j].clone();
            mutate(&mut texts[i], &other, s);
        }
        tame(&mut texts[i]);
    }
    c.input(show(&w, &texts));
    let ws = load(&w, &texts);
    let an = ws.host.analysis();
    let tx = Texts { ids: &ws.files, texts: &texts, builtins: ws.builtins };
    let mut answered = 0u64;
    for _ in 0..s.range(10, 30) {
        let q = probe::question(&texts, s);
        c.input(format!("{}\n--- question {q:?}", show(&w, &texts)));
        let (_, some) = probe::ask(&an, &tx, &q)?;
        if some {
            c.label(q.name());
            answered += 1;
        }
        c.count("questions", 1);
    }
    c.count("answered", answered);
    c.nontrivial(answered >= 3);
    Ok(())
}

fn incremental(s: &mut Src, c: &mut Case) -> PropResult {
    let (w, goal) = world(s);
    let mut texts = goal.clone();
    let n = texts.len();
    for t in &mut texts {
        // what is there at first
        match s.below(4) {
            0 => {
                let e = bound(t, s.below(t.len() as u64 + 1) as usize);
                t.truncate(e);
            }
            1 => t.clear(),
            _ => (),
        }
        tame(t);
    }
    let mut ws = load(&w, &texts);
    let mut log = show(&w, &texts);
    let mut compared = 0u64;
    let mut answered = 0u64;
    for _ in 0..s.range(1, 6) {
        // questions in the middle fill the caches
        {
            let an = ws.host.analysis();
            let tx = Texts { ids: &ws.files, texts: &texts, builtins: ws.builtins };
            for _ in 0..s.below(5) {
                let q = probe::question(&texts, s);
                log.push_str(&format!("--- asked {q:?}\n"));
                c.input(log.clone());
                probe::ask(&an, &tx, &q)?;
            }
        }
        let mut ch = FileChanges::new();
        for _ in 0..s.range(1, 3) {
            let i = s.below(n as u64) as usize;
            match s.below(6) {
                0 => texts[i] = goal[i].clone(),
                1 => {
                    let e = bound(&goal[i], s.below(goal[i].len() as u64 + 1) as usize);
                    texts[i] = goal[i][..e].to_string();
                }
                2 => {
                    // something renamed
                    let ws = words(&texts[i]);
                    let ids: Vec<_> = ws.iter().filter(|(a, b)| b - a > 2 && texts[i].as_bytes()[*a].is_ascii_alphabetic()).collect();
                    if !ids.is_empty() {
                        let (a, b) = **s.pick(&ids);
                        let old = texts[i][a..b].to_string();
                        texts[i] = if s.flip() { texts[i].replace(&old, &format!("{old}_")) } else { texts[i].replacen(&old, &format!("{old}_"), 1) };
                    }
                }
                3 => {
                    // only a comment or white space: positions move, meaning stays
                    let ws = words(&texts[i]);
                    if !ws.is_empty() {
                        let (a, _) = *s.pick(&ws);
                        texts[i].insert_str(a, *s.pick(&["\n\n", " ", "/* é */ ", "\n// x\n"]));
                    }
                }
                _ => {
                    let j = s.below(n as u64) as usize;
                    let other = texts[j].clone();
                    mutate(&mut texts[i], &other, s);
                }
            }
            tame(&mut texts[i]);
            ch.change_file(ws.files[i], Some(texts[i].clone()));
            log.push_str(&format!("--- changed {}\n{}\n", w.files[i].path, texts[i]));
        }
        ws.host.apply_change(ch);
        let fresh = load(&w, &texts);
        let (an, fan) = (ws.host.analysis(), fresh.host.analysis());
        ensure!(fresh.files == ws.files, "harness", "file ids differ");
        let tx = Texts { ids: &ws.files, texts: &texts, builtins: ws.builtins };
        for k in 0..s.range(4, 14) {
            let mut q: Q = probe::question(&texts, s);
            if k == 0 {
                q.kind = 0;
            }
            c.input(format!("{log}--- question {q:?}"));
            let got = probe::ask(&an, &tx, &q)?;
            let want = probe::ask(&fan, &tx, &q)?;
            ensure_eq!(got.0, want.0, format!("stale-{}", q.name()), "{q:?} after the history (left) and on a fresh start (right)");
            compared += 1;
            if got.1 {
                answered += 1;
                c.label(q.name());
            }
        }
    }
    c.count("answers compared", compared);
    c.nontrivial(answered >= 3);
    Ok(())
}

pub fn c16() -> Vec<Check> {
    vec![Check::new("every-question-answered", "at least three questions have a non-empty answer", 4000, 200_000, total)]
}
pub fn c12() -> Vec<Check> {
    vec![Check::new("history-forgotten", "at least three non-empty answers were compared", 3000, 150_000, incremental)]
}

//! C02: any text parses, without loss, deterministically, and with errors that point into the text.
use crate::grammar::{Gen, print};
use crate::structure::dump;
use common::{Case, Check, PropResult, Src, ensure, ensure_eq};
use syntax::{NodeOrToken, SourceFile, SyntaxNode, TextRange, TextSize};

const WORDS: &[&str] = &[
    "module", "script", "address", "fun", "public", "entry", "inline", "native", "friend", "package", "struct", "enum",
    "has", "copy", "drop", "key", "store", "const", "use", "as", "let", "mut", "if", "else", "while", "loop", "for",
    "in", "match", "return", "break", "continue", "abort", "move", "acquires", "spec", "schema", "pragma", "requires",
    "ensures", "aborts_if", "with", "include", "apply", "to", "except", "invariant", "update", "forall", "exists",
    "choose", "min", "where", "assert", "assume", "post", "axiom", "emits", "is", "phantom", "true", "false", "global",
    "local", "internal", "modifies", "old", "vector", "lemma", "proof", "self", "Self", "a", "b", "S", "x1", "_", "__",
    "0x1", "1", "0", "1u8", "0xAFu64", "1_0", "0x", "1u7", "18446744073709551616", "@", "@0x1", "b\"a\"", "b\"",
    "x\"0f\"", "x\"", "\"", "'a", "'", "#", "#[", "(", ")", "{", "}", "[", "]", "<", ">", "::", ":", ";", ",", ".",
    "..", "=", "==", "=>", "==>", "<==>", "!=", "!", "&", "&&", "|", "||", "+", "-", "*", "/", "%", "^", "<<", ">>",
    "<=", ">=", "+=", "-=", "<<=", ">>=", "|=", "&=", "^=", "assert!", "$", "`", "~", "?", "\\", "é", "日本", "😀", "\u{301}",
    "//", "/*", "*/", "///", "/**", "//!", "/* é */", "/*/*", "// x\n", "\n", "\n\n", " ", "\t", "\r", "\u{a0}", "\u{feff}", "\0",
];

fn soup(s: &mut Src, max: usize) -> String {
    let n = s.small(max);
    let mut t = String::new();
    let sep = s.below(3);
    for _ in 0..n {
        t.push_str(s.pick(WORDS));
        if sep == 0 || (sep == 1 && s.flip()) {
            t.push(' ');
        }
    }
    t
}

fn chars(s: &mut Src, max: usize) -> String {
    let n = s.small(max);
    (0..n)
        .map(|_| match s.weighted(&[6, 3, 1, 1, 1]) {
            0 => char::from(32 + s.below(95) as u8),
            1 => *s.pick(&['/', '*', '"', '\'', '\n', '\\', '_', '0', 'x', 'b', '<', '>', '{', '}', '(', ')']),
            2 => char::from(s.below(128) as u8),
            3 => char::from_u32(s.below(0x3000) as u32).unwrap_or('\u{e9}'),
            _ => *s.pick(&['é', '日', '😀', '\u{301}', '\u{200d}', '\u{1f1e6}', '\u{ac00}', '\u{10ffff}', '\r', '\u{2028}', 'ß', '\u{1100}']),
        })
        .collect()
}

pub fn valid(s: &mut Src, fuel: usize) -> String {
    let fuel = 20 + s.idx(fuel) as i32;
    let bare_less = s.flip();
    let mut g = Gen { s, spec: false, kinds: Default::default(), fuel, bare_less };
    let t = g.file(3);
    print(&t, s)
}

fn boundary(s: &mut Src, t: &str) -> usize {
    let mut i = s.idx(t.len() + 1);
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// edits a text the way a typing user does
pub fn mutate(s: &mut Src, t: &mut String) {
    for _ in 0..s.range(1, 4) {
        let a = boundary(s, t);
        let mut b = (a + s.small(40)).min(t.len());
        while !t.is_char_boundary(b) {
            b -= 1;
        }
        match s.below(6) {
            0 => t.replace_range(a..b, ""),
            1 => t.truncate(a),
            2 => {
                let x = soup(s, 4);
                t.insert_str(a, &x);
            }
            3 => {
                let x = s.pick(WORDS).to_string();
                t.replace_range(a..b, &x);
            }
            4 => {
                let x = t[a..b].to_string();
                let c = boundary(s, t);
                t.insert_str(c, &x);
            }
            _ => {
                let x = chars(s, 4);
                t.insert_str(a, &x);
            }
        }
    }
}

pub fn any_text(s: &mut Src, c: &mut Case) -> String {
    match s.weighted(&[2, 3, 1, 5]) {
        0 => {
            c.label("words");
            soup(s, 60)
        }
        1 => {
            c.label("framed words");
            let frame = *s.pick(&[
                ("module 0x1::m { ", " }"), ("module 0x1::m { fun f() { ", " } fun g() {} }"), ("script { fun main() { ", "} }"),
                ("module 0x1::m { spec module { ", " } }"), ("spec m { spec f { ", " } }"), ("module 0x1::m { struct S { ", " } }"),
                ("module 0x1::m { fun f(", ") {} }"), ("module 0x1::m { use ", "; }"), ("module 0x1::m { enum E { ", " } }"),
                ("module 0x1::m { const C: ", "; }"), ("module 0x1::m { fun f() { let ", "; } }"), ("module 0x1::m { fun f<", ">() {} }"),
                ("module 0x1::m { fun f() { match (x) { ", " } } }"), ("module 0x1::m { spec schema S { ", " } }"),
                ("module 0x1::m { fun f() { f(", ") } }"), ("module 0x1::m { #[", "] fun f() {} }"), ("module 0x1::m { fun f(): ", " {} }"),
            ]);
            let body = soup(s, 25);
            let tail = if s.chance(1, 4) { "" } else { frame.1 };
            format!("{}{}{}", frame.0, body, tail)
        }
        2 => {
            c.label("characters");
            chars(s, 80)
        }
        _ => {
            c.label("edited program");
            let mut t = valid(s, 80);
            mutate(s, &mut t);
            t
        }
    }
}

/// Every token covers its text, tokens are not empty and follow each other; nodes nest.
pub fn check_tree(root: &SyntaxNode, text: &str) -> PropResult {
    ensure_eq!(root.text_range(), TextRange::up_to(TextSize::of(text)), "root-range", "the tree does not cover the text");
    let mut pos = 0usize;
    let mut out = String::new();
    for el in root.descendants_with_tokens() {
        match el {
            NodeOrToken::Token(t) => {
                let r = t.text_range();
                ensure!(usize::from(r.start()) == pos, "tiling", "token {t:?} starts at {} and not at {pos}", usize::from(r.start()));
                ensure!(!r.is_empty(), "empty-token", "empty token {t:?}");
                pos = r.end().into();
                out.push_str(t.text());
            }
            NodeOrToken::Node(n) => {
                if let Some(p) = n.parent() {
                    ensure!(p.text_range().contains_range(n.text_range()), "nesting", "{n:?} is not inside {p:?}");
                }
            }
        }
    }
    ensure_eq!(out, text, "lossless", "the tree's text is not the input");
    Ok(())
}

/// Recorded finding: in a spec, `include` of an expression that starts like `a && ..` but is not a
/// schema conjunction panics (a parser marker is dropped). Only a dropped marker that goes away when
/// the word `include` does is attributed to it.
fn parse(text: &str) -> Result<syntax::Parse, common::engine::Fail> {
    match common::engine::guarded(|| SourceFile::parse(text)) {
        Ok(p) => Ok(p),
        Err(f) => {
            if f.msg.contains("Marker must be either completed or abandoned")
                && text.contains("&&")
                && text.contains("include")
                && common::engine::guarded(|| SourceFile::parse(&text.replace("include", "inc_ude"))).is_ok()
            {
                return Err(common::engine::Fail::new("include-and-marker", f.msg));
            }
            Err(f)
        }
    }
}

fn any_text_parses(s: &mut Src, c: &mut Case) -> PropResult {
    let text = any_text(s, c);
    c.input(format!("{text:?}"));
    let parse = self::parse(&text)?;
    let root = parse.syntax_node();
    let errs = parse.errors();
    c.nontrivial(!errs.is_empty() && root.descendants().count() > 5);
    if errs.is_empty() {
        c.label("no errors");
    }
    check_tree(&root, &text)?;
    for e in &errs {
        let r = e.range();
        ensure!(usize::from(r.end()) <= text.len(), "error-range", "error {e} at {r:?} is outside the text of length {}", text.len());
        ensure!(
            text.is_char_boundary(r.start().into()) && text.is_char_boundary(r.end().into()),
            "error-boundary",
            "error {e} at {r:?} splits a character"
        );
        ensure!(!e.to_string().trim().is_empty(), "error-message", "error without a message at {r:?}");
    }
    // parsing is a function of the text
    let again = SourceFile::parse(&text);
    ensure!(again == parse, "deterministic", "two parses of one text differ");
    // whole-token error nodes: text that is not in any item must be reported
    if root.descendants().any(|n| format!("{:?}", n.kind()) == "ERROR" && !n.text_range().is_empty()) {
        ensure!(!errs.is_empty(), "silent-error", "the tree has error nodes but no error is reported");
    }
    if root.descendants_with_tokens().any(|n| format!("{:?}", n.kind()) == "BAD_CHARACTER") {
        ensure!(!errs.is_empty(), "silent-bad-character", "a bad character is accepted");
    }
    // an edit followed by a reparse is a parse of the edited text
    let a = boundary(s, &text);
    let b = boundary(s, &text);
    let (a, b) = (a.min(b), a.max(b));
    let ins = soup(s, 3);
    let mut edited = text.clone();
    edited.replace_range(a..b, &ins);
    let fresh = self::parse(&edited)?;
    let re = parse.reparse(TextRange::new((a as u32).into(), (b as u32).into()), &ins);
    ensure!(re == fresh, "reparse", "reparse({a}..{b}, {ins:?}) differs from parsing {edited:?}");
    Ok(())
}

// ------------------------------------------------------------------ reference lexer
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
enum Class {
    Ws,
    Comment,
    Word,
    Num,
    Str,
    Label,
}

/// the tokens of the language that have contents; punctuation is left out
fn reference_tokens(t: &str) -> Vec<(Class, usize, usize)> {
    let b: Vec<char> = t.chars().collect();
    let offs: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    let idc = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let st = i;
        let c = b[i];
        let class = if " \t\n".contains(c) {
            while i < b.len() && " \t\n".contains(b[i]) {
                i += 1;
            }
            Some(Class::Ws)
        } else if c == '/' && at(i + 1) == '/' {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            Some(Class::Comment)
        } else if c == '/' && at(i + 1) == '*' {
            let mut depth = 0;
            loop {
                if i >= b.len() {
                    break;
                }
                if b[i] == '/' && at(i + 1) == '*' {
                    depth += 1;
                    i += 2;
                } else if b[i] == '*' && at(i + 1) == '/' {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
            i = i.min(b.len());
            Some(Class::Comment)
        } else if (c == 'x' || c == 'b') && at(i + 1) == '"' {
            i += 2;
            if c == 'x' {
                while at(i).is_ascii_alphanumeric() {
                    i += 1;
                }
                if at(i) == '"' {
                    i += 1;
                }
            } else {
                let mut closed = None;
                let mut j = i;
                while j < b.len() && b[j] != '\n' {
                    if b[j] == '\\' && j + 1 < b.len() && b[j + 1] != '\n' {
                        j += 2;
                    } else if b[j] == '\\' {
                        break;
                    } else if b[j] == '"' {
                        closed = Some(j + 1);
                        break;
                    } else {
                        j += 1;
                    }
                }
                i = closed.unwrap_or_else(|| {
                    let mut j = i;
                    while j < b.len() && b[j] != '\n' {
                        j += 1;
                    }
                    j
                });
            }
            Some(Class::Str)
        } else if c.is_ascii_digit() {
            let mut suffix = true;
            if c == '0' && at(i + 1) == 'x' {
                i += 2;
                let h = i;
                while at(i).is_ascii_hexdigit() || at(i) == '_' {
                    i += 1;
                }
                let rest: String = b[i..].iter().take(4).collect();
                let has = ["u8", "u16", "u32", "u64", "u128", "u256", "i8", "i16", "i32", "i64", "i128", "i256"].iter().any(|x| rest.starts_with(x));
                if i == h && !has {
                    i = h - 1;
                    suffix = false;
                }
            } else {
                while at(i).is_ascii_digit() || at(i) == '_' {
                    i += 1;
                }
            }
            if suffix {
                let rest: String = b[i..].iter().take(4).collect();
                for x in ["u128", "u256", "i128", "i256", "u16", "u32", "u64", "i16", "i32", "i64", "u8", "i8"] {
                    if rest.starts_with(x) {
                        i += x.len();
                        break;
                    }
                }
            }
            Some(Class::Num)
        } else if idc(c) {
            while idc(at(i)) {
                i += 1;
            }
            Some(Class::Word)
        } else if c == '\'' && (at(i + 1).is_ascii_alphabetic() || at(i + 1) == '_') {
            i += 1;
            while idc(at(i)) {
                i += 1;
            }
            Some(Class::Label)
        } else {
            i += 1;
            None
        };
        if let Some(k) = class {
            v.push((k, offs[st], offs[i]));
        }
    }
    v
}

fn lexing(s: &mut Src, c: &mut Case) -> PropResult {
    const BITS: &[&str] = &[
        "a", "abc", "x", "b", "_", "x1", "0", "1", "12_3", "0x", "0xfF", "0x_1", "u8", "u64", "u128", "u256", "i8", "i16", "u7", "1u8", "0xau16",
        "0u", "\"", "\\\"", "\\", "\\\\", "b\"", "x\"", "b\"a\"", "x\"0a\"", "x\"zz\"", "'", "'a", "'_1", "//", "/*", "*/", "/", "*", "/**/", "/***/", "/*/",
        "é", "日", "😀", "ß", "\n", "\n\n", " ", "\t", "(", ")", "{", "}", ".", "..", ":", "::", "<", ">", "=", "!", "|", "&", "-", "#", "@", "$",
        "fun", "mut", "let", "spec", "as",
    ];
    let n = s.small(24);
    let mut text = String::new();
    for _ in 0..n {
        text.push_str(s.pick(BITS));
        if s.chance(1, 4) {
            text.push(' ');
        }
    }
    if s.chance(1, 3) {
        text = format!("module 0x1::m {{ fun f() {{ {text}\n}} }}");
    }
    c.input(format!("{text:?}"));
    let want = reference_tokens(&text);
    c.nontrivial(want.iter().filter(|x| x.0 != Class::Ws).count() >= 4);
    let root = SourceFile::parse(&text).syntax_node();
    let mut toks = vec![];
    for t in root.descendants_with_tokens().filter_map(|e| e.into_token()) {
        let r = t.text_range();
        toks.push((usize::from(r.start()), usize::from(r.end()), format!("{:?}", t.kind()), t.text().to_string()));
    }
    for (class, a, b) in want {
        let piece = &text[a..b];
        c.label(format!("{class:?}"));
        let Some(t) = toks.iter().find(|t| t.0 == a && t.1 == b) else {
            common::fail!("token", "{class:?} {piece:?} at {a}..{b} is not one token; the tokens are {toks:?}");
        };
        let ok = match class {
            Class::Ws => t.2 == "WHITESPACE",
            Class::Comment => t.2 == "COMMENT",
            Class::Num => t.2 == "INT_NUMBER" || t.2 == "IDENT",
            Class::Str => t.2 == if piece.starts_with('x') { "HEX_STRING" } else { "BYTE_STRING" },
            Class::Label => t.2 == "QUOTE_IDENT",
            Class::Word => t.2 == "IDENT" || t.2 == "UNDERSCORE" || t.2.ends_with("_KW"),
        };
        ensure!(ok, "token-kind", "{class:?} {piece:?} at {a} is lexed as {}", t.2);
    }
    Ok(())
}

// ------------------------------------------------------------------ damage stays local
/// A broken function body does not change how the other items of the module are read.
fn recovery(s: &mut Src, c: &mut Case) -> PropResult {
    let mut items: Vec<String> = vec![];
    let n = s.range(1, 5);
    for i in 0..n {
        let fuel = 30;
        let x = match s.below(4) {
            0 => format!("struct S{i} {{ a: u8 }}"),
            1 => format!("const C{i}: u8 = 1;"),
            2 => format!("public fun f{i}(a: u8): u8 {{ a + {i} }}"),
            _ => {
                let mut g = Gen { s, spec: false, kinds: Default::default(), fuel, bare_less: false };
                let t = g.fun(2);
                print(&t, g.s)
            }
        };
        items.push(x);
    }
    let at = s.idx(n + 1);
    let m = s.range(1, 12);
    const JUNK: &[&str] = &[
        "a", "b", "1", ".", "::", ",", ";", "=", "+", "-", "&", "mut", "let", "let x", "if", "else", "while", "return", "a.", "a::", "a(", ")", "(", "a<",
        "[", "]", "if (", "a =", "match", "vector", "as", "abort", "loop", "*", "|", "!", "==", "x:", "@",
    ];
    let mut body = String::new();
    for _ in 0..m {
        body.push_str(s.pick(JUNK));
        body.push(' ');
    }
    c.input(format!("{body:?} at {at} of {items:?}"));
    let whole = |with: Option<&str>| {
        let mut t = String::from("module 0x1::m {\n");
        for (i, x) in items.iter().enumerate() {
            if i == at {
                if let Some(b) = with {
                    t.push_str(&format!("fun broken() {{ {b} }}\n"));
                }
            }
            t.push_str(x);
            t.push('\n');
        }
        if at == items.len() {
            if let Some(b) = with {
                t.push_str(&format!("fun broken() {{ {b} }}\n"));
            }
        }
        t.push_str("}\nmodule 0x1::other { fun last() {} }\n");
        t
    };
    let collect = |t: &str| {
        let p = SourceFile::parse(t);
        let root = p.syntax_node();
        let mut v: Vec<String> = vec![];
        for m in root.children() {
            v.push(format!("{:?}", m.kind()));
            for i in m.children() {
                if i.text().to_string().contains("fun broken()") {
                    continue;
                }
                let mut d = String::new();
                dump(&i, &mut d);
                v.push(d);
            }
        }
        (v, p.errors().len())
    };
    let (want, e0) = collect(&whole(None));
    ensure!(e0 == 0, "generator", "the undamaged items have errors");
    let text = whole(Some(&body));
    let (got, e1) = collect(&text);
    c.nontrivial(e1 > 0 && n > 1);
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        common::fail!("recovery", "a broken function body changes another item:\n{text}\nwithout: {:?}\n   with: {:?}", want.get(i), got.get(i));
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check::new(
            "any_text",
            "texts from words, framed words, raw characters and edited valid programs; non-trivial: the text has syntax errors and more than 5 nodes",
            120_000,
            6_000_000,
            any_text_parses,
        )
        .total(),
        Check::new("lexing", "random glued pieces against a reference lexer; non-trivial: at least 4 tokens other than whitespace", 60_000, 3_000_000, lexing),
        Check::new(
            "recovery",
            "a module of valid items plus one function whose body is random tokens without braces or item keywords; non-trivial: the body is an error and other items exist",
            30_000,
            1_000_000,
            recovery,
        ),
    ]
}

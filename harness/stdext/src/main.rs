use common::{Case, Check, PropResult, Src, ensure, ensure_eq, main_entry};
use stdext::line_endings::LineEndings;

/// The obvious reference: scan characters, drop a `\r` that is directly followed by `\n`.
fn model(s: &str) -> (String, bool) {
    let cs: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut crlf = false;
    for (i, c) in cs.iter().enumerate() {
        if *c == '\r' && cs.get(i + 1) == Some(&'\n') {
            crlf = true;
        } else {
            out.push(*c);
        }
    }
    (out, crlf)
}

fn gen_text(s: &mut Src) -> String {
    // shape: alphabets and lengths that matter for the vectorised search and the in-place gap move
    let style = s.weighted(&[4, 2, 2, 1]);
    let len = match s.weighted(&[6, 4, 2, 1]) {
        0 => s.range(0, 12),
        1 => s.range(0, 64),
        2 => s.range(0, 400),
        _ => s.range(0, 5000),
    };
    let mut t = String::new();
    let pieces: &[&str] = match style {
        0 => &["a", "\n", "\r", "\r\n", "é", "😀"],
        1 => &["\r\n", "\n", "\r", "\r\r\n", "\n\r"],
        2 => &["aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "\r\n", "b", "日本", "\u{2028}", "\u{85}", "\0"],
        _ => &["module 0x1::m {", "\r\n", "\n", "}", "  ", "\t", "// ж", "\r"],
    };
    for _ in 0..len {
        t.push_str(s.pick(pieces));
    }
    t
}

fn line_endings(s: &mut Src, c: &mut Case) -> PropResult {
    let text = gen_text(s);
    c.input(format!("{text:?}"));
    let (want, crlf) = model(&text);
    c.nontrivial(crlf && text.chars().any(|c| c != '\r' && c != '\n'));
    c.label(if crlf { "has-crlf" } else { "no-crlf" });
    if text.replace("\r\n", "").contains('\r') {
        c.label("lone-cr");
    }
    if crlf && text.replace("\r\n", "").contains('\n') {
        c.label("mixed");
    }
    let (got, ending) = LineEndings::normalize(text.clone());
    ensure!(std::str::from_utf8(got.as_bytes()).is_ok(), "utf8", "normalised text is not UTF-8");
    ensure_eq!(got, want, "normalised-text", "normalize({text:?})");
    ensure_eq!(ending == LineEndings::Dos, crlf, "detected-ending", "normalize({text:?}) detects {ending:?}");
    // idempotent on text without CRLF; `\r\r\n` collapses one step at a time
    let (again, e2) = LineEndings::normalize(got.clone());
    let (want2, crlf2) = model(&got);
    ensure_eq!(again, want2, "normalised-again", "second normalize of {got:?}");
    ensure_eq!(e2 == LineEndings::Dos, crlf2, "detected-again", "second normalize of {got:?}");
    // writing back: every `\n` becomes the file's own line ending, nothing else changes
    let back = ending.map(got.clone());
    let want_back: String = got
        .chars()
        .map(|ch| if ch == '\n' && ending == LineEndings::Dos { "\r\n".to_string() } else { ch.to_string() })
        .collect();
    ensure_eq!(back, want_back, "map", "map({got:?}) with {ending:?}");
    // text whose line endings are uniform survives the round trip
    let lf_only = !text.contains('\r');
    let crlf_only = !text.replace("\r\n", "").contains(['\r', '\n']);
    if lf_only || crlf_only {
        c.label("uniform");
        ensure_eq!(back, text, "round-trip", "uniform line endings must survive load + store");
    }
    // and re-loading what was written gives the same document
    if !got.contains('\r') {
        let (reload, e3) = LineEndings::normalize(back);
        ensure_eq!(reload, got, "reload", "reload of the stored text");
        ensure!(e3 == ending || !got.contains('\n'), "reload-ending", "ending changes from {ending:?} to {e3:?}");
    }
    for (ending, nl) in [(LineEndings::Unix, "\n"), (LineEndings::Dos, "\r\n")] {
        let m = ending.map(got.clone());
        ensure_eq!(m, got.split('\n').collect::<Vec<_>>().join(nl), "map-any", "map({got:?}) with {ending:?}");
    }
    Ok(())
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let checks = match id.as_str() {
        "C01" => vec![
            Check::new(
                "line_endings",
                "texts of 0-5000 pieces mixing CRLF, LF, lone CR, multi-byte and long runs; non-trivial: contains a CRLF and other text",
                60_000,
                5_000_000,
                line_endings,
            ),
        ],
        _ => panic!("unknown property {id}"),
    };
    main_entry(&id, checks)
}

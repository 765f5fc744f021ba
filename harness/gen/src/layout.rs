use crate::*;

/// Text of a file with the offsets of its pieces.
#[derive(Clone, Debug)]
pub struct Laid {
    pub text: String,
    /// byte range of each piece
    pub at: Vec<(usize, usize)>,
}

fn wordy(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '\'' || c == '"'
}

/// must something stand between the two tokens?
pub fn must_separate(a: &str, b: &str) -> bool {
    let (Some(x), Some(y)) = (a.chars().last(), b.chars().next()) else { return false };
    if wordy(x) && wordy(y) {
        return true;
    }
    // operators that could grow together
    if x == '>' && y == '>' {
        return false;
    }
    let ops = "=<>&|!+-*/%^.:#";
    ops.contains(x) && ops.contains(y)
}

/// The way a formatter would write it: blanks between tokens, a line per statement.
pub fn natural(f: &FileStream) -> Laid {
    let mut text = String::new();
    let mut at = vec![];
    let mut depth = 0usize;
    let mut parens = 0usize;
    let ps = &f.pieces;
    for (i, p) in ps.iter().enumerate() {
        let prev = if i > 0 { ps[i - 1].text.as_str() } else { "" };
        if p.text == "}" {
            depth = depth.saturating_sub(1);
        }
        if i > 0 {
            let nl = prev.starts_with("///")
                || p.text.starts_with("///")
                || parens == 0
                    && (prev == "{" && p.text != "}"
                        || prev == ";"
                        || prev == "}" && !matches!(p.text.as_str(), "else" | ";" | "," | ")" | "=" | "has" | "." | "==" | "!=")
                        || p.text == "}" && prev != "{");
            if nl {
                text.push('\n');
                for _ in 0..depth {
                    text.push_str("    ");
                }
            } else if !p.tight && !(prev == "(" || prev == "[") || must_separate(prev, &p.text) && !(p.tight && glued(prev, &p.text)) {
                text.push(' ');
            }
        }
        let a = text.len();
        text.push_str(&p.text);
        at.push((a, text.len()));
        match p.text.as_str() {
            "{" => depth += 1,
            "(" => parens += 1,
            ")" => parens = parens.saturating_sub(1),
            _ => {}
        }
    }
    text.push('\n');
    Laid { text, at }
}

fn glued(_a: &str, b: &str) -> bool {
    // `~` tokens were placed by the generator: only word characters would merge
    let _ = b;
    false
}

/// Arbitrary whitespace and comments between the tokens.
pub fn random(f: &FileStream, s: &mut common::Src) -> Laid {
    let mut text = String::new();
    let mut at = vec![];
    let ps = &f.pieces;
    let gap = |s: &mut common::Src| -> String {
        match s.weighted(&[8, 4, 2, 2, 1, 1, 1, 1]) {
            0 => " ".into(),
            1 => "\n".into(),
            2 => "\n\n    ".into(),
            3 => "\t".into(),
            4 => " /* c */ ".into(),
            5 => " // x: u8 {\n".into(),
            6 => " /* ü 名 /* nested */ */".into(),
            _ => "  \n  ".into(),
        }
    };
    if s.chance(1, 4) {
        text.push_str(&gap(s));
    }
    for (i, p) in ps.iter().enumerate() {
        if i > 0 {
            let prev = ps[i - 1].text.as_str();
            if prev.starts_with("///") {
                text.push('\n');
            } else if must_separate(prev, &p.text) || !s.chance(1, 2) || p.text.starts_with("///") {
                text.push_str(&gap(s));
            }
        }
        let a = text.len();
        text.push_str(&p.text);
        at.push((a, text.len()));
    }
    text.push_str(&gap(s));
    Laid { text, at }
}

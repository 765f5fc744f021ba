//! Stand-in for the crates.io `line-index` crate (simple, table-free implementation).
pub use text_size::{TextRange, TextSize};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct LineCol {
    pub line: u32,
    pub col: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum WideEncoding {
    Utf16,
    Utf32,
}
impl WideEncoding {
    pub fn measure(&self, text: &str) -> usize {
        match self {
            WideEncoding::Utf16 => text.encode_utf16().count(),
            WideEncoding::Utf32 => text.chars().count(),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct WideLineCol {
    pub line: u32,
    pub col: u32,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct WideChar {
    start: u32,
    end: u32,
}
impl WideChar {
    fn len8(&self) -> u32 {
        self.end - self.start
    }
    fn wide_len(&self, enc: WideEncoding) -> u32 {
        match enc {
            WideEncoding::Utf16 => {
                if self.len8() == 4 {
                    2
                } else {
                    1
                }
            }
            WideEncoding::Utf32 => 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LineIndex {
    newlines: Box<[TextSize]>,
    wide: HashMap<u32, Box<[WideChar]>>,
    len: TextSize,
}

impl LineIndex {
    pub fn new(text: &str) -> LineIndex {
        let mut newlines = vec![];
        let mut wide: HashMap<u32, Vec<WideChar>> = HashMap::new();
        let mut line = 0u32;
        let mut line_start = 0u32;
        for (i, c) in text.char_indices() {
            let i = i as u32;
            if c == '\n' {
                newlines.push(TextSize::new(i + 1));
                line += 1;
                line_start = i + 1;
            } else if c.len_utf8() > 1 {
                let s = i - line_start;
                wide.entry(line).or_default().push(WideChar { start: s, end: s + c.len_utf8() as u32 });
            }
        }
        LineIndex {
            newlines: newlines.into_boxed_slice(),
            wide: wide.into_iter().map(|(k, v)| (k, v.into_boxed_slice())).collect(),
            len: TextSize::of(text),
        }
    }
    pub fn line_col(&self, offset: TextSize) -> LineCol {
        self.try_line_col(offset).expect("invalid offset")
    }
    pub fn try_line_col(&self, offset: TextSize) -> Option<LineCol> {
        if offset > self.len {
            return None;
        }
        let line = self.newlines.partition_point(|&it| it <= offset);
        let start = self.start_offset(line)?;
        let col = offset - start;
        let ret = LineCol { line: line as u32, col: col.into() };
        if let Some(ws) = self.wide.get(&ret.line) {
            if ws.iter().any(|w| w.start < ret.col && ret.col < w.end) {
                return None;
            }
        }
        Some(ret)
    }
    pub fn offset(&self, lc: LineCol) -> Option<TextSize> {
        self.start_offset(lc.line as usize).and_then(|s| s.checked_add(TextSize::from(lc.col)))
    }
    fn start_offset(&self, line: usize) -> Option<TextSize> {
        match line.checked_sub(1) {
            None => Some(TextSize::from(0)),
            Some(it) => self.newlines.get(it).copied(),
        }
    }
    pub fn to_wide(&self, enc: WideEncoding, lc: LineCol) -> Option<WideLineCol> {
        let mut col = lc.col;
        if let Some(ws) = self.wide.get(&lc.line) {
            for c in ws.iter() {
                if c.end <= lc.col {
                    col = col.checked_sub(c.len8() - c.wide_len(enc))?;
                } else {
                    break;
                }
            }
        }
        Some(WideLineCol { line: lc.line, col })
    }
    pub fn to_utf8(&self, enc: WideEncoding, lc: WideLineCol) -> Option<LineCol> {
        let mut col = lc.col;
        if let Some(ws) = self.wide.get(&lc.line) {
            for c in ws.iter() {
                if col > c.start {
                    col = col.checked_add(c.len8() - c.wide_len(enc))?;
                } else {
                    break;
                }
            }
        }
        Some(LineCol { line: lc.line, col })
    }
    pub fn line(&self, line: u32) -> Option<TextRange> {
        let start = self.start_offset(line as usize)?;
        let next_newline = self.newlines.get(line as usize).copied().unwrap_or(self.len);
        let line_length = next_newline - start;
        Some(TextRange::new(start, start + line_length))
    }
    pub fn lines(&self, range: TextRange) -> impl Iterator<Item = TextRange> + '_ {
        let lo = self.newlines.partition_point(|&it| it < range.start());
        let hi = self.newlines.partition_point(|&it| it <= range.end());
        let all = std::iter::once(range.start())
            .chain(self.newlines[lo..hi].iter().copied())
            .chain(std::iter::once(range.end()));
        all.clone().zip(all.skip(1)).map(|(lo, hi)| TextRange::new(lo, hi)).filter(|it| !it.is_empty())
    }
    pub fn len(&self) -> TextSize {
        self.len
    }
}

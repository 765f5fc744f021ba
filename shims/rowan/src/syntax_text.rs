use crate::cursor::{SyntaxNode, SyntaxToken};
use std::fmt;
use text_size::{TextRange, TextSize};

#[derive(Clone)]
pub struct SyntaxText {
    node: SyntaxNode,
    range: TextRange,
}
impl SyntaxText {
    pub(crate) fn new(node: SyntaxNode) -> SyntaxText {
        let range = node.text_range();
        SyntaxText { node, range }
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.try_for_each_chunk(|chunk| if chunk.contains(c) { Err(()) } else { Ok(()) }).is_err()
    }
    pub fn find_char(&self, c: char) -> Option<TextSize> {
        let mut acc: TextSize = 0.into();
        let res = self.try_for_each_chunk(|chunk| {
            if let Some(pos) = chunk.find(c) {
                let pos: TextSize = (pos as u32).into();
                return Err(acc + pos);
            }
            acc += TextSize::of(chunk);
            Ok(())
        });
        res.err()
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        let mut start: TextSize = 0.into();
        let res = self.try_for_each_chunk(|chunk| {
            let end = start + TextSize::of(chunk);
            if start <= offset && offset < end {
                let off: usize = u32::from(offset - start) as usize;
                return Err(chunk[off..].chars().next().unwrap());
            }
            start = end;
            Ok(())
        });
        res.err()
    }
    pub fn slice<R: SyntaxTextRange>(&self, range: R) -> SyntaxText {
        let start = range.start().unwrap_or_default();
        let end = range.end().unwrap_or(self.len());
        assert!(start <= end);
        let len = end - start;
        let start = self.range.start() + start;
        let end = start + len;
        assert!(start <= end, "invalid slice, range: {:?}, slice: {:?}", self.range, (start, end));
        let range = TextRange::new(start, end);
        assert!(self.range.contains_range(range), "invalid slice, range: {:?}, slice: {:?}", self.range, range);
        SyntaxText { node: self.node.clone(), range }
    }
    pub fn try_fold_chunks<T, F, E>(&self, init: T, mut f: F) -> Result<T, E>
    where
        F: FnMut(T, &str) -> Result<T, E>,
    {
        let mut acc = init;
        for (token, range) in self.tokens_with_ranges() {
            acc = f(acc, &token.text()[range])?;
        }
        Ok(acc)
    }
    pub fn try_for_each_chunk<F: FnMut(&str) -> Result<(), E>, E>(&self, mut f: F) -> Result<(), E> {
        self.try_fold_chunks((), move |(), chunk| f(chunk))
    }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) {
        let _ = self.try_for_each_chunk(|chunk| {
            f(chunk);
            Ok::<(), ()>(())
        });
    }
    fn tokens_with_ranges(&self) -> impl Iterator<Item = (SyntaxToken, TextRange)> {
        let text_range = self.range;
        self.node.descendants_with_tokens().filter_map(|el| el.into_token()).filter_map(move |token| {
            let token_range = token.text_range();
            let range = text_range.intersect(token_range)?;
            Some((token, range - token_range.start()))
        })
    }
}
impl fmt::Debug for SyntaxText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.to_string(), f)
    }
}
impl fmt::Display for SyntaxText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.try_for_each_chunk(|chunk| fmt::Display::fmt(chunk, f))
    }
}
impl From<SyntaxText> for String {
    fn from(text: SyntaxText) -> String {
        text.to_string()
    }
}
impl PartialEq<str> for SyntaxText {
    fn eq(&self, rhs: &str) -> bool {
        self.to_string() == rhs
    }
}
impl PartialEq<SyntaxText> for str {
    fn eq(&self, rhs: &SyntaxText) -> bool {
        rhs == self
    }
}
impl PartialEq<&'_ str> for SyntaxText {
    fn eq(&self, rhs: &&str) -> bool {
        self == *rhs
    }
}
impl PartialEq<SyntaxText> for &'_ str {
    fn eq(&self, rhs: &SyntaxText) -> bool {
        rhs == self
    }
}
impl PartialEq for SyntaxText {
    fn eq(&self, other: &SyntaxText) -> bool {
        self.to_string() == other.to_string()
    }
}
impl Eq for SyntaxText {}

pub trait SyntaxTextRange {
    fn start(&self) -> Option<TextSize>;
    fn end(&self) -> Option<TextSize>;
}
impl SyntaxTextRange for TextRange {
    fn start(&self) -> Option<TextSize> {
        Some(TextRange::start(*self))
    }
    fn end(&self) -> Option<TextSize> {
        Some(TextRange::end(*self))
    }
}
impl SyntaxTextRange for std::ops::Range<TextSize> {
    fn start(&self) -> Option<TextSize> {
        Some(self.start)
    }
    fn end(&self) -> Option<TextSize> {
        Some(self.end)
    }
}
impl SyntaxTextRange for std::ops::RangeFrom<TextSize> {
    fn start(&self) -> Option<TextSize> {
        Some(self.start)
    }
    fn end(&self) -> Option<TextSize> {
        None
    }
}
impl SyntaxTextRange for std::ops::RangeTo<TextSize> {
    fn start(&self) -> Option<TextSize> {
        None
    }
    fn end(&self) -> Option<TextSize> {
        Some(self.end)
    }
}
impl SyntaxTextRange for std::ops::RangeFull {
    fn start(&self) -> Option<TextSize> {
        None
    }
    fn end(&self) -> Option<TextSize> {
        None
    }
}

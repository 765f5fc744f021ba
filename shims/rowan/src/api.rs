//! Typed wrappers.
use crate::cursor;
use crate::green::{GreenNode, GreenNodeData, GreenToken, GreenTokenData};
use crate::syntax_text::SyntaxText;
use crate::utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent};
use crate::SyntaxKind;
use std::borrow::Cow;
use std::fmt;
use std::marker::PhantomData;
use std::ops::Range;
use text_size::{TextRange, TextSize};

pub trait Language: Sized + Copy + fmt::Debug + Eq + Ord + std::hash::Hash {
    type Kind: Sized + Copy + fmt::Debug + Eq + Ord + std::hash::Hash;
    fn kind_from_raw(raw: SyntaxKind) -> Self::Kind;
    fn kind_to_raw(kind: Self::Kind) -> SyntaxKind;
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxNode<L: Language> {
    raw: cursor::SyntaxNode,
    _p: PhantomData<L>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SyntaxToken<L: Language> {
    raw: cursor::SyntaxToken,
    _p: PhantomData<L>,
}
pub type SyntaxElement<L> = NodeOrToken<SyntaxNode<L>, SyntaxToken<L>>;

impl<L: Language> fmt::Debug for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            let mut level = 0;
            for event in self.preorder_with_tokens() {
                match event {
                    WalkEvent::Enter(element) => {
                        for _ in 0..level {
                            write!(f, "  ")?;
                        }
                        match element {
                            NodeOrToken::Node(node) => writeln!(f, "{:?}", node)?,
                            NodeOrToken::Token(token) => writeln!(f, "{:?}", token)?,
                        }
                        level += 1;
                    }
                    WalkEvent::Leave(_) => level -= 1,
                }
            }
            assert_eq!(level, 0);
            Ok(())
        } else {
            write!(f, "{:?}@{:?}", self.kind(), self.text_range())
        }
    }
}
impl<L: Language> fmt::Display for SyntaxNode<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.raw, f)
    }
}
impl<L: Language> fmt::Debug for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?}", self.kind(), self.text_range())?;
        if self.text().len() < 25 {
            return write!(f, " {:?}", self.text());
        }
        let text = self.text();
        for idx in 21..25 {
            if text.is_char_boundary(idx) {
                let text = format!("{} ...", &text[..idx]);
                return write!(f, " {:?}", text);
            }
        }
        unreachable!()
    }
}
impl<L: Language> fmt::Display for SyntaxToken<L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.raw, f)
    }
}
impl<L: Language> From<SyntaxNode<L>> for SyntaxElement<L> {
    fn from(n: SyntaxNode<L>) -> Self {
        NodeOrToken::Node(n)
    }
}
impl<L: Language> From<SyntaxToken<L>> for SyntaxElement<L> {
    fn from(t: SyntaxToken<L>) -> Self {
        NodeOrToken::Token(t)
    }
}
fn node<L: Language>(raw: cursor::SyntaxNode) -> SyntaxNode<L> {
    SyntaxNode { raw, _p: PhantomData }
}
fn token<L: Language>(raw: cursor::SyntaxToken) -> SyntaxToken<L> {
    SyntaxToken { raw, _p: PhantomData }
}
fn element<L: Language>(raw: cursor::SyntaxElement) -> SyntaxElement<L> {
    match raw {
        NodeOrToken::Node(n) => NodeOrToken::Node(node(n)),
        NodeOrToken::Token(t) => NodeOrToken::Token(token(t)),
    }
}
fn raw_element<L: Language>(el: SyntaxElement<L>) -> cursor::SyntaxElement {
    match el {
        NodeOrToken::Node(n) => NodeOrToken::Node(n.raw),
        NodeOrToken::Token(t) => NodeOrToken::Token(t.raw),
    }
}
impl<L: Language> From<cursor::SyntaxNode> for SyntaxNode<L> {
    fn from(raw: cursor::SyntaxNode) -> Self {
        node(raw)
    }
}
impl<L: Language> From<cursor::SyntaxToken> for SyntaxToken<L> {
    fn from(raw: cursor::SyntaxToken) -> Self {
        token(raw)
    }
}

impl<L: Language> SyntaxNode<L> {
    pub fn new_root(green: GreenNode) -> SyntaxNode<L> {
        node(cursor::SyntaxNode::new_root(green))
    }
    pub fn new_root_mut(green: GreenNode) -> SyntaxNode<L> {
        node(cursor::SyntaxNode::new_root_mut(green))
    }
    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {
        self.raw.replace_with(replacement)
    }
    pub fn kind(&self) -> L::Kind {
        L::kind_from_raw(self.raw.kind())
    }
    pub fn text_range(&self) -> TextRange {
        self.raw.text_range()
    }
    pub fn index(&self) -> usize {
        self.raw.index()
    }
    pub fn text(&self) -> SyntaxText {
        self.raw.text()
    }
    pub fn green(&self) -> Cow<'_, GreenNodeData> {
        self.raw.green()
    }
    pub fn is_mutable(&self) -> bool {
        self.raw.is_mutable()
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.raw.parent().map(node)
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(Some(self.clone()), SyntaxNode::parent)
    }
    pub fn children(&self) -> SyntaxNodeChildren<L> {
        SyntaxNodeChildren { raw: self.raw.children(), _p: PhantomData }
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren<L> {
        SyntaxElementChildren { raw: self.raw.children_with_tokens(), _p: PhantomData }
    }
    pub fn first_child(&self) -> Option<SyntaxNode<L>> {
        self.raw.first_child().map(node)
    }
    pub fn first_child_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> {
        self.raw.first_child_by_kind(&|k| m(L::kind_from_raw(k))).map(node)
    }
    pub fn last_child(&self) -> Option<SyntaxNode<L>> {
        self.raw.last_child().map(node)
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.first_child_or_token().map(element)
    }
    pub fn first_child_or_token_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxElement<L>> {
        self.raw.first_child_or_token_by_kind(&|k| m(L::kind_from_raw(k))).map(element)
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.last_child_or_token().map(element)
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode<L>> {
        self.raw.next_sibling().map(node)
    }
    pub fn next_sibling_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxNode<L>> {
        self.raw.next_sibling_by_kind(&|k| m(L::kind_from_raw(k))).map(node)
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode<L>> {
        self.raw.prev_sibling().map(node)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.next_sibling_or_token().map(element)
    }
    pub fn next_sibling_or_token_by_kind(&self, m: &impl Fn(L::Kind) -> bool) -> Option<SyntaxElement<L>> {
        self.raw.next_sibling_or_token_by_kind(&|k| m(L::kind_from_raw(k))).map(element)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.prev_sibling_or_token().map(element)
    }
    pub fn first_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.first_token().map(token)
    }
    pub fn last_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.last_token().map(token)
    }
    pub fn siblings(&self, d: Direction) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(Some(self.clone()), move |n| match d {
            Direction::Next => n.next_sibling(),
            Direction::Prev => n.prev_sibling(),
        })
    }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let me: SyntaxElement<L> = self.clone().into();
        std::iter::successors(Some(me), move |el| match d {
            Direction::Next => el.next_sibling_or_token(),
            Direction::Prev => el.prev_sibling_or_token(),
        })
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.preorder().filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_with_tokens(&self) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        self.preorder_with_tokens().filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn preorder(&self) -> Preorder<L> {
        Preorder { raw: self.raw.preorder(), _p: PhantomData }
    }
    pub fn preorder_with_tokens(&self) -> PreorderWithTokens<L> {
        PreorderWithTokens { raw: self.raw.preorder_with_tokens(), _p: PhantomData }
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken<L>> {
        self.raw.token_at_offset(offset).map(token)
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement<L> {
        element(self.raw.covering_element(range))
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement<L>> {
        self.raw.child_or_token_at_range(range).map(element)
    }
    pub fn clone_subtree(&self) -> SyntaxNode<L> {
        node(self.raw.clone_subtree())
    }
    pub fn clone_for_update(&self) -> SyntaxNode<L> {
        node(self.raw.clone_for_update())
    }
    pub fn detach(&self) {
        self.raw.detach()
    }
    pub fn splice_children<I: IntoIterator<Item = SyntaxElement<L>>>(&self, to_delete: Range<usize>, to_insert: I) {
        self.raw.splice_children(to_delete, to_insert.into_iter().map(raw_element).collect())
    }
}

impl<L: Language> SyntaxToken<L> {
    pub fn replace_with(&self, new_token: GreenToken) -> GreenNode {
        self.raw.replace_with(new_token)
    }
    pub fn kind(&self) -> L::Kind {
        L::kind_from_raw(self.raw.kind())
    }
    pub fn text_range(&self) -> TextRange {
        self.raw.text_range()
    }
    pub fn index(&self) -> usize {
        self.raw.index()
    }
    pub fn text(&self) -> &str {
        self.raw.text()
    }
    pub fn green(&self) -> &GreenTokenData {
        self.raw.green()
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        self.raw.parent().map(node)
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        self.parent_ancestors()
    }
    pub fn parent_ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        std::iter::successors(self.parent(), SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.next_sibling_or_token().map(element)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        self.raw.prev_sibling_or_token().map(element)
    }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement<L>> + use<L> {
        let me: SyntaxElement<L> = self.clone().into();
        std::iter::successors(Some(me), move |el| match d {
            Direction::Next => el.next_sibling_or_token(),
            Direction::Prev => el.prev_sibling_or_token(),
        })
    }
    pub fn next_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.next_token().map(token)
    }
    pub fn prev_token(&self) -> Option<SyntaxToken<L>> {
        self.raw.prev_token().map(token)
    }
    pub fn detach(&self) {
        self.raw.detach()
    }
}

impl<L: Language> NodeOrToken<SyntaxNode<L>, SyntaxToken<L>> {
    pub fn text_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(it) => it.text_range(),
            NodeOrToken::Token(it) => it.text_range(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(it) => it.index(),
            NodeOrToken::Token(it) => it.index(),
        }
    }
    pub fn kind(&self) -> L::Kind {
        match self {
            NodeOrToken::Node(it) => it.kind(),
            NodeOrToken::Token(it) => it.kind(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode<L>> {
        match self {
            NodeOrToken::Node(it) => it.parent(),
            NodeOrToken::Token(it) => it.parent(),
        }
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode<L>> + use<L> {
        let first = match self {
            NodeOrToken::Node(it) => Some(it.clone()),
            NodeOrToken::Token(it) => it.parent(),
        };
        std::iter::successors(first, SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(it) => it.next_sibling_or_token(),
            NodeOrToken::Token(it) => it.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement<L>> {
        match self {
            NodeOrToken::Node(it) => it.prev_sibling_or_token(),
            NodeOrToken::Token(it) => it.prev_sibling_or_token(),
        }
    }
    pub fn detach(&self) {
        match self {
            NodeOrToken::Node(it) => it.detach(),
            NodeOrToken::Token(it) => it.detach(),
        }
    }
}

#[derive(Debug, Clone)]
pub struct SyntaxNodeChildren<L: Language> {
    raw: cursor::SyntaxNodeChildren,
    _p: PhantomData<L>,
}
impl<L: Language> Iterator for SyntaxNodeChildren<L> {
    type Item = SyntaxNode<L>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(node)
    }
}
impl<L: Language> SyntaxNodeChildren<L> {
    pub fn by_kind(self, matcher: impl Fn(L::Kind) -> bool) -> impl Iterator<Item = SyntaxNode<L>> {
        self.filter(move |it| matcher(it.kind()))
    }
}
#[derive(Debug, Clone)]
pub struct SyntaxElementChildren<L: Language> {
    raw: cursor::SyntaxElementChildren,
    _p: PhantomData<L>,
}
impl<L: Language> Iterator for SyntaxElementChildren<L> {
    type Item = SyntaxElement<L>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(element)
    }
}
impl<L: Language> SyntaxElementChildren<L> {
    pub fn by_kind(self, matcher: impl Fn(L::Kind) -> bool) -> impl Iterator<Item = SyntaxElement<L>> {
        self.filter(move |it| matcher(it.kind()))
    }
}
pub struct Preorder<L: Language> {
    raw: cursor::Preorder,
    _p: PhantomData<L>,
}
impl<L: Language> Preorder<L> {
    pub fn skip_subtree(&mut self) {
        self.raw.skip_subtree()
    }
}
impl<L: Language> Iterator for Preorder<L> {
    type Item = WalkEvent<SyntaxNode<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(|it| it.map(node))
    }
}
pub struct PreorderWithTokens<L: Language> {
    raw: cursor::PreorderWithTokens,
    _p: PhantomData<L>,
}
impl<L: Language> PreorderWithTokens<L> {
    pub fn skip_subtree(&mut self) {
        self.raw.skip_subtree()
    }
}
impl<L: Language> Iterator for PreorderWithTokens<L> {
    type Item = WalkEvent<SyntaxElement<L>>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(|it| it.map(element))
    }
}

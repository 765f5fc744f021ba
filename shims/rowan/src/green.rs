use crate::utility_types::NodeOrToken;
use std::borrow::{Borrow, Cow};
use std::collections::HashMap;
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;
use text_size::{TextRange, TextSize};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SyntaxKind(pub u16);

// ---- tokens
struct TokInner {
    kind: SyntaxKind,
    text: Box<str>,
}
#[derive(Clone)]
pub struct GreenTokenData(Arc<TokInner>);
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct GreenToken(GreenTokenData);

impl PartialEq for GreenTokenData {
    fn eq(&self, o: &Self) -> bool {
        self.kind() == o.kind() && self.text() == o.text()
    }
}
impl Eq for GreenTokenData {}
impl std::hash::Hash for GreenTokenData {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.kind().hash(h);
        self.text().hash(h);
    }
}
impl GreenTokenData {
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind
    }
    pub fn text(&self) -> &str {
        &self.0.text
    }
    pub fn text_len(&self) -> TextSize {
        TextSize::of(self.text())
    }
    pub fn to_owned(&self) -> GreenToken {
        GreenToken(self.clone())
    }
    pub(crate) fn ptr(&self) -> usize {
        Arc::as_ptr(&self.0) as *const () as usize
    }
}
impl GreenToken {
    pub fn new(kind: SyntaxKind, text: &str) -> GreenToken {
        GreenToken(GreenTokenData(Arc::new(TokInner { kind, text: text.into() })))
    }
}
impl Deref for GreenToken {
    type Target = GreenTokenData;
    fn deref(&self) -> &GreenTokenData {
        &self.0
    }
}
impl Borrow<GreenTokenData> for GreenToken {
    fn borrow(&self) -> &GreenTokenData {
        &self.0
    }
}
impl fmt::Debug for GreenTokenData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("GreenToken").field("kind", &self.kind()).field("text", &self.text()).finish()
    }
}
impl fmt::Debug for GreenToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for GreenTokenData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.text())
    }
}
impl fmt::Display for GreenToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.text())
    }
}

// ---- nodes
pub(crate) type GreenElement = NodeOrToken<GreenNode, GreenToken>;

struct NodeInner {
    kind: SyntaxKind,
    text_len: TextSize,
    /// (offset relative to this node, child)
    children: Vec<(TextSize, GreenElement)>,
}
// Avoid recursing once per tree level when a very deep tree is dropped.
impl Drop for NodeInner {
    fn drop(&mut self) {
        let mut stack: Vec<(TextSize, GreenElement)> = std::mem::take(&mut self.children);
        while let Some((_, el)) = stack.pop() {
            if let NodeOrToken::Node(GreenNode(GreenNodeData(arc))) = el {
                if let Ok(mut inner) = Arc::try_unwrap(arc) {
                    stack.append(&mut inner.children);
                }
            }
        }
    }
}
pub struct GreenNodeData(Arc<NodeInner>);
#[derive(PartialEq, Eq, Hash)]
pub struct GreenNode(GreenNodeData);

impl Clone for GreenNode {
    fn clone(&self) -> Self {
        GreenNode(GreenNodeData(self.0.0.clone()))
    }
}
impl PartialEq for GreenNodeData {
    fn eq(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0) || (self.kind() == o.kind() && self.0.children == o.0.children)
    }
}
impl Eq for GreenNodeData {}
impl std::hash::Hash for GreenNodeData {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.kind().hash(h);
        for (_, c) in &self.0.children {
            c.hash(h);
        }
    }
}
impl GreenNodeData {
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind
    }
    pub fn text_len(&self) -> TextSize {
        self.0.text_len
    }
    pub fn children(&self) -> Children<'_> {
        Children { inner: self.0.children.iter() }
    }
    pub(crate) fn raw_children(&self) -> &[(TextSize, GreenElement)] {
        &self.0.children
    }
    pub(crate) fn ptr(&self) -> usize {
        Arc::as_ptr(&self.0) as *const () as usize
    }
    pub(crate) fn child_at_range(&self, rel_range: TextRange) -> Option<(usize, TextSize)> {
        let idx = self
            .0
            .children
            .binary_search_by(|(off, el)| {
                let child_range = TextRange::at(*off, el.text_len());
                TextRange::ordering(child_range, rel_range)
            })
            .unwrap_or_else(|it| it.saturating_sub(1));
        let (off, el) = self.0.children.get(idx)?;
        let r = TextRange::at(*off, el.text_len());
        r.contains_range(rel_range).then_some((idx, *off))
    }
    #[must_use]
    pub fn replace_child(&self, index: usize, new_child: NodeOrToken<GreenNode, GreenToken>) -> GreenNode {
        let mut c: Vec<GreenElement> = self.0.children.iter().map(|it| it.1.clone()).collect();
        c[index] = new_child;
        GreenNode::new(self.kind(), c)
    }
    #[must_use]
    pub fn insert_child(&self, index: usize, new_child: NodeOrToken<GreenNode, GreenToken>) -> GreenNode {
        let mut c: Vec<GreenElement> = self.0.children.iter().map(|it| it.1.clone()).collect();
        c.insert(index, new_child);
        GreenNode::new(self.kind(), c)
    }
    #[must_use]
    pub fn remove_child(&self, index: usize) -> GreenNode {
        let mut c: Vec<GreenElement> = self.0.children.iter().map(|it| it.1.clone()).collect();
        c.remove(index);
        GreenNode::new(self.kind(), c)
    }
    #[must_use]
    pub fn splice_children<R, I>(&self, range: R, replace_with: I) -> GreenNode
    where
        R: std::ops::RangeBounds<usize>,
        I: IntoIterator<Item = NodeOrToken<GreenNode, GreenToken>>,
    {
        let mut c: Vec<GreenElement> = self.0.children.iter().map(|it| it.1.clone()).collect();
        c.splice(range, replace_with);
        GreenNode::new(self.kind(), c)
    }
}
impl ToOwned for GreenNodeData {
    type Owned = GreenNode;
    fn to_owned(&self) -> GreenNode {
        GreenNode(GreenNodeData(self.0.clone()))
    }
}
impl Borrow<GreenNodeData> for GreenNode {
    fn borrow(&self) -> &GreenNodeData {
        &self.0
    }
}
impl Deref for GreenNode {
    type Target = GreenNodeData;
    fn deref(&self) -> &GreenNodeData {
        &self.0
    }
}
impl From<Cow<'_, GreenNodeData>> for GreenNode {
    fn from(cow: Cow<'_, GreenNodeData>) -> Self {
        cow.into_owned()
    }
}
impl GreenNode {
    pub fn new<I>(kind: SyntaxKind, children: I) -> GreenNode
    where
        I: IntoIterator<Item = NodeOrToken<GreenNode, GreenToken>>,
    {
        let mut text_len = TextSize::from(0);
        let children = children
            .into_iter()
            .map(|el| {
                let off = text_len;
                text_len += el.text_len();
                (off, el)
            })
            .collect();
        GreenNode(GreenNodeData(Arc::new(NodeInner { kind, text_len, children })))
    }
}
impl fmt::Debug for GreenNodeData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("GreenNode")
            .field("kind", &self.kind())
            .field("text_len", &self.text_len())
            .field("n_children", &self.children().len())
            .finish()
    }
}
impl fmt::Debug for GreenNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for GreenNodeData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for child in self.children() {
            write!(f, "{}", child)?;
        }
        Ok(())
    }
}
impl fmt::Display for GreenNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}

impl From<GreenNode> for NodeOrToken<GreenNode, GreenToken> {
    fn from(n: GreenNode) -> Self {
        NodeOrToken::Node(n)
    }
}
impl From<GreenToken> for NodeOrToken<GreenNode, GreenToken> {
    fn from(t: GreenToken) -> Self {
        NodeOrToken::Token(t)
    }
}
impl NodeOrToken<GreenNode, GreenToken> {
    pub fn kind(&self) -> SyntaxKind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(t) => t.kind(),
        }
    }
    pub fn text_len(&self) -> TextSize {
        match self {
            NodeOrToken::Node(n) => n.text_len(),
            NodeOrToken::Token(t) => t.text_len(),
        }
    }
}
impl NodeOrToken<&GreenNodeData, &GreenTokenData> {
    pub fn kind(&self) -> SyntaxKind {
        match self {
            NodeOrToken::Node(n) => n.kind(),
            NodeOrToken::Token(t) => t.kind(),
        }
    }
    pub fn text_len(&self) -> TextSize {
        match self {
            NodeOrToken::Node(n) => n.text_len(),
            NodeOrToken::Token(t) => t.text_len(),
        }
    }
    pub fn to_owned(&self) -> NodeOrToken<GreenNode, GreenToken> {
        match self {
            NodeOrToken::Node(n) => NodeOrToken::Node(ToOwned::to_owned(*n)),
            NodeOrToken::Token(t) => NodeOrToken::Token(GreenTokenData::to_owned(t)),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Children<'a> {
    inner: std::slice::Iter<'a, (TextSize, GreenElement)>,
}
fn as_ref(el: &(TextSize, GreenElement)) -> NodeOrToken<&GreenNodeData, &GreenTokenData> {
    match &el.1 {
        NodeOrToken::Node(n) => NodeOrToken::Node(&**n),
        NodeOrToken::Token(t) => NodeOrToken::Token(&**t),
    }
}
impl<'a> Iterator for Children<'a> {
    type Item = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;
    fn next(&mut self) -> Option<Self::Item> {
        self.inner.next().map(as_ref)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.inner.size_hint()
    }
}
impl<'a> DoubleEndedIterator for Children<'a> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.inner.next_back().map(as_ref)
    }
}
impl ExactSizeIterator for Children<'_> {}
impl std::iter::FusedIterator for Children<'_> {}

// ---- builder
#[derive(Default, Debug)]
pub struct NodeCache {
    nodes: HashMap<GreenNode, GreenNode>,
    tokens: HashMap<(SyntaxKind, Box<str>), GreenToken>,
}
impl NodeCache {
    fn token(&mut self, kind: SyntaxKind, text: &str) -> GreenToken {
        self.tokens.entry((kind, text.into())).or_insert_with(|| GreenToken::new(kind, text)).clone()
    }
    fn node(&mut self, kind: SyntaxKind, children: Vec<GreenElement>) -> GreenNode {
        let cacheable =
            children.len() <= 3 && children.iter().all(|c| matches!(c, NodeOrToken::Token(_)));
        let node = GreenNode::new(kind, children);
        if !cacheable {
            return node;
        }
        self.nodes.entry(node.clone()).or_insert(node).clone()
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Checkpoint(usize);

#[derive(Default, Debug)]
pub struct GreenNodeBuilder<'cache> {
    cache: NodeCache,
    parents: Vec<(SyntaxKind, usize)>,
    children: Vec<GreenElement>,
    _p: std::marker::PhantomData<&'cache ()>,
}
impl GreenNodeBuilder<'_> {
    pub fn new() -> GreenNodeBuilder<'static> {
        GreenNodeBuilder::default()
    }
    pub fn token(&mut self, kind: SyntaxKind, text: &str) {
        let t = self.cache.token(kind, text);
        self.children.push(t.into());
    }
    pub fn start_node(&mut self, kind: SyntaxKind) {
        self.parents.push((kind, self.children.len()));
    }
    pub fn finish_node(&mut self) {
        let (kind, first) = self.parents.pop().unwrap();
        let ch = self.children.split_off(first);
        let node = self.cache.node(kind, ch);
        self.children.push(node.into());
    }
    pub fn checkpoint(&self) -> Checkpoint {
        Checkpoint(self.children.len())
    }
    pub fn start_node_at(&mut self, checkpoint: Checkpoint, kind: SyntaxKind) {
        let Checkpoint(c) = checkpoint;
        assert!(c <= self.children.len(), "checkpoint no longer valid, was finish_node called early?");
        if let Some(&(_, first)) = self.parents.last() {
            assert!(c >= first, "checkpoint no longer valid, was an unmatched start_node_at called?");
        }
        self.parents.push((kind, c));
    }
    pub fn finish(mut self) -> GreenNode {
        assert_eq!(self.children.len(), 1);
        match self.children.pop().unwrap() {
            NodeOrToken::Node(node) => node,
            NodeOrToken::Token(_) => panic!(),
        }
    }
}

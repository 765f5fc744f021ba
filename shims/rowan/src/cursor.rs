//! Untyped red tree.
use crate::green::{GreenElement, GreenNode, GreenNodeData, GreenToken, GreenTokenData, SyntaxKind};
use crate::utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent};
use crate::syntax_text::SyntaxText;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Range;
use std::rc::{Rc, Weak};
use text_size::{TextRange, TextSize};

enum Green {
    Node(GreenNode),
    MutNode(RefCell<GreenNode>),
    Token(GreenToken),
}

struct NodeData {
    green: Green,
    mutable: bool,
    /// immutable trees: absolute offset
    offset: TextSize,
    parent: RefCell<Option<SyntaxNode>>,
    index: Cell<usize>,
    /// mutable trees only: live red children by index
    live: RefCell<BTreeMap<usize, Weak<NodeData>>>,
}

impl Drop for NodeData {
    fn drop(&mut self) {
        if self.mutable {
            if let Some(p) = self.parent.get_mut() {
                // forget our slot, unless it has already been taken over
                if let Ok(mut live) = p.0.live.try_borrow_mut() {
                    let idx = self.index.get();
                    if live.get(&idx).is_some_and(|w| w.strong_count() == 0) {
                        live.remove(&idx);
                    }
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct SyntaxNode(Rc<NodeData>);
#[derive(Clone)]
pub struct SyntaxToken(Rc<NodeData>);
pub type SyntaxElement = NodeOrToken<SyntaxNode, SyntaxToken>;

impl NodeData {
    fn new(parent: Option<SyntaxNode>, index: usize, offset: TextSize, el: GreenElement, mutable: bool) -> Rc<NodeData> {
        let green = match el {
            NodeOrToken::Node(n) => {
                if mutable {
                    Green::MutNode(RefCell::new(n))
                } else {
                    Green::Node(n)
                }
            }
            NodeOrToken::Token(t) => Green::Token(t),
        };
        Rc::new(NodeData {
            green,
            mutable,
            offset,
            parent: RefCell::new(parent),
            index: Cell::new(index),
            live: RefCell::new(BTreeMap::new()),
        })
    }
    fn green_element(&self) -> GreenElement {
        match &self.green {
            Green::Node(n) => NodeOrToken::Node(n.clone()),
            Green::MutNode(n) => NodeOrToken::Node(n.borrow().clone()),
            Green::Token(t) => NodeOrToken::Token(t.clone()),
        }
    }
    fn with_node<R>(&self, f: impl FnOnce(&GreenNode) -> R) -> R {
        match &self.green {
            Green::Node(n) => f(n),
            Green::MutNode(n) => f(&n.borrow()),
            Green::Token(_) => unreachable!(),
        }
    }
    fn kind(&self) -> SyntaxKind {
        match &self.green {
            Green::Node(n) => n.kind(),
            Green::MutNode(n) => n.borrow().kind(),
            Green::Token(t) => t.kind(),
        }
    }
    fn text_len(&self) -> TextSize {
        match &self.green {
            Green::Node(n) => n.text_len(),
            Green::MutNode(n) => n.borrow().text_len(),
            Green::Token(t) => t.text_len(),
        }
    }
    fn green_ptr(&self) -> usize {
        match &self.green {
            Green::Node(n) => n.ptr(),
            Green::MutNode(n) => n.borrow().ptr(),
            Green::Token(t) => t.ptr(),
        }
    }
    fn offset(&self) -> TextSize {
        if !self.mutable {
            return self.offset;
        }
        let mut res = TextSize::from(0);
        let mut idx = self.index.get();
        let mut cur = self.parent.borrow().clone();
        while let Some(p) = cur {
            res += p.0.with_node(|g| g.raw_children()[idx].0);
            idx = p.0.index.get();
            cur = p.0.parent.borrow().clone();
        }
        res
    }
    fn text_range(&self) -> TextRange {
        TextRange::at(self.offset(), self.text_len())
    }
    fn key(&self) -> (usize, TextSize) {
        (self.green_ptr(), self.offset())
    }
    fn parent(&self) -> Option<SyntaxNode> {
        self.parent.borrow().clone()
    }
    fn detach(&self) {
        assert!(self.mutable, "immutable tree");
        let Some(parent) = self.parent() else { return };
        let idx = self.index.get();
        let new_green = parent.0.with_node(|g| g.remove_child(idx));
        {
            let mut live = parent.0.live.borrow_mut();
            live.remove(&idx);
            let old = std::mem::take(&mut *live);
            for (i, w) in old {
                let ni = if i > idx { i - 1 } else { i };
                if let Some(rc) = w.upgrade() {
                    rc.index.set(ni);
                    live.insert(ni, w);
                }
            }
        }
        *self.parent.borrow_mut() = None;
        self.index.set(0);
        parent.0.respine(new_green);
    }
    fn respine(&self, new_green: GreenNode) {
        let Green::MutNode(cell) = &self.green else { unreachable!() };
        cell.replace(new_green.clone());
        if let Some(p) = self.parent() {
            let g = p.0.with_node(|g| g.replace_child(self.index.get(), NodeOrToken::Node(new_green)));
            p.0.respine(g);
        }
    }
}

fn rc_of(el: &SyntaxElement) -> &Rc<NodeData> {
    match el {
        NodeOrToken::Node(n) => &n.0,
        NodeOrToken::Token(t) => &t.0,
    }
}
fn wrap(rc: Rc<NodeData>) -> SyntaxElement {
    match &rc.green {
        Green::Token(_) => NodeOrToken::Token(SyntaxToken(rc)),
        _ => NodeOrToken::Node(SyntaxNode(rc)),
    }
}

macro_rules! common_impls {
    ($T:ident) => {
        impl PartialEq for $T {
            fn eq(&self, o: &Self) -> bool {
                Rc::ptr_eq(&self.0, &o.0) || self.0.key() == o.0.key()
            }
        }
        impl Eq for $T {}
        impl Hash for $T {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.0.key().hash(h)
            }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($T))
                    .field("kind", &self.kind())
                    .field("text_range", &self.text_range())
                    .finish()
            }
        }
    };
}
common_impls!(SyntaxNode);
common_impls!(SyntaxToken);

impl fmt::Display for SyntaxNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fn go(g: &GreenNodeData, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            let mut stack = vec![g.children()];
            while let Some(top) = stack.last_mut() {
                match top.next() {
                    Some(NodeOrToken::Node(n)) => stack.push(n.children()),
                    Some(NodeOrToken::Token(t)) => f.write_str(t.text())?,
                    None => {
                        stack.pop();
                    }
                }
            }
            Ok(())
        }
        self.0.with_node(|g| go(g, f))
    }
}
impl fmt::Display for SyntaxToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.text(), f)
    }
}

impl SyntaxNode {
    pub fn new_root(green: GreenNode) -> SyntaxNode {
        SyntaxNode(NodeData::new(None, 0, 0.into(), NodeOrToken::Node(green), false))
    }
    pub fn new_root_mut(green: GreenNode) -> SyntaxNode {
        SyntaxNode(NodeData::new(None, 0, 0.into(), NodeOrToken::Node(green), true))
    }
    pub fn is_mutable(&self) -> bool {
        self.0.mutable
    }
    pub fn clone_for_update(&self) -> SyntaxNode {
        assert!(!self.0.mutable);
        match self.parent() {
            Some(parent) => {
                let parent = parent.clone_for_update();
                parent.nth_child_or_token(self.index()).unwrap().into_node().unwrap()
            }
            None => SyntaxNode::new_root_mut(self.green().into_owned()),
        }
    }
    pub fn clone_subtree(&self) -> SyntaxNode {
        SyntaxNode::new_root(self.green().into_owned())
    }
    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());
        match self.parent() {
            None => replacement,
            Some(parent) => {
                let new_parent = parent.0.with_node(|g| g.replace_child(self.index(), replacement.into()));
                parent.replace_with(new_parent)
            }
        }
    }
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn index(&self) -> usize {
        self.0.index.get()
    }
    pub fn text(&self) -> SyntaxText {
        SyntaxText::new(self.clone())
    }
    pub fn green(&self) -> Cow<'_, GreenNodeData> {
        match &self.0.green {
            Green::Node(n) => Cow::Borrowed(&**n),
            Green::MutNode(n) => Cow::Owned(n.borrow().clone()),
            Green::Token(_) => unreachable!(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        self.0.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        std::iter::successors(Some(self.clone()), SyntaxNode::parent)
    }
    pub(crate) fn n_children(&self) -> usize {
        self.0.with_node(|g| g.raw_children().len())
    }
    pub(crate) fn nth_child_or_token(&self, i: usize) -> Option<SyntaxElement> {
        let (rel, el) = self.0.with_node(|g| g.raw_children().get(i).cloned())?;
        if self.0.mutable {
            if let Some(rc) = self.0.live.borrow().get(&i).and_then(Weak::upgrade) {
                return Some(wrap(rc));
            }
            let rc = NodeData::new(Some(self.clone()), i, 0.into(), el, true);
            self.0.live.borrow_mut().insert(i, Rc::downgrade(&rc));
            return Some(wrap(rc));
        }
        Some(wrap(NodeData::new(Some(self.clone()), i, self.0.offset + rel, el, false)))
    }
    fn is_node_at(&self, i: usize) -> bool {
        self.0.with_node(|g| matches!(g.raw_children().get(i), Some((_, NodeOrToken::Node(_)))))
    }
    fn kind_at(&self, i: usize) -> Option<SyntaxKind> {
        self.0.with_node(|g| g.raw_children().get(i).map(|it| it.1.kind()))
    }
    fn find_from(&self, start: usize, pred: impl Fn(usize) -> bool) -> Option<SyntaxElement> {
        let n = self.n_children();
        (start..n).find(|&i| pred(i)).and_then(|i| self.nth_child_or_token(i))
    }
    fn find_before(&self, end: usize, pred: impl Fn(usize) -> bool) -> Option<SyntaxElement> {
        (0..end).rev().find(|&i| pred(i)).and_then(|i| self.nth_child_or_token(i))
    }
    pub fn children(&self) -> SyntaxNodeChildren {
        SyntaxNodeChildren { next: self.first_child() }
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren {
        SyntaxElementChildren { next: self.first_child_or_token() }
    }
    pub fn first_child(&self) -> Option<SyntaxNode> {
        self.find_from(0, |i| self.is_node_at(i)).and_then(|it| it.into_node())
    }
    pub fn first_child_by_kind(&self, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        self.find_from(0, |i| self.is_node_at(i) && m(self.kind_at(i).unwrap())).and_then(|it| it.into_node())
    }
    pub fn last_child(&self) -> Option<SyntaxNode> {
        self.find_before(self.n_children(), |i| self.is_node_at(i)).and_then(|it| it.into_node())
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement> {
        self.nth_child_or_token(0)
    }
    pub fn first_child_or_token_by_kind(&self, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        self.find_from(0, |i| m(self.kind_at(i).unwrap()))
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement> {
        self.nth_child_or_token(self.n_children().checked_sub(1)?)
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode> {
        let p = self.parent()?;
        p.find_from(self.index() + 1, |i| p.is_node_at(i)).and_then(|it| it.into_node())
    }
    pub fn next_sibling_by_kind(&self, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        let p = self.parent()?;
        p.find_from(self.index() + 1, |i| p.is_node_at(i) && m(p.kind_at(i).unwrap())).and_then(|it| it.into_node())
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode> {
        let p = self.parent()?;
        p.find_before(self.index(), |i| p.is_node_at(i)).and_then(|it| it.into_node())
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.parent()?.nth_child_or_token(self.index() + 1)
    }
    pub fn next_sibling_or_token_by_kind(&self, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        let p = self.parent()?;
        p.find_from(self.index() + 1, |i| m(p.kind_at(i).unwrap()))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.parent()?.nth_child_or_token(self.index().checked_sub(1)?)
    }
    pub fn first_token(&self) -> Option<SyntaxToken> {
        let mut cur = self.first_child_or_token()?;
        loop {
            match cur {
                NodeOrToken::Token(t) => return Some(t),
                NodeOrToken::Node(n) => cur = n.first_child_or_token()?,
            }
        }
    }
    pub fn last_token(&self) -> Option<SyntaxToken> {
        let mut cur = self.last_child_or_token()?;
        loop {
            match cur {
                NodeOrToken::Token(t) => return Some(t),
                NodeOrToken::Node(n) => cur = n.last_child_or_token()?,
            }
        }
    }
    pub fn siblings(&self, d: Direction) -> impl Iterator<Item = SyntaxNode> {
        std::iter::successors(Some(self.clone()), move |n| match d {
            Direction::Next => n.next_sibling(),
            Direction::Prev => n.prev_sibling(),
        })
    }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement> {
        let me: SyntaxElement = self.clone().into();
        std::iter::successors(Some(me), move |el| match d {
            Direction::Next => el.next_sibling_or_token(),
            Direction::Prev => el.prev_sibling_or_token(),
        })
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode> {
        self.preorder().filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_with_tokens(&self) -> impl Iterator<Item = SyntaxElement> {
        self.preorder_with_tokens().filter_map(|e| match e {
            WalkEvent::Enter(n) => Some(n),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn preorder(&self) -> Preorder {
        Preorder { start: self.clone(), next: Some(WalkEvent::Enter(self.clone())), skip: false }
    }
    pub fn preorder_with_tokens(&self) -> PreorderWithTokens {
        let s: SyntaxElement = self.clone().into();
        PreorderWithTokens { start: s.clone(), next: Some(WalkEvent::Enter(s)), skip: false }
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        let range = self.text_range();
        assert!(
            range.start() <= offset && offset <= range.end(),
            "Bad offset: range {:?} offset {:?}",
            range,
            offset
        );
        if range.is_empty() {
            return TokenAtOffset::None;
        }
        let mut children = self.children_with_tokens().filter(|c| {
            let r = c.text_range();
            !r.is_empty() && r.start() <= offset && offset <= r.end()
        });
        let left = children.next().unwrap();
        let right = children.next();
        assert!(children.next().is_none());
        if let Some(right) = right {
            match (left.token_at_offset(offset), right.token_at_offset(offset)) {
                (TokenAtOffset::Single(l), TokenAtOffset::Single(r)) => TokenAtOffset::Between(l, r),
                _ => unreachable!(),
            }
        } else {
            left.token_at_offset(offset)
        }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement {
        let mut res: SyntaxElement = self.clone().into();
        loop {
            assert!(
                res.text_range().contains_range(range),
                "Bad range: node range {:?}, range {:?}",
                res.text_range(),
                range,
            );
            res = match &res {
                NodeOrToken::Token(_) => return res,
                NodeOrToken::Node(node) => match node.child_or_token_at_range(range) {
                    Some(it) => it,
                    None => return res,
                },
            };
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement> {
        let start = self.0.offset();
        let rel = range.checked_sub(start)?;
        let (i, _) = self.0.with_node(|g| g.child_at_range(rel))?;
        self.nth_child_or_token(i)
    }
    pub fn splice_children(&self, to_delete: Range<usize>, to_insert: Vec<SyntaxElement>) {
        assert!(self.0.mutable, "immutable tree: {}", self);
        for (i, child) in self.children_with_tokens().collect::<Vec<_>>().into_iter().enumerate() {
            if to_delete.contains(&i) {
                child.detach();
            }
        }
        let mut index = to_delete.start;
        for child in to_insert {
            self.attach_child(index, child);
            index += 1;
        }
    }
    pub fn detach(&self) {
        assert!(self.0.mutable, "immutable tree: {}", self);
        self.0.detach()
    }
    fn attach_child(&self, index: usize, child: SyntaxElement) {
        assert!(self.0.mutable, "immutable tree: {}", self);
        child.detach();
        let rc = rc_of(&child).clone();
        assert!(rc.mutable, "immutable tree");
        let g = self.0.with_node(|g| g.insert_child(index, rc.green_element()));
        {
            let mut live = self.0.live.borrow_mut();
            let old = std::mem::take(&mut *live);
            for (i, w) in old {
                let ni = if i >= index { i + 1 } else { i };
                if let Some(rc) = w.upgrade() {
                    rc.index.set(ni);
                    live.insert(ni, w);
                }
            }
            live.insert(index, Rc::downgrade(&rc));
        }
        rc.index.set(index);
        *rc.parent.borrow_mut() = Some(self.clone());
        self.0.respine(g);
    }
}

impl SyntaxToken {
    pub fn replace_with(&self, replacement: GreenToken) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());
        let parent = self.parent().unwrap();
        let new_parent = parent.0.with_node(|g| g.replace_child(self.index(), replacement.into()));
        parent.replace_with(new_parent)
    }
    pub fn kind(&self) -> SyntaxKind {
        self.0.kind()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn index(&self) -> usize {
        self.0.index.get()
    }
    pub fn text(&self) -> &str {
        self.green().text()
    }
    pub fn green(&self) -> &GreenTokenData {
        match &self.0.green {
            Green::Token(t) => t,
            _ => unreachable!(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        self.0.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        std::iter::successors(self.parent(), SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.parent()?.nth_child_or_token(self.index() + 1)
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        self.parent()?.nth_child_or_token(self.index().checked_sub(1)?)
    }
    pub fn siblings_with_tokens(&self, d: Direction) -> impl Iterator<Item = SyntaxElement> {
        let me: SyntaxElement = self.clone().into();
        std::iter::successors(Some(me), move |el| match d {
            Direction::Next => el.next_sibling_or_token(),
            Direction::Prev => el.prev_sibling_or_token(),
        })
    }
    pub fn next_token(&self) -> Option<SyntaxToken> {
        match self.next_sibling_or_token() {
            Some(el) => el.first_token(),
            None => self
                .ancestors()
                .find_map(|it| it.next_sibling_or_token())
                .and_then(|el| el.first_token()),
        }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken> {
        match self.prev_sibling_or_token() {
            Some(el) => el.last_token(),
            None => self
                .ancestors()
                .find_map(|it| it.prev_sibling_or_token())
                .and_then(|el| el.last_token()),
        }
    }
    pub fn detach(&self) {
        self.0.detach()
    }
}

impl From<SyntaxNode> for SyntaxElement {
    fn from(n: SyntaxNode) -> Self {
        NodeOrToken::Node(n)
    }
}
impl From<SyntaxToken> for SyntaxElement {
    fn from(t: SyntaxToken) -> Self {
        NodeOrToken::Token(t)
    }
}
impl NodeOrToken<SyntaxNode, SyntaxToken> {
    pub fn text_range(&self) -> TextRange {
        rc_of(self).text_range()
    }
    pub fn index(&self) -> usize {
        rc_of(self).index.get()
    }
    pub fn kind(&self) -> SyntaxKind {
        rc_of(self).kind()
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        rc_of(self).parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        let first = match self {
            NodeOrToken::Node(n) => Some(n.clone()),
            NodeOrToken::Token(t) => t.parent(),
        };
        std::iter::successors(first, SyntaxNode::parent)
    }
    pub fn first_token(&self) -> Option<SyntaxToken> {
        match self {
            NodeOrToken::Node(n) => n.first_token(),
            NodeOrToken::Token(t) => Some(t.clone()),
        }
    }
    pub fn last_token(&self) -> Option<SyntaxToken> {
        match self {
            NodeOrToken::Node(n) => n.last_token(),
            NodeOrToken::Token(t) => Some(t.clone()),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        match self {
            NodeOrToken::Node(n) => n.next_sibling_or_token(),
            NodeOrToken::Token(t) => t.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        match self {
            NodeOrToken::Node(n) => n.prev_sibling_or_token(),
            NodeOrToken::Token(t) => t.prev_sibling_or_token(),
        }
    }
    fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        assert!(self.text_range().start() <= offset && offset <= self.text_range().end());
        match self {
            NodeOrToken::Token(t) => TokenAtOffset::Single(t.clone()),
            NodeOrToken::Node(n) => n.token_at_offset(offset),
        }
    }
    pub fn detach(&self) {
        rc_of(self).detach()
    }
}

#[derive(Clone, Debug)]
pub struct SyntaxNodeChildren {
    next: Option<SyntaxNode>,
}
impl Iterator for SyntaxNodeChildren {
    type Item = SyntaxNode;
    fn next(&mut self) -> Option<SyntaxNode> {
        self.next.take().map(|n| {
            self.next = n.next_sibling();
            n
        })
    }
}
#[derive(Clone, Debug)]
pub struct SyntaxElementChildren {
    next: Option<SyntaxElement>,
}
impl Iterator for SyntaxElementChildren {
    type Item = SyntaxElement;
    fn next(&mut self) -> Option<SyntaxElement> {
        self.next.take().map(|n| {
            self.next = n.next_sibling_or_token();
            n
        })
    }
}

pub struct Preorder {
    start: SyntaxNode,
    next: Option<WalkEvent<SyntaxNode>>,
    skip: bool,
}
impl Preorder {
    pub fn skip_subtree(&mut self) {
        self.skip = true;
    }
    fn step(&mut self) -> Option<WalkEvent<SyntaxNode>> {
        let next = self.next.take();
        self.next = next.as_ref().and_then(|n| {
            Some(match n {
                WalkEvent::Enter(node) => match node.first_child() {
                    Some(c) => WalkEvent::Enter(c),
                    None => WalkEvent::Leave(node.clone()),
                },
                WalkEvent::Leave(node) => {
                    if node == &self.start {
                        return None;
                    }
                    match node.next_sibling() {
                        Some(s) => WalkEvent::Enter(s),
                        None => WalkEvent::Leave(node.parent()?),
                    }
                }
            })
        });
        next
    }
}
impl Iterator for Preorder {
    type Item = WalkEvent<SyntaxNode>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.skip {
            self.skip = false;
            self.next = self.next.take().and_then(|n| match n {
                WalkEvent::Enter(first_child) => first_child.parent().map(WalkEvent::Leave),
                WalkEvent::Leave(parent) => Some(WalkEvent::Leave(parent)),
            });
        }
        self.step()
    }
}
pub struct PreorderWithTokens {
    start: SyntaxElement,
    next: Option<WalkEvent<SyntaxElement>>,
    skip: bool,
}
impl PreorderWithTokens {
    pub fn skip_subtree(&mut self) {
        self.skip = true;
    }
    fn step(&mut self) -> Option<WalkEvent<SyntaxElement>> {
        let next = self.next.take();
        self.next = next.as_ref().and_then(|n| {
            Some(match n {
                WalkEvent::Enter(el) => match el {
                    NodeOrToken::Node(node) => match node.first_child_or_token() {
                        Some(c) => WalkEvent::Enter(c),
                        None => WalkEvent::Leave(node.clone().into()),
                    },
                    NodeOrToken::Token(t) => WalkEvent::Leave(t.clone().into()),
                },
                WalkEvent::Leave(el) if el == &self.start => return None,
                WalkEvent::Leave(el) => match el.next_sibling_or_token() {
                    Some(s) => WalkEvent::Enter(s),
                    None => WalkEvent::Leave(el.parent()?.into()),
                },
            })
        });
        next
    }
}
impl Iterator for PreorderWithTokens {
    type Item = WalkEvent<SyntaxElement>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.skip {
            self.skip = false;
            self.next = self.next.take().and_then(|n| match n {
                WalkEvent::Enter(first_child) => first_child.parent().map(|p| WalkEvent::Leave(p.into())),
                WalkEvent::Leave(parent) => Some(WalkEvent::Leave(parent)),
            });
        }
        self.step()
    }
}

use crate::utility_types::NodeOrToken;
use std::borrow::{Borrow, Cow};
use std::ops::{Deref, Range};
use std::sync::Arc;
use std::{fmt, iter, slice};
use text_size::TextSize;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SyntaxKind(pub u16);

// ---- tokens

#[derive(PartialEq, Eq, Hash)]
pub struct GreenTokenData {
    kind: SyntaxKind,
    text: Box<str>,
}
#[derive(PartialEq, Eq, Hash, Clone)]
pub struct GreenToken {
    ptr: Arc<GreenTokenData>,
}

impl GreenTokenData {
    pub fn kind(&self) -> SyntaxKind {
        self.kind
    }
    pub fn text(&self) -> &str {
        &self.text
    }
    pub fn text_len(&self) -> TextSize {
        TextSize::of(&*self.text)
    }
}
impl fmt::Debug for GreenTokenData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("GreenToken").field("kind", &self.kind()).field("text", &self.text()).finish()
    }
}
impl fmt::Display for GreenTokenData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.text())
    }
}
impl fmt::Debug for GreenToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl fmt::Display for GreenToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}
impl GreenToken {
    pub fn new(kind: SyntaxKind, text: &str) -> GreenToken {
        GreenToken { ptr: Arc::new(GreenTokenData { kind, text: text.into() }) }
    }
}
impl Deref for GreenToken {
    type Target = GreenTokenData;
    fn deref(&self) -> &GreenTokenData {
        &self.ptr
    }
}
impl Borrow<GreenTokenData> for GreenToken {
    fn borrow(&self) -> &GreenTokenData {
        self
    }
}
impl ToOwned for GreenTokenData {
    type Owned = GreenToken;
    fn to_owned(&self) -> GreenToken {
        // SAFETY: a `GreenTokenData` is only ever created inside an `Arc` by `GreenToken::new`.
        unsafe {
            Arc::increment_strong_count(self as *const GreenTokenData);
            GreenToken { ptr: Arc::from_raw(self as *const GreenTokenData) }
        }
    }
}

// ---- nodes

pub(crate) type GreenElement = NodeOrToken<GreenNode, GreenToken>;
pub(crate) type GreenElementRef<'a> = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;

#[derive(PartialEq, Eq, Hash, Clone)]
pub(crate) struct GreenChild {
    pub(crate) rel_offset: TextSize,
    pub(crate) elem: GreenElement,
}

#[derive(PartialEq, Eq, Hash)]
pub struct GreenNodeData {
    kind: SyntaxKind,
    text_len: TextSize,
    children: Vec<GreenChild>,
}
#[derive(PartialEq, Eq, Hash, Clone)]
pub struct GreenNode {
    ptr: Arc<GreenNodeData>,
}

impl GreenElement {
    pub fn kind(&self) -> SyntaxKind {
        match self {
            NodeOrToken::Node(it) => it.kind(),
            NodeOrToken::Token(it) => it.kind(),
        }
    }
    pub fn text_len(&self) -> TextSize {
        match self {
            NodeOrToken::Node(it) => it.text_len(),
            NodeOrToken::Token(it) => it.text_len(),
        }
    }
}
impl GreenElementRef<'_> {
    pub fn kind(&self) -> SyntaxKind {
        match self {
            NodeOrToken::Node(it) => it.kind(),
            NodeOrToken::Token(it) => it.kind(),
        }
    }
    pub fn text_len(&self) -> TextSize {
        match self {
            NodeOrToken::Node(it) => it.text_len(),
            NodeOrToken::Token(it) => it.text_len(),
        }
    }
    pub fn to_owned(self) -> GreenElement {
        match self {
            NodeOrToken::Node(it) => NodeOrToken::Node(it.to_owned()),
            NodeOrToken::Token(it) => NodeOrToken::Token(it.to_owned()),
        }
    }
}
impl From<GreenNode> for GreenElement {
    fn from(n: GreenNode) -> Self {
        NodeOrToken::Node(n)
    }
}
impl From<GreenToken> for GreenElement {
    fn from(n: GreenToken) -> Self {
        NodeOrToken::Token(n)
    }
}

impl ToOwned for GreenNodeData {
    type Owned = GreenNode;
    fn to_owned(&self) -> GreenNode {
        // SAFETY: a `GreenNodeData` is only ever created inside an `Arc` by `GreenNode::new`.
        unsafe {
            Arc::increment_strong_count(self as *const GreenNodeData);
            GreenNode { ptr: Arc::from_raw(self as *const GreenNodeData) }
        }
    }
}
impl Borrow<GreenNodeData> for GreenNode {
    fn borrow(&self) -> &GreenNodeData {
        self
    }
}
impl Deref for GreenNode {
    type Target = GreenNodeData;
    fn deref(&self) -> &GreenNodeData {
        &self.ptr
    }
}
impl From<Cow<'_, GreenNodeData>> for GreenNode {
    fn from(cow: Cow<'_, GreenNodeData>) -> Self {
        cow.into_owned()
    }
}
impl fmt::Debug for GreenNodeData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("GreenNode")
            .field("kind", &self.kind())
            .field("text_len", &self.text_len())
            .field("n_children", &self.children().len())
            .finish()
    }
}
impl fmt::Debug for GreenNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl fmt::Display for GreenNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}
impl fmt::Display for GreenNodeData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for child in self.children() {
            match child {
                NodeOrToken::Node(it) => write!(f, "{it}")?,
                NodeOrToken::Token(it) => write!(f, "{it}")?,
            }
        }
        Ok(())
    }
}

impl GreenNodeData {
    pub fn kind(&self) -> SyntaxKind {
        self.kind
    }
    pub fn text_len(&self) -> TextSize {
        self.text_len
    }
    pub fn children(&self) -> Children<'_> {
        Children { raw: self.children.iter() }
    }
    pub(crate) fn child_list(&self) -> &[GreenChild] {
        &self.children
    }
    #[must_use]
    pub fn replace_child(&self, index: usize, new_child: GreenElement) -> GreenNode {
        let mut replacement = Some(new_child);
        let children = self.children().enumerate().map(|(i, child)| {
            if i == index {
                replacement.take().unwrap()
            } else {
                child.to_owned()
            }
        });
        GreenNode::new(self.kind(), children.collect::<Vec<_>>())
    }
    #[must_use]
    pub fn insert_child(&self, index: usize, new_child: GreenElement) -> GreenNode {
        self.splice_children(index..index, iter::once(new_child))
    }
    #[must_use]
    pub fn remove_child(&self, index: usize) -> GreenNode {
        self.splice_children(index..=index, iter::empty())
    }
    #[must_use]
    pub fn splice_children<R, I>(&self, range: R, replace_with: I) -> GreenNode
    where
        R: std::ops::RangeBounds<usize>,
        I: IntoIterator<Item = GreenElement>,
    {
        let mut children: Vec<_> = self.children().map(|it| it.to_owned()).collect();
        children.splice(range, replace_with);
        GreenNode::new(self.kind(), children)
    }
}

impl GreenNode {
    pub fn new<I>(kind: SyntaxKind, children: I) -> GreenNode
    where
        I: IntoIterator<Item = GreenElement>,
    {
        let mut text_len: TextSize = 0.into();
        let children = children
            .into_iter()
            .map(|elem| {
                let rel_offset = text_len;
                text_len += elem.text_len();
                GreenChild { rel_offset, elem }
            })
            .collect();
        GreenNode { ptr: Arc::new(GreenNodeData { kind, text_len, children }) }
    }
}

#[derive(Debug, Clone)]
pub struct Children<'a> {
    raw: slice::Iter<'a, GreenChild>,
}
impl fmt::Debug for GreenChild {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}@{:?}", self.elem, self.rel_offset)
    }
}
fn as_elem_ref(child: &GreenChild) -> GreenElementRef<'_> {
    match &child.elem {
        NodeOrToken::Node(it) => NodeOrToken::Node(&**it),
        NodeOrToken::Token(it) => NodeOrToken::Token(&**it),
    }
}
impl<'a> Iterator for Children<'a> {
    type Item = GreenElementRef<'a>;
    fn next(&mut self) -> Option<Self::Item> {
        self.raw.next().map(as_elem_ref)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.raw.size_hint()
    }
}
impl<'a> DoubleEndedIterator for Children<'a> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.raw.next_back().map(as_elem_ref)
    }
}
impl ExactSizeIterator for Children<'_> {}
impl iter::FusedIterator for Children<'_> {}

// ---- builder

#[derive(Default, Debug)]
pub struct NodeCache {
    tokens: rustc_hash::FxHashMap<(SyntaxKind, Box<str>), GreenToken>,
}
impl NodeCache {
    fn token(&mut self, kind: SyntaxKind, text: &str) -> GreenToken {
        self.tokens
            .entry((kind, text.into()))
            .or_insert_with(|| GreenToken::new(kind, text))
            .clone()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Checkpoint(usize);

#[derive(Debug)]
enum MaybeOwned<'a, T> {
    Owned(T),
    Borrowed(&'a mut T),
}
#[derive(Debug)]
pub struct GreenNodeBuilder<'cache> {
    cache: MaybeOwned<'cache, NodeCache>,
    parents: Vec<(SyntaxKind, usize)>,
    children: Vec<GreenElement>,
}
impl Default for GreenNodeBuilder<'_> {
    fn default() -> Self {
        GreenNodeBuilder {
            cache: MaybeOwned::Owned(NodeCache::default()),
            parents: vec![],
            children: vec![],
        }
    }
}
impl GreenNodeBuilder<'_> {
    pub fn new() -> GreenNodeBuilder<'static> {
        GreenNodeBuilder::default()
    }
    pub fn with_cache(cache: &mut NodeCache) -> GreenNodeBuilder<'_> {
        GreenNodeBuilder { cache: MaybeOwned::Borrowed(cache), parents: vec![], children: vec![] }
    }
    pub fn token(&mut self, kind: SyntaxKind, text: &str) {
        let cache = match &mut self.cache {
            MaybeOwned::Owned(it) => it,
            MaybeOwned::Borrowed(it) => &mut **it,
        };
        let token = cache.token(kind, text);
        self.children.push(token.into());
    }
    pub fn start_node(&mut self, kind: SyntaxKind) {
        let len = self.children.len();
        self.parents.push((kind, len));
    }
    pub fn finish_node(&mut self) {
        let (kind, first_child) = self.parents.pop().unwrap();
        let children: Vec<_> = self.children.drain(first_child..).collect();
        self.children.push(GreenNode::new(kind, children).into());
    }
    pub fn checkpoint(&self) -> Checkpoint {
        Checkpoint(self.children.len())
    }
    pub fn start_node_at(&mut self, checkpoint: Checkpoint, kind: SyntaxKind) {
        let Checkpoint(checkpoint) = checkpoint;
        assert!(checkpoint <= self.children.len(), "checkpoint no longer valid, was finish_node called early?");
        if let Some(&(_, first_child)) = self.parents.last() {
            assert!(checkpoint >= first_child, "checkpoint no longer valid, was an unmatched start_node_at called?");
        }
        self.parents.push((kind, checkpoint));
    }
    pub fn finish(mut self) -> GreenNode {
        assert_eq!(self.children.len(), 1);
        match self.children.pop().unwrap() {
            NodeOrToken::Node(node) => node,
            NodeOrToken::Token(_) => panic!(),
        }
    }
}
#[allow(unused)]
type _R = Range<usize>;

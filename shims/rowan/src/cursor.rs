use crate::green::{
    GreenElement, GreenNode, GreenNodeData, GreenToken, GreenTokenData, SyntaxKind,
};
use crate::utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent};
use std::borrow::Cow;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::ops::Range;
use std::rc::{Rc, Weak};
use std::{fmt, iter, ptr};
use text_size::{TextRange, TextSize};

struct NodeData {
    parent: RefCell<Option<SyntaxNode>>,
    index: Cell<u32>,
    /// absolute offset, used by immutable trees only
    offset: TextSize,
    /// never changes in immutable trees; never changes for tokens
    green: UnsafeCell<GreenElement>,
    mutable: bool,
    /// live children, mutable trees only
    live: RefCell<BTreeMap<u32, Weak<NodeData>>>,
}

impl NodeData {
    fn new(
        parent: Option<SyntaxNode>,
        index: u32,
        offset: TextSize,
        green: GreenElement,
        mutable: bool,
    ) -> Rc<NodeData> {
        Rc::new(NodeData {
            parent: RefCell::new(parent),
            index: Cell::new(index),
            offset,
            green: UnsafeCell::new(green),
            mutable,
            live: RefCell::default(),
        })
    }
    fn green_elem(&self) -> &GreenElement {
        // SAFETY: single-threaded (`Rc`); references handed out for mutable trees are short-lived
        // or owned by the callers in this module (see `SyntaxNode::green`).
        unsafe { &*self.green.get() }
    }
    fn parent(&self) -> Option<SyntaxNode> {
        self.parent.borrow().clone()
    }
    fn index(&self) -> usize {
        self.index.get() as usize
    }
    fn offset(&self) -> TextSize {
        if !self.mutable {
            return self.offset;
        }
        let mut res = TextSize::from(0);
        let mut index = self.index();
        let mut parent = self.parent();
        while let Some(p) = parent {
            res += p.green_ref().child_list()[index].rel_offset;
            index = p.index();
            parent = p.0.parent();
        }
        res
    }
    fn text_range(&self) -> TextRange {
        TextRange::at(self.offset(), self.green_elem().text_len())
    }
    fn key(&self) -> (*const (), TextSize) {
        let ptr = match self.green_elem() {
            NodeOrToken::Node(it) => &**it as *const GreenNodeData as *const (),
            NodeOrToken::Token(it) => &**it as *const GreenTokenData as *const (),
        };
        (ptr, self.offset())
    }

    /// Replaces this (root or inner) node's green and propagates up to the root.
    fn respine(this: &Rc<NodeData>, new_green: GreenNode) {
        let mut node = this.clone();
        let mut new_green = new_green;
        loop {
            unsafe { *node.green.get() = NodeOrToken::Node(new_green.clone()) };
            let Some(parent) = node.parent() else { break };
            new_green = parent.green_ref().replace_child(node.index(), new_green.into());
            node = parent.0;
        }
    }

    fn detach(this: &Rc<NodeData>) {
        assert!(this.mutable, "immutable tree");
        let Some(parent) = this.parent() else { return };
        let index = this.index();
        shift_live(&parent.0, |i| match (i as usize).cmp(&index) {
            std::cmp::Ordering::Less => Some(i),
            std::cmp::Ordering::Equal => None,
            std::cmp::Ordering::Greater => Some(i - 1),
        });
        *this.parent.borrow_mut() = None;
        this.index.set(0);
        let green = parent.green_ref().remove_child(index);
        NodeData::respine(&parent.0, green);
    }

    fn attach_child(this: &Rc<NodeData>, index: usize, child: &Rc<NodeData>) {
        assert!(this.mutable, "immutable tree");
        assert!(child.mutable, "immutable child");
        assert!(child.parent().is_none(), "child already attached");
        shift_live(this, |i| Some(if (i as usize) < index { i } else { i + 1 }));
        child.index.set(index as u32);
        *child.parent.borrow_mut() = Some(SyntaxNode(this.clone()));
        this.live.borrow_mut().insert(index as u32, Rc::downgrade(child));
        let this_node = SyntaxNode(this.clone());
        let green = this_node.green_ref().insert_child(index, child.green_elem().clone());
        NodeData::respine(this, green);
    }
}

fn shift_live(parent: &Rc<NodeData>, f: impl Fn(u32) -> Option<u32>) {
    let mut live = parent.live.borrow_mut();
    let old = std::mem::take(&mut *live);
    for (i, weak) in old {
        let Some(rc) = weak.upgrade() else { continue };
        if let Some(new_i) = f(i) {
            rc.index.set(new_i);
            live.insert(new_i, weak);
        }
    }
}

#[derive(Clone)]
pub struct SyntaxNode(Rc<NodeData>);
#[derive(Clone)]
pub struct SyntaxToken(Rc<NodeData>);
pub type SyntaxElement = NodeOrToken<SyntaxNode, SyntaxToken>;

impl PartialEq for SyntaxNode {
    fn eq(&self, other: &SyntaxNode) -> bool {
        Rc::ptr_eq(&self.0, &other.0) || self.0.key() == other.0.key()
    }
}
impl Eq for SyntaxNode {}
impl Hash for SyntaxNode {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.key().hash(state)
    }
}
impl PartialEq for SyntaxToken {
    fn eq(&self, other: &SyntaxToken) -> bool {
        Rc::ptr_eq(&self.0, &other.0) || self.0.key() == other.0.key()
    }
}
impl Eq for SyntaxToken {}
impl Hash for SyntaxToken {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.key().hash(state)
    }
}
impl fmt::Debug for SyntaxNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("SyntaxNode")
            .field("kind", &self.kind())
            .field("text_range", &self.text_range())
            .finish()
    }
}
impl fmt::Debug for SyntaxToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("SyntaxToken")
            .field("kind", &self.kind())
            .field("text_range", &self.text_range())
            .finish()
    }
}
impl fmt::Display for SyntaxNode {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.green_ref(), f)
    }
}
impl fmt::Display for SyntaxToken {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.text(), f)
    }
}
impl From<SyntaxNode> for SyntaxElement {
    fn from(node: SyntaxNode) -> SyntaxElement {
        NodeOrToken::Node(node)
    }
}
impl From<SyntaxToken> for SyntaxElement {
    fn from(token: SyntaxToken) -> SyntaxElement {
        NodeOrToken::Token(token)
    }
}

/// Shared navigation for nodes and tokens.
fn wrap(data: Rc<NodeData>) -> SyntaxElement {
    match data.green_elem() {
        NodeOrToken::Node(_) => NodeOrToken::Node(SyntaxNode(data)),
        NodeOrToken::Token(_) => NodeOrToken::Token(SyntaxToken(data)),
    }
}
fn sib_or_token(data: &Rc<NodeData>, dir: Direction) -> Option<SyntaxElement> {
    let parent = data.parent()?;
    let index = match dir {
        Direction::Next => data.index() + 1,
        Direction::Prev => data.index().checked_sub(1)?,
    };
    parent.child_at(index)
}
fn sib_node(data: &Rc<NodeData>, dir: Direction, pred: &dyn Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
    let parent = data.parent()?;
    match dir {
        Direction::Next => parent.find_node(data.index() + 1, dir, pred),
        Direction::Prev => parent.find_node(data.index().checked_sub(1)?, dir, pred),
    }
}

impl SyntaxNode {
    pub fn new_root(green: GreenNode) -> SyntaxNode {
        SyntaxNode(NodeData::new(None, 0, 0.into(), green.into(), false))
    }
    pub fn new_root_mut(green: GreenNode) -> SyntaxNode {
        SyntaxNode(NodeData::new(None, 0, 0.into(), green.into(), true))
    }
    pub fn clone_for_update(&self) -> SyntaxNode {
        assert!(!self.0.mutable);
        match self.parent() {
            Some(parent) => {
                let parent = parent.clone_for_update();
                parent.child_at(self.index()).unwrap().into_node().unwrap()
            }
            None => SyntaxNode::new_root_mut(self.green_ref().to_owned()),
        }
    }
    pub fn clone_subtree(&self) -> SyntaxNode {
        SyntaxNode::new_root(self.green_ref().to_owned())
    }
    pub fn is_mutable(&self) -> bool {
        self.0.mutable
    }
    pub(crate) fn green_ref(&self) -> &GreenNodeData {
        match self.0.green_elem() {
            NodeOrToken::Node(it) => it,
            NodeOrToken::Token(_) => unreachable!(),
        }
    }
    pub fn green(&self) -> Cow<'_, GreenNodeData> {
        if self.0.mutable {
            Cow::Owned(self.green_ref().to_owned())
        } else {
            Cow::Borrowed(self.green_ref())
        }
    }
    fn child_at(&self, index: usize) -> Option<SyntaxElement> {
        let green = self.green_ref();
        let child = green.child_list().get(index)?;
        if self.0.mutable {
            if let Some(rc) = self.0.live.borrow().get(&(index as u32)).and_then(Weak::upgrade) {
                return Some(wrap(rc));
            }
            let rc =
                NodeData::new(Some(self.clone()), index as u32, 0.into(), child.elem.clone(), true);
            self.0.live.borrow_mut().insert(index as u32, Rc::downgrade(&rc));
            return Some(wrap(rc));
        }
        let offset = self.0.offset + child.rel_offset;
        Some(wrap(NodeData::new(Some(self.clone()), index as u32, offset, child.elem.clone(), false)))
    }
    fn find_node(&self, from: usize, dir: Direction, pred: &dyn Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        let list = self.green_ref().child_list();
        let ok = |i: &usize| match &list[*i].elem {
            NodeOrToken::Node(n) => pred(n.kind()),
            _ => false,
        };
        let idx = match dir {
            Direction::Next => (from..list.len()).find(ok),
            Direction::Prev => {
                if list.is_empty() {
                    return None;
                }
                (0..=from.min(list.len() - 1)).rev().find(ok)
            }
        }?;
        self.child_at(idx).and_then(|it| it.into_node())
    }
    pub fn kind(&self) -> SyntaxKind {
        self.green_ref().kind()
    }
    pub fn index(&self) -> usize {
        self.0.index()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn text(&self) -> SyntaxText {
        SyntaxText::new(self.clone())
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        self.0.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        iter::successors(Some(self.clone()), SyntaxNode::parent)
    }
    pub fn children(&self) -> SyntaxNodeChildren {
        SyntaxNodeChildren { next: self.first_child() }
    }
    pub fn children_with_tokens(&self) -> SyntaxElementChildren {
        SyntaxElementChildren { next: self.first_child_or_token() }
    }
    pub fn first_child(&self) -> Option<SyntaxNode> {
        self.find_node(0, Direction::Next, &|_| true)
    }
    pub fn first_child_by_kind(&self, matcher: &dyn Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        self.find_node(0, Direction::Next, matcher)
    }
    pub fn last_child(&self) -> Option<SyntaxNode> {
        self.find_node(usize::MAX, Direction::Prev, &|_| true)
    }
    pub fn first_child_or_token(&self) -> Option<SyntaxElement> {
        self.child_at(0)
    }
    pub fn first_child_or_token_by_kind(&self, matcher: &dyn Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        let i = self.green_ref().child_list().iter().position(|c| matcher(c.elem.kind()))?;
        self.child_at(i)
    }
    pub fn last_child_or_token(&self) -> Option<SyntaxElement> {
        let n = self.green_ref().child_list().len();
        self.child_at(n.checked_sub(1)?)
    }
    pub fn next_sibling(&self) -> Option<SyntaxNode> {
        sib_node(&self.0, Direction::Next, &|_| true)
    }
    pub fn next_sibling_by_kind(&self, matcher: &dyn Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        sib_node(&self.0, Direction::Next, matcher)
    }
    pub fn prev_sibling(&self) -> Option<SyntaxNode> {
        sib_node(&self.0, Direction::Prev, &|_| true)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        sib_or_token(&self.0, Direction::Next)
    }
    pub fn next_sibling_or_token_by_kind(&self, matcher: &dyn Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        self.siblings_with_tokens(Direction::Next).skip(1).find(|it| matcher(it.kind()))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        sib_or_token(&self.0, Direction::Prev)
    }
    pub fn first_token(&self) -> Option<SyntaxToken> {
        self.children_with_tokens().find_map(|it| it.first_token())
    }
    pub fn last_token(&self) -> Option<SyntaxToken> {
        let mut cur = self.last_child_or_token();
        while let Some(it) = cur {
            if let Some(t) = it.last_token() {
                return Some(t);
            }
            cur = it.prev_sibling_or_token();
        }
        None
    }
    pub fn siblings(&self, direction: Direction) -> impl Iterator<Item = SyntaxNode> {
        iter::successors(Some(self.clone()), move |node| match direction {
            Direction::Next => node.next_sibling(),
            Direction::Prev => node.prev_sibling(),
        })
    }
    pub fn siblings_with_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement> {
        let me: SyntaxElement = self.clone().into();
        iter::successors(Some(me), move |el| match direction {
            Direction::Next => el.next_sibling_or_token(),
            Direction::Prev => el.prev_sibling_or_token(),
        })
    }
    pub fn descendants(&self) -> impl Iterator<Item = SyntaxNode> {
        self.preorder().filter_map(|event| match event {
            WalkEvent::Enter(node) => Some(node),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn descendants_with_tokens(&self) -> impl Iterator<Item = SyntaxElement> {
        self.preorder_with_tokens().filter_map(|event| match event {
            WalkEvent::Enter(it) => Some(it),
            WalkEvent::Leave(_) => None,
        })
    }
    pub fn preorder(&self) -> Preorder {
        Preorder::new(self.clone())
    }
    pub fn preorder_with_tokens(&self) -> PreorderWithTokens {
        PreorderWithTokens::new(self.clone())
    }
    pub fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        let range = self.text_range();
        assert!(
            range.start() <= offset && offset <= range.end(),
            "Bad offset: range {:?} offset {:?}",
            range,
            offset
        );
        if range.is_empty() {
            return TokenAtOffset::None;
        }
        let mut children = self.children_with_tokens().filter(|child| {
            let child_range = child.text_range();
            !child_range.is_empty() && (child_range.start() <= offset && offset <= child_range.end())
        });
        let left = children.next().unwrap();
        let right = children.next();
        assert!(children.next().is_none());
        if let Some(right) = right {
            match (left.token_at_offset(offset), right.token_at_offset(offset)) {
                (TokenAtOffset::Single(left), TokenAtOffset::Single(right)) => {
                    TokenAtOffset::Between(left, right)
                }
                _ => unreachable!(),
            }
        } else {
            left.token_at_offset(offset)
        }
    }
    pub fn covering_element(&self, range: TextRange) -> SyntaxElement {
        let mut res: SyntaxElement = self.clone().into();
        loop {
            assert!(
                res.text_range().contains_range(range),
                "Bad range: node range {:?}, range {:?}",
                res.text_range(),
                range,
            );
            res = match &res {
                NodeOrToken::Token(_) => return res,
                NodeOrToken::Node(node) => match node.child_or_token_at_range(range) {
                    Some(it) => it,
                    None => return res,
                },
            };
        }
    }
    pub fn child_or_token_at_range(&self, range: TextRange) -> Option<SyntaxElement> {
        let rel_range = range - self.0.offset();
        let list = self.green_ref().child_list();
        let idx = list
            .binary_search_by(|it| {
                let child_range = TextRange::at(it.rel_offset, it.elem.text_len());
                TextRange::ordering(child_range, rel_range)
            })
            .unwrap_or_else(|it| it.saturating_sub(1));
        let child = list.get(idx)?;
        if !TextRange::at(child.rel_offset, child.elem.text_len()).contains_range(rel_range) {
            return None;
        }
        self.child_at(idx)
    }
    pub fn splice_children(&self, to_delete: Range<usize>, to_insert: Vec<SyntaxElement>) {
        assert!(self.0.mutable, "immutable tree: {self}");
        for (i, child) in self.children_with_tokens().enumerate() {
            if to_delete.contains(&i) {
                child.detach();
            }
        }
        let mut index = to_delete.start;
        for child in to_insert {
            self.attach_child(index, child);
            index += 1;
        }
    }
    pub fn detach(&self) {
        assert!(self.0.mutable, "immutable tree: {self}");
        NodeData::detach(&self.0)
    }
    fn attach_child(&self, index: usize, child: SyntaxElement) {
        assert!(self.0.mutable, "immutable tree: {self}");
        child.detach();
        let data = match &child {
            NodeOrToken::Node(it) => &it.0,
            NodeOrToken::Token(it) => &it.0,
        };
        NodeData::attach_child(&self.0, index, data)
    }
    pub fn replace_with(&self, replacement: GreenNode) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());
        match &self.parent() {
            None => replacement,
            Some(parent) => {
                let new_parent = parent.green_ref().replace_child(self.index(), replacement.into());
                parent.replace_with(new_parent)
            }
        }
    }
}

impl SyntaxToken {
    pub fn replace_with(&self, replacement: GreenToken) -> GreenNode {
        assert_eq!(self.kind(), replacement.kind());
        let parent = self.parent().unwrap();
        let new_parent = parent.green_ref().replace_child(self.index(), replacement.into());
        parent.replace_with(new_parent)
    }
    pub fn green(&self) -> &GreenTokenData {
        match self.0.green_elem() {
            NodeOrToken::Token(it) => it,
            NodeOrToken::Node(_) => unreachable!(),
        }
    }
    pub fn kind(&self) -> SyntaxKind {
        self.green().kind()
    }
    pub fn text_range(&self) -> TextRange {
        self.0.text_range()
    }
    pub fn index(&self) -> usize {
        self.0.index()
    }
    pub fn text(&self) -> &str {
        self.green().text()
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        self.0.parent()
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        iter::successors(self.parent(), SyntaxNode::parent)
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        sib_or_token(&self.0, Direction::Next)
    }
    pub fn next_sibling_or_token_by_kind(&self, matcher: &dyn Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        self.siblings_with_tokens(Direction::Next).skip(1).find(|it| matcher(it.kind()))
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        sib_or_token(&self.0, Direction::Prev)
    }
    pub fn siblings_with_tokens(&self, direction: Direction) -> impl Iterator<Item = SyntaxElement> {
        let me: SyntaxElement = self.clone().into();
        iter::successors(Some(me), move |el| match direction {
            Direction::Next => el.next_sibling_or_token(),
            Direction::Prev => el.prev_sibling_or_token(),
        })
    }
    pub fn next_token(&self) -> Option<SyntaxToken> {
        let mut cur: SyntaxElement = self.clone().into();
        loop {
            match cur.next_sibling_or_token() {
                Some(sib) => {
                    if let Some(t) = sib.first_token() {
                        return Some(t);
                    }
                    cur = sib;
                }
                None => cur = cur.parent()?.into(),
            }
        }
    }
    pub fn prev_token(&self) -> Option<SyntaxToken> {
        let mut cur: SyntaxElement = self.clone().into();
        loop {
            match cur.prev_sibling_or_token() {
                Some(sib) => {
                    if let Some(t) = sib.last_token() {
                        return Some(t);
                    }
                    cur = sib;
                }
                None => cur = cur.parent()?.into(),
            }
        }
    }
    pub fn detach(&self) {
        assert!(self.0.mutable, "immutable tree: {self}");
        NodeData::detach(&self.0)
    }
}

impl SyntaxElement {
    pub fn text_range(&self) -> TextRange {
        match self {
            NodeOrToken::Node(it) => it.text_range(),
            NodeOrToken::Token(it) => it.text_range(),
        }
    }
    pub fn index(&self) -> usize {
        match self {
            NodeOrToken::Node(it) => it.index(),
            NodeOrToken::Token(it) => it.index(),
        }
    }
    pub fn kind(&self) -> SyntaxKind {
        match self {
            NodeOrToken::Node(it) => it.kind(),
            NodeOrToken::Token(it) => it.kind(),
        }
    }
    pub fn parent(&self) -> Option<SyntaxNode> {
        match self {
            NodeOrToken::Node(it) => it.parent(),
            NodeOrToken::Token(it) => it.parent(),
        }
    }
    pub fn ancestors(&self) -> impl Iterator<Item = SyntaxNode> {
        let first = match self {
            NodeOrToken::Node(it) => Some(it.clone()),
            NodeOrToken::Token(it) => it.parent(),
        };
        iter::successors(first, SyntaxNode::parent)
    }
    pub fn first_token(&self) -> Option<SyntaxToken> {
        match self {
            NodeOrToken::Node(it) => it.first_token(),
            NodeOrToken::Token(it) => Some(it.clone()),
        }
    }
    pub fn last_token(&self) -> Option<SyntaxToken> {
        match self {
            NodeOrToken::Node(it) => it.last_token(),
            NodeOrToken::Token(it) => Some(it.clone()),
        }
    }
    pub fn next_sibling_or_token(&self) -> Option<SyntaxElement> {
        match self {
            NodeOrToken::Node(it) => it.next_sibling_or_token(),
            NodeOrToken::Token(it) => it.next_sibling_or_token(),
        }
    }
    pub fn prev_sibling_or_token(&self) -> Option<SyntaxElement> {
        match self {
            NodeOrToken::Node(it) => it.prev_sibling_or_token(),
            NodeOrToken::Token(it) => it.prev_sibling_or_token(),
        }
    }
    fn token_at_offset(&self, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        assert!(self.text_range().start() <= offset && offset <= self.text_range().end());
        match self {
            NodeOrToken::Token(token) => TokenAtOffset::Single(token.clone()),
            NodeOrToken::Node(node) => node.token_at_offset(offset),
        }
    }
    pub fn detach(&self) {
        match self {
            NodeOrToken::Node(it) => it.detach(),
            NodeOrToken::Token(it) => it.detach(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct SyntaxNodeChildren {
    next: Option<SyntaxNode>,
}
impl Iterator for SyntaxNodeChildren {
    type Item = SyntaxNode;
    fn next(&mut self) -> Option<SyntaxNode> {
        self.next.take().map(|next| {
            self.next = next.next_sibling();
            next
        })
    }
}
#[derive(Clone, Debug)]
pub struct SyntaxElementChildren {
    next: Option<SyntaxElement>,
}
impl Iterator for SyntaxElementChildren {
    type Item = SyntaxElement;
    fn next(&mut self) -> Option<SyntaxElement> {
        self.next.take().map(|next| {
            self.next = next.next_sibling_or_token();
            next
        })
    }
}

#[derive(Debug, Clone)]
pub struct Preorder {
    start: SyntaxNode,
    next: Option<WalkEvent<SyntaxNode>>,
    skip_subtree: bool,
}
impl Preorder {
    fn new(start: SyntaxNode) -> Preorder {
        let next = Some(WalkEvent::Enter(start.clone()));
        Preorder { start, next, skip_subtree: false }
    }
    pub fn skip_subtree(&mut self) {
        self.skip_subtree = true;
    }
    fn do_skip(&mut self) {
        self.next = self.next.take().map(|next| match next {
            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap()),
            WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
        })
    }
}
impl Iterator for Preorder {
    type Item = WalkEvent<SyntaxNode>;
    fn next(&mut self) -> Option<WalkEvent<SyntaxNode>> {
        if self.skip_subtree {
            self.do_skip();
            self.skip_subtree = false;
        }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(node) => match node.first_child() {
                    Some(child) => WalkEvent::Enter(child),
                    None => WalkEvent::Leave(node.clone()),
                },
                WalkEvent::Leave(node) => {
                    if node == &self.start {
                        return None;
                    }
                    match node.next_sibling() {
                        Some(sibling) => WalkEvent::Enter(sibling),
                        None => match node.parent() {
                            Some(node) => WalkEvent::Leave(node),
                            None => return None,
                        },
                    }
                }
            })
        });
        next
    }
}
#[derive(Debug, Clone)]
pub struct PreorderWithTokens {
    start: SyntaxElement,
    next: Option<WalkEvent<SyntaxElement>>,
    skip_subtree: bool,
}
impl PreorderWithTokens {
    fn new(start: SyntaxNode) -> PreorderWithTokens {
        let next = Some(WalkEvent::Enter(start.clone().into()));
        PreorderWithTokens { start: start.into(), next, skip_subtree: false }
    }
    pub fn skip_subtree(&mut self) {
        self.skip_subtree = true;
    }
    fn do_skip(&mut self) {
        self.next = self.next.take().map(|next| match next {
            WalkEvent::Enter(first_child) => WalkEvent::Leave(first_child.parent().unwrap().into()),
            WalkEvent::Leave(parent) => WalkEvent::Leave(parent),
        })
    }
}
impl Iterator for PreorderWithTokens {
    type Item = WalkEvent<SyntaxElement>;
    fn next(&mut self) -> Option<WalkEvent<SyntaxElement>> {
        if self.skip_subtree {
            self.do_skip();
            self.skip_subtree = false;
        }
        let next = self.next.take();
        self.next = next.as_ref().and_then(|next| {
            Some(match next {
                WalkEvent::Enter(el) => match el {
                    NodeOrToken::Node(node) => match node.first_child_or_token() {
                        Some(child) => WalkEvent::Enter(child),
                        None => WalkEvent::Leave(node.clone().into()),
                    },
                    NodeOrToken::Token(token) => WalkEvent::Leave(token.clone().into()),
                },
                WalkEvent::Leave(el) if el == &self.start => return None,
                WalkEvent::Leave(el) => match el.next_sibling_or_token() {
                    Some(sibling) => WalkEvent::Enter(sibling),
                    None => match el.parent() {
                        Some(parent) => WalkEvent::Leave(parent.into()),
                        None => unreachable!(),
                    },
                },
            })
        });
        next
    }
}

// ---- SyntaxText

#[derive(Clone)]
pub struct SyntaxText {
    node: SyntaxNode,
    range: TextRange,
}
impl SyntaxText {
    pub(crate) fn new(node: SyntaxNode) -> SyntaxText {
        let range = node.text_range();
        SyntaxText { node, range }
    }
    pub fn len(&self) -> TextSize {
        self.range.len()
    }
    pub fn is_empty(&self) -> bool {
        self.range.is_empty()
    }
    pub fn contains_char(&self, c: char) -> bool {
        self.try_for_each_chunk(|chunk| if chunk.contains(c) { Err(()) } else { Ok(()) }).is_err()
    }
    pub fn find_char(&self, c: char) -> Option<TextSize> {
        let mut acc: TextSize = 0.into();
        let res = self.try_for_each_chunk(|chunk| {
            if let Some(pos) = chunk.find(c) {
                let pos: TextSize = (pos as u32).into();
                return Err(acc + pos);
            }
            acc += TextSize::of(chunk);
            Ok(())
        });
        res.err()
    }
    pub fn char_at(&self, offset: TextSize) -> Option<char> {
        let mut start: TextSize = 0.into();
        let res = self.try_for_each_chunk(|chunk| {
            let end = start + TextSize::of(chunk);
            if start <= offset && offset < end {
                let off: usize = u32::from(offset - start) as usize;
                return Err(chunk[off..].chars().next().unwrap());
            }
            start = end;
            Ok(())
        });
        res.err()
    }
    pub fn slice<R: private::SyntaxTextRange>(&self, range: R) -> SyntaxText {
        let start = range.start().unwrap_or_default();
        let end = range.end().unwrap_or(self.len());
        assert!(start <= end);
        let len = end - start;
        let start = self.range.start() + start;
        let end = start + len;
        assert!(
            start <= end,
            "invalid slice, range: {:?}, slice: {:?}",
            self.range,
            (range.start(), range.end()),
        );
        let range = TextRange::new(start, end);
        assert!(self.range.contains_range(range));
        SyntaxText { node: self.node.clone(), range }
    }
    pub fn try_fold_chunks<T, F, E>(&self, init: T, mut f: F) -> Result<T, E>
    where
        F: FnMut(T, &str) -> Result<T, E>,
    {
        self.tokens_with_ranges().try_fold(init, move |acc, (token, range)| f(acc, &token.text()[range]))
    }
    pub fn try_for_each_chunk<F: FnMut(&str) -> Result<(), E>, E>(&self, mut f: F) -> Result<(), E> {
        self.try_fold_chunks((), move |(), chunk| f(chunk))
    }
    pub fn for_each_chunk<F: FnMut(&str)>(&self, mut f: F) {
        enum Void {}
        match self.try_for_each_chunk(|chunk| {
            f(chunk);
            Ok::<(), Void>(())
        }) {
            Ok(()) => (),
            Err(void) => match void {},
        }
    }
    fn tokens_with_ranges(&self) -> impl Iterator<Item = (SyntaxToken, TextRange)> {
        let text_range = self.range;
        self.node.descendants_with_tokens().filter_map(|it| it.into_token()).filter_map(move |token| {
            let token_range = token.text_range();
            let range = text_range.intersect(token_range)?;
            Some((token, range - token_range.start()))
        })
    }
}
impl fmt::Debug for SyntaxText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.to_string(), f)
    }
}
impl fmt::Display for SyntaxText {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.try_for_each_chunk(|chunk| fmt::Display::fmt(chunk, f))
    }
}
impl From<SyntaxText> for String {
    fn from(text: SyntaxText) -> String {
        text.to_string()
    }
}
impl PartialEq<str> for SyntaxText {
    fn eq(&self, mut rhs: &str) -> bool {
        self.try_for_each_chunk(|chunk| {
            if !rhs.starts_with(chunk) {
                return Err(());
            }
            rhs = &rhs[chunk.len()..];
            Ok(())
        })
        .is_ok()
            && rhs.is_empty()
    }
}
impl PartialEq<SyntaxText> for str {
    fn eq(&self, rhs: &SyntaxText) -> bool {
        rhs == self
    }
}
impl PartialEq<&'_ str> for SyntaxText {
    fn eq(&self, rhs: &&str) -> bool {
        self == *rhs
    }
}
impl PartialEq<SyntaxText> for &'_ str {
    fn eq(&self, rhs: &SyntaxText) -> bool {
        rhs == self
    }
}
impl PartialEq for SyntaxText {
    fn eq(&self, other: &SyntaxText) -> bool {
        self.range.len() == other.range.len() && self.to_string() == other.to_string()
    }
}
impl Eq for SyntaxText {}

mod private {
    use std::ops;
    use text_size::{TextRange, TextSize};
    pub trait SyntaxTextRange {
        fn start(&self) -> Option<TextSize>;
        fn end(&self) -> Option<TextSize>;
    }
    impl SyntaxTextRange for TextRange {
        fn start(&self) -> Option<TextSize> {
            Some(TextRange::start(*self))
        }
        fn end(&self) -> Option<TextSize> {
            Some(TextRange::end(*self))
        }
    }
    impl SyntaxTextRange for ops::Range<TextSize> {
        fn start(&self) -> Option<TextSize> {
            Some(self.start)
        }
        fn end(&self) -> Option<TextSize> {
            Some(self.end)
        }
    }
    impl SyntaxTextRange for ops::RangeFrom<TextSize> {
        fn start(&self) -> Option<TextSize> {
            Some(self.start)
        }
        fn end(&self) -> Option<TextSize> {
            None
        }
    }
    impl SyntaxTextRange for ops::RangeTo<TextSize> {
        fn start(&self) -> Option<TextSize> {
            None
        }
        fn end(&self) -> Option<TextSize> {
            Some(self.end)
        }
    }
    impl SyntaxTextRange for ops::RangeFull {
        fn start(&self) -> Option<TextSize> {
            None
        }
        fn end(&self) -> Option<TextSize> {
            None
        }
    }
}
#[allow(unused)]
fn _unused() {
    let _ = ptr::null::<()>();
}

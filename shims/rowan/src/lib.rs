//! Offline stand-in for the `rowan` crate (API-compatible re-implementation, 0.15.15).
//! Green trees are immutable `Arc`s; red nodes are `Rc` cursors.
pub mod api;
pub mod ast;
pub mod cursor;
pub mod green;
mod utility_types;

pub use text_size::{TextLen, TextRange, TextSize};

pub use crate::api::{
    Language, SyntaxElement, SyntaxElementChildren, SyntaxNode, SyntaxNodeChildren, SyntaxToken,
};
pub use crate::cursor::SyntaxText;
pub use crate::green::{
    Checkpoint, Children, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData,
    NodeCache, SyntaxKind,
};
pub use crate::utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent};

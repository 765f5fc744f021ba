//! Stand-in for the crates.io `rowan` crate, version 0.15 (not available offline).
//! Same public API and semantics, implemented with safe reference counting instead of
//! the original's hand-managed memory. Written from rowan's documentation.
pub mod api;
pub mod ast;
pub mod cursor;
mod green;
mod syntax_text;
mod utility_types;

pub use crate::api::{
    Language, SyntaxElement, SyntaxElementChildren, SyntaxNode, SyntaxNodeChildren, SyntaxToken,
};
pub use crate::green::{
    Checkpoint, Children, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData,
    NodeCache, SyntaxKind,
};
pub use crate::syntax_text::SyntaxText;
pub use crate::utility_types::{Direction, NodeOrToken, TokenAtOffset, WalkEvent};
pub use text_size::{TextLen, TextRange, TextSize};

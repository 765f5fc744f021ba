//! Stand-in for itertools 0.14: re-exports the cached 0.13.0, which is API-compatible for what the tree uses.
pub use it::*;

use crate::FileId;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct AnchoredPathBuf {
    pub anchor: FileId,
    pub path: String,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct AnchoredPath<'a> {
    pub anchor: FileId,
    pub path: &'a str,
}

//! Stand-in for the crates.io `drop_bomb` crate.
use std::borrow::Cow;

#[derive(Debug)]
#[must_use]
pub struct DropBomb {
    msg: Cow<'static, str>,
    defused: bool,
}
impl DropBomb {
    pub fn new(msg: impl Into<Cow<'static, str>>) -> DropBomb {
        DropBomb { msg: msg.into(), defused: false }
    }
    pub fn defuse(&mut self) {
        self.defused = true;
    }
    pub fn is_defused(&self) -> bool {
        self.defused
    }
}
impl Drop for DropBomb {
    fn drop(&mut self) {
        if self.defused || std::thread::panicking() {
            return;
        }
        panic!("{}", self.msg)
    }
}

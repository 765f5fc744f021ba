use crate::*;
impl<'a> G<'a> {
    pub fn spec_sigs(&mut self, _m: SymId) {}
    pub fn spec_after_item(&mut self, _it: SymId) {}
    pub fn spec_end_of_module(&mut self, _m: SymId) {}
    pub fn spec_files(&mut self) {}
}

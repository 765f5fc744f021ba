//! Stand-in: the number of threads is never known, so `time` reports no local offset.
pub fn num_threads() -> Option<std::num::NonZeroUsize> {
    None
}
pub fn is_single_threaded() -> Option<bool> {
    None
}

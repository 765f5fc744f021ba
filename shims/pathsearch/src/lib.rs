//! Stand-in for `pathsearch`.
use std::path::PathBuf;
pub fn find_executable_in_path(name: impl AsRef<std::ffi::OsStr>) -> Option<PathBuf> {
    use std::os::unix::fs::PermissionsExt;
    std::env::split_paths(&std::env::var_os("PATH")?)
        .map(|d| d.join(name.as_ref()))
        .find(|p| p.metadata().is_ok_and(|m| m.is_file() && m.permissions().mode() & 0o111 != 0))
}

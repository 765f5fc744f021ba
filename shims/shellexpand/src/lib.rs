//! Stand-in for `shellexpand`: `tilde` only.
use std::borrow::Cow;
pub fn tilde<S: AsRef<str> + ?Sized>(s: &S) -> Cow<'_, str> {
    let s = s.as_ref();
    if let Some(rest) = s.strip_prefix('~')
        && (rest.is_empty() || rest.starts_with('/'))
        && let Ok(home) = std::env::var("HOME")
    {
        return Cow::Owned(format!("{home}{rest}"));
    }
    Cow::Borrowed(s)
}

use percent_encoding::{AsciiSet, CONTROLS, percent_decode_str, utf8_percent_encode};
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

/// What the `url` crate escapes in a path segment of a file URL.
const PATH: &AsciiSet = &CONTROLS
    .add(b' ')
    .add(b'"')
    .add(b'#')
    .add(b'<')
    .add(b'>')
    .add(b'?')
    .add(b'`')
    .add(b'{')
    .add(b'}')
    .add(b'%')
    .add(b'\\')
    .add(b'^')
    .add(b'|');

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Uri(String);

impl Uri {
    pub fn parse(s: &str) -> Result<Uri, String> {
        match s.split_once(':') {
            Some((scheme, _)) if !scheme.is_empty() && scheme.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)) => {
                Ok(Uri(s.to_string()))
            }
            _ => Err(format!("not a URI: {s}")),
        }
    }
    pub fn from_file_path(p: impl AsRef<Path>) -> Result<Uri, ()> {
        let p = p.as_ref();
        if !p.is_absolute() {
            return Err(());
        }
        let mut s = String::from("file://");
        let mut any = false;
        for c in p.components() {
            match c {
                std::path::Component::Normal(x) => {
                    s.push('/');
                    s.push_str(&utf8_percent_encode(x.to_str().ok_or(())?, PATH).to_string());
                    any = true;
                }
                std::path::Component::ParentDir => {
                    s.push_str("/..");
                    any = true;
                }
                _ => {}
            }
        }
        if !any {
            s.push('/');
        }
        Ok(Uri(s))
    }
    pub fn to_file_path(&self) -> Result<PathBuf, ()> {
        let rest = self.0.strip_prefix("file://").ok_or(())?;
        let rest = rest.strip_prefix("localhost").unwrap_or(rest);
        if !rest.starts_with('/') {
            return Err(());
        }
        let rest = rest.split(['?', '#']).next().unwrap_or(rest);
        Ok(PathBuf::from(percent_decode_str(rest).decode_utf8().map_err(|_| ())?.into_owned()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn scheme(&self) -> &str {
        self.0.split(':').next().unwrap_or("")
    }
    pub fn path(&self) -> &str {
        self.0.strip_prefix("file://").unwrap_or(&self.0)
    }
}

impl From<Uri> for String {
    fn from(u: Uri) -> String {
        u.0
    }
}
impl std::fmt::Display for Uri {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::str::FromStr for Uri {
    type Err = String;
    fn from_str(s: &str) -> Result<Uri, String> {
        Uri::parse(s)
    }
}
impl AsRef<str> for Uri {
    fn as_ref(&self) -> &str {
        &self.0
    }
}

//! Stand-in for `gen-lsp-types` 0.4: the protocol types that aptos-language-server uses, with the
//! JSON shape of the Language Server Protocol.
#![allow(clippy::all)]
mod generated;
mod uri;
pub use generated::*;
pub use uri::Uri;
use serde::{Deserialize, Serialize, de::DeserializeOwned};

macro_rules! method {
    ($name:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $name(&'static str);
        impl $name {
            pub const fn new(s: &'static str) -> Self {
                Self(s)
            }
            pub const fn as_str(&self) -> &'static str {
                self.0
            }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(self.0)
            }
        }
        impl From<$name> for String {
            fn from(m: $name) -> String {
                m.0.to_string()
            }
        }
    };
}
method!(LspRequestMethod);
method!(LspNotificationMethod);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MessageDirection {
    ClientToServer,
    ServerToClient,
    Both,
}

pub trait Request {
    type Params: DeserializeOwned + Serialize;
    type Result: DeserializeOwned + Serialize;
    const METHOD: LspRequestMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

pub trait Notification {
    type Params: DeserializeOwned + Serialize;
    const METHOD: LspNotificationMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind", rename_all = "camelCase")]
pub enum DocumentDiagnosticReport {
    #[serde(rename = "full")]
    RelatedFullDocumentDiagnosticReport(RelatedFullDocumentDiagnosticReport),
    #[serde(rename = "unchanged")]
    RelatedUnchangedDocumentDiagnosticReport(RelatedUnchangedDocumentDiagnosticReport),
}

#[derive(Debug, Clone, PartialEq)]
pub enum DocumentChange {
    CreateFile(CreateFile),
    RenameFile(RenameFile),
    DeleteFile(DeleteFile),
    TextDocumentEdit(TextDocumentEdit),
}

impl Serialize for DocumentChange {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::Error;
        let (kind, v) = match self {
            DocumentChange::CreateFile(x) => (Some("create"), serde_json::to_value(x)),
            DocumentChange::RenameFile(x) => (Some("rename"), serde_json::to_value(x)),
            DocumentChange::DeleteFile(x) => (Some("delete"), serde_json::to_value(x)),
            DocumentChange::TextDocumentEdit(x) => (None, serde_json::to_value(x)),
        };
        let mut v = v.map_err(S::Error::custom)?;
        if let Some(kind) = kind {
            v["kind"] = kind.into();
        }
        v.serialize(s)
    }
}

impl<'de> Deserialize<'de> for DocumentChange {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let v = serde_json::Value::deserialize(d)?;
        match v.get("kind").and_then(|k| k.as_str()) {
            Some("create") => serde_json::from_value(v).map(Self::CreateFile),
            Some("rename") => serde_json::from_value(v).map(Self::RenameFile),
            Some("delete") => serde_json::from_value(v).map(Self::DeleteFile),
            _ => serde_json::from_value(v).map(Self::TextDocumentEdit),
        }
        .map_err(D::Error::custom)
    }
}

/// On the wire the tokens are one flat array of integers, five per token.
pub(crate) mod flat_tokens {
    use crate::SemanticToken;
    use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Error};

    pub fn flatten(tokens: &[SemanticToken]) -> Vec<u32> {
        tokens
            .iter()
            .flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset])
            .collect()
    }

    pub fn unflatten(data: Vec<u32>) -> Result<Vec<SemanticToken>, &'static str> {
        if data.len() % 5 != 0 {
            return Err("the number of integers is not a multiple of five");
        }
        Ok(data
            .chunks_exact(5)
            .map(|c| SemanticToken {
                delta_line: c[0],
                delta_start: c[1],
                length: c[2],
                token_type: c[3],
                token_modifiers_bitset: c[4],
            })
            .collect())
    }

    pub fn serialize<S: Serializer>(tokens: &[SemanticToken], s: S) -> Result<S::Ok, S::Error> {
        flatten(tokens).serialize(s)
    }

    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<SemanticToken>, D::Error> {
        unflatten(Vec::deserialize(d)?).map_err(D::Error::custom)
    }
}

pub(crate) mod flat_tokens_opt {
    use crate::SemanticToken;
    use serde::{Deserialize, Deserializer, Serialize, Serializer, de::Error};

    pub fn serialize<S: Serializer>(tokens: &Option<Vec<SemanticToken>>, s: S) -> Result<S::Ok, S::Error> {
        tokens.as_deref().map(super::flat_tokens::flatten).serialize(s)
    }

    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<Vec<SemanticToken>>, D::Error> {
        Option::<Vec<u32>>::deserialize(d)?
            .map(super::flat_tokens::unflatten)
            .transpose()
            .map_err(D::Error::custom)
    }
}

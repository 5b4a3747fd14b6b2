//! Offline stand-in for the part of `gen-lsp-types` 0.4 that the language server can reach:
//! LSP structures with their wire format.
#![allow(clippy::all)]
use serde::{de::DeserializeOwned, Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::Cow;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

macro_rules! int_enum {
    ($name:ident: $($v:ident = $n:expr),*) => {
        impl Serialize for $name {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) }
        }
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let n = u32::deserialize(d)?;
                $(if n == $n { return Ok($name::$v); })*
                Err(serde::de::Error::custom(format!("bad {}: {}", stringify!($name), n)))
            }
        }
    };
}
macro_rules! str_enum {
    ($name:ident: $($v:ident = $w:expr),*) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $($v,)* Custom(Cow<'static, str>) }
        impl $name {
            pub const fn new(s: &'static str) -> Self { $name::Custom(Cow::Borrowed(s)) }
            pub fn as_str(&self) -> &str { match self { $($name::$v => $w,)* $name::Custom(s) => s } }
        }
        impl Default for $name { fn default() -> Self { $( if true { return $name::$v; } )* unreachable!() } }
        impl Serialize for $name {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(self.as_str()) }
        }
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = String::deserialize(d)?;
                $(if s == $w { return Ok($name::$v); })*
                Ok($name::Custom(Cow::Owned(s)))
            }
        }
        impl From<String> for $name { fn from(s: String) -> Self { $(if s == $w { return $name::$v; })* $name::Custom(Cow::Owned(s)) } }
        impl From<&str> for $name { fn from(s: &str) -> Self { s.to_owned().into() } }
        impl std::fmt::Display for $name { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.as_str()) } }
    };
}
macro_rules! method {
    ($name:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $name(Cow<'static, str>);
        impl $name {
            pub const fn new(s: &'static str) -> Self { $name(Cow::Borrowed(s)) }
            pub fn as_str(&self) -> &str { &self.0 }
        }
        impl From<$name> for String { fn from(m: $name) -> String { m.0.into_owned() } }
        impl std::fmt::Display for $name { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
        impl AsRef<str> for $name { fn as_ref(&self) -> &str { &self.0 } }
        impl PartialEq<str> for $name { fn eq(&self, o: &str) -> bool { self.0 == o } }
        impl PartialEq<&str> for $name { fn eq(&self, o: &&str) -> bool { self.0 == *o } }
    };
}
method!(LspRequestMethod);
method!(LspNotificationMethod);

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum MessageDirection { ClientToServer, ServerToClient, Both }

pub trait Request {
    type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
    type Result: DeserializeOwned + Serialize + Send + Sync + 'static;
    const METHOD: LspRequestMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}
pub trait Notification {
    type Params: DeserializeOwned + Serialize + Send + Sync + 'static;
    const METHOD: LspNotificationMethod;
    const MESSAGE_DIRECTION: MessageDirection;
}

include!("types.rs");

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ActiveParameter { Int(u32), Null(()) }

macro_rules! progress {
    ($name:ident, $inner:ident, $kind:literal { $($f:ident : $t:ty),* }) => {
        #[derive(Debug, Clone, PartialEq, Eq, Default)]
        pub struct $name { $(pub $f: $t),* }
        #[derive(Serialize, Deserialize)]
        struct $inner { kind: Cow<'static, str>, $(#[serde(default, skip_serializing_if = "is_none")] $f: $t),* }
        impl Serialize for $name {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                $inner { kind: $kind.into(), $($f: self.$f.clone()),* }.serialize(s)
            }
        }
        impl<'de> Deserialize<'de> for $name {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let i = $inner::deserialize(d)?;
                if i.kind != $kind { return Err(serde::de::Error::custom("progress kind")); }
                Ok($name { $($f: i.$f),* })
            }
        }
    };
}
trait IsNone { fn is_none_(&self) -> bool; }
impl<T> IsNone for Option<T> { fn is_none_(&self) -> bool { self.is_none() } }
impl IsNone for String { fn is_none_(&self) -> bool { false } }
fn is_none<T: IsNone>(t: &T) -> bool { t.is_none_() }
progress!(WorkDoneProgressBegin, BeginWire, "begin" { title: String, cancellable: Option<bool>, message: Option<String>, percentage: Option<u32> });
progress!(WorkDoneProgressReport, ReportWire, "report" { cancellable: Option<bool>, message: Option<String>, percentage: Option<u32> });
progress!(WorkDoneProgressEnd, EndWire, "end" { message: Option<String> });

/// `workspace/documentChanges` entries: a text edit carries no `kind`, resource operations do.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DocumentChange { TextDocumentEdit(TextDocumentEdit), CreateFile(CreateFile), RenameFile(RenameFile), DeleteFile(DeleteFile) }
impl Serialize for DocumentChange {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let (mut v, kind) = match self {
            DocumentChange::TextDocumentEdit(e) => return e.serialize(s),
            DocumentChange::CreateFile(e) => (serde_json::to_value(e).unwrap(), "create"),
            DocumentChange::RenameFile(e) => (serde_json::to_value(e).unwrap(), "rename"),
            DocumentChange::DeleteFile(e) => (serde_json::to_value(e).unwrap(), "delete"),
        };
        v["kind"] = kind.into();
        v.serialize(s)
    }
}
impl<'de> Deserialize<'de> for DocumentChange {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = serde_json::Value::deserialize(d)?;
        let k = v.get("kind").and_then(|k| k.as_str()).map(|s| s.to_owned());
        let e = |e: serde_json::Error| serde::de::Error::custom(e.to_string());
        Ok(match k.as_deref() {
            None => DocumentChange::TextDocumentEdit(serde_json::from_value(v).map_err(e)?),
            Some("create") => DocumentChange::CreateFile(serde_json::from_value(v).map_err(e)?),
            Some("rename") => DocumentChange::RenameFile(serde_json::from_value(v).map_err(e)?),
            Some("delete") => DocumentChange::DeleteFile(serde_json::from_value(v).map_err(e)?),
            Some(k) => return Err(serde::de::Error::custom(format!("unknown kind {k}"))),
        })
    }
}

/// Semantic tokens travel as a flat array of 5-tuples.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash)]
pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokens {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub result_id: Option<String>,
    #[serde(with = "flat_tokens")]
    pub data: Vec<SemanticToken>,
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct SemanticTokensEdit { pub start: u32, pub delete_count: u32, pub data: Option<Vec<SemanticToken>> }
mod flat_tokens {
    use super::*;
    pub fn serialize<S: Serializer>(v: &[SemanticToken], s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(v.iter().flat_map(|t| [t.delta_line, t.delta_start, t.length, t.token_type, t.token_modifiers_bitset]))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<SemanticToken>, D::Error> {
        let v = Vec::<u32>::deserialize(d)?;
        if v.len() % 5 != 0 { return Err(serde::de::Error::custom("tokens come in fives")); }
        Ok(v.chunks_exact(5).map(|c| SemanticToken { delta_line: c[0], delta_start: c[1], length: c[2], token_type: c[3], token_modifiers_bitset: c[4] }).collect())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Uri(String);
impl Default for Uri { fn default() -> Self { Uri("file:///".into()) } }
fn hexval(b: u8) -> Option<u8> { (b as char).to_digit(16).map(|d| d as u8) }
impl Uri {
    pub fn parse(s: &str) -> Result<Uri, String> {
        let Some(colon) = s.find(':') else { return Err("relative URL without a base".into()) };
        let sch = &s[..colon];
        if sch.is_empty() || !sch.as_bytes()[0].is_ascii_alphabetic() || !sch.bytes().all(|b| b.is_ascii_alphanumeric() || b"+-.".contains(&b)) {
            return Err("bad scheme".into());
        }
        Ok(Uri(s.to_owned()))
    }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn scheme(&self) -> &str { &self.0[..self.0.find(':').unwrap()] }
    pub fn path(&self) -> &str {
        let rest = &self.0[self.0.find(':').unwrap() + 1..];
        let rest = match rest.strip_prefix("//") { Some(r) => &r[r.find('/').unwrap_or(r.len())..], None => rest };
        let end = rest.find(['?', '#']).unwrap_or(rest.len());
        &rest[..end]
    }
    pub fn from_file_path<P: AsRef<Path>>(p: P) -> Result<Uri, ()> {
        let p = p.as_ref();
        if !p.is_absolute() { return Err(()); }
        let mut out = String::from("file://");
        let s = p.to_str().ok_or(())?;
        let mut any = false;
        for c in p.components().skip(1) {
            any = true;
            out.push('/');
            for b in c.as_os_str().to_str().ok_or(())?.bytes() {
                match b {
                    b'\x00'..=b' ' | b'"' | b'#' | b'<' | b'>' | b'?' | b'`' | b'{' | b'}' | b'/' | b'%' | b'\\' | b'^' | b'|' | 0x7f..=0xff => {
                        out.push_str(&format!("%{b:02X}"))
                    }
                    _ => out.push(b as char),
                }
            }
        }
        if !any { out.push('/'); }
        let _ = s;
        Ok(Uri(out))
    }
    pub fn to_file_path(&self) -> Result<PathBuf, ()> {
        if self.scheme() != "file" { return Err(()); }
        let path = self.path().as_bytes();
        if path.first() != Some(&b'/') { return Err(()); }
        let mut out = Vec::new();
        let mut i = 0;
        while i < path.len() {
            if path[i] == b'%' && i + 2 < path.len() {
                if let (Some(a), Some(b)) = (hexval(path[i + 1]), hexval(path[i + 2])) {
                    out.push(a * 16 + b);
                    i += 3;
                    continue;
                }
            }
            out.push(path[i]);
            i += 1;
        }
        String::from_utf8(out).map(PathBuf::from).map_err(|_| ())
    }
}
impl From<Uri> for String { fn from(u: Uri) -> String { u.0 } }
impl std::fmt::Display for Uri { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::str::FromStr for Uri { type Err = String; fn from_str(s: &str) -> Result<Self, String> { Uri::parse(s) } }
impl AsRef<str> for Uri { fn as_ref(&self) -> &str { &self.0 } }
impl std::ops::Deref for Uri { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl Serialize for Uri { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.0) } }
impl<'de> Deserialize<'de> for Uri {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Uri::parse(&s).map_err(serde::de::Error::custom)
    }
}

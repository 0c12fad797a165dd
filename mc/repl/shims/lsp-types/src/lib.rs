//! Stand-in for the parts of `lsp-types` which ogma-ls uses, in the protocol's JSON.
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};

macro_rules! data {
    ($($(#[$m:meta])* $n:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? })*) => { $(
        #[derive(Debug, Clone, PartialEq, Default, Serialize, Deserialize)]
        #[serde(rename_all = "camelCase")]
        $(#[$m])*
        pub struct $n { $($(#[$fm])* pub $f: $t),* }
    )* };
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Default, Hash, Serialize, Deserialize)]
pub struct Position {
    pub line: u32,
    pub character: u32,
}
impl Position {
    pub fn new(line: u32, character: u32) -> Self {
        Position { line, character }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Hash, Serialize, Deserialize)]
pub struct Range {
    pub start: Position,
    pub end: Position,
}
impl Range {
    pub fn new(start: Position, end: Position) -> Self {
        Range { start, end }
    }
}
data! {
    TextDocumentContentChangeEvent { range: Option<Range>, range_length: Option<u32>, text: String }
    TextDocumentItem { uri: Url, language_id: String, version: i32, text: String }
    TextDocumentIdentifier { uri: Url }
    VersionedTextDocumentIdentifier { uri: Url, version: i32 }
    DidOpenTextDocumentParams { text_document: TextDocumentItem }
    DidChangeTextDocumentParams { text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent> }
    DidSaveTextDocumentParams { text_document: TextDocumentIdentifier, text: Option<String> }
    DidCloseTextDocumentParams { text_document: TextDocumentIdentifier }
    TextDocumentPositionParams { text_document: TextDocumentIdentifier, position: Position }
    HoverParams { #[serde(flatten)] text_document_position_params: TextDocumentPositionParams }
    CompletionParams { #[serde(flatten)] text_document_position: TextDocumentPositionParams }
    CompletionItem { label: String, kind: Option<CompletionItemKind>, detail: Option<String>, documentation: Option<Documentation>, insert_text: Option<String> }
    MarkupContent { kind: MarkupKind, value: String }
    InitializeParams { process_id: Option<u32> }
    InitializeResult { capabilities: ServerCapabilities, server_info: Option<ServerInfo> }
    ServerInfo { name: String, version: Option<String> }
    InitializeError { retry: bool }
    CompletionOptions { trigger_characters: Option<Vec<String>>, resolve_provider: Option<bool> }
    ServerCapabilities { text_document_sync: Option<TextDocumentSyncKind>, completion_provider: Option<CompletionOptions>, hover_provider: Option<bool>, definition_provider: Option<OneOf<bool, ()>> }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Hover {
    pub contents: HoverContents,
    pub range: Option<Range>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum HoverContents {
    Scalar(MarkedString),
    Array(Vec<MarkedString>),
    Markup(MarkupContent),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum MarkedString {
    String(String),
}
impl MarkedString {
    pub fn from_markdown(s: String) -> Self {
        MarkedString::String(s)
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Documentation {
    String(String),
    MarkupContent(MarkupContent),
}
#[derive(Debug, Clone, Copy, PartialEq, Default, Serialize, Deserialize)]
pub enum MarkupKind {
    #[default]
    PlainText,
    Markdown,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum OneOf<A, B> {
    Left(A),
    Right(B),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct CompletionItemKind(i32);
impl CompletionItemKind {
    pub const TEXT: Self = Self(1);
    pub const METHOD: Self = Self(2);
    pub const FUNCTION: Self = Self(3);
    pub const CLASS: Self = Self(7);
    pub const FILE: Self = Self(17);
    pub const FOLDER: Self = Self(19);
    pub const CONSTANT: Self = Self(21);
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
#[serde(transparent)]
pub struct TextDocumentSyncKind(i32);
impl TextDocumentSyncKind {
    pub const NONE: Self = Self(0);
    pub const FULL: Self = Self(1);
    pub const INCREMENTAL: Self = Self(2);
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompletionResponse {
    Array(Vec<CompletionItem>),
}
impl From<Vec<CompletionItem>> for CompletionResponse {
    fn from(x: Vec<CompletionItem>) -> Self {
        CompletionResponse::Array(x)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Url(String);
#[allow(clippy::result_unit_err)]
impl Url {
    pub fn from_file_path<P: AsRef<Path>>(p: P) -> Result<Url, ()> {
        match p.as_ref().is_absolute() {
            true => Ok(Url(format!("file://{}", p.as_ref().to_str().ok_or(())?))),
            false => Err(()),
        }
    }
    pub fn parse(s: &str) -> Result<Url, ()> {
        if s.contains(':') { Ok(Url(s.into())) } else { Err(()) }
    }
    pub fn to_file_path(&self) -> Result<PathBuf, ()> {
        self.0.strip_prefix("file://").map(PathBuf::from).ok_or(())
    }
    pub fn path(&self) -> &str {
        self.0.split_once(':').map_or("", |x| x.1.trim_start_matches('/'))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
impl std::fmt::Display for Url {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
macro_rules! calls {
    ($($tr:ident $m:ident $mac:ident: $($n:ident $s:literal $p:ty,)*;)*) => { $(
        pub mod $m {
            use super::*;
            pub trait $tr {
                type Params: serde::de::DeserializeOwned + Serialize;
                const METHOD: &'static str;
            }
            $(
                #[derive(Debug)]
                pub enum $n {}
                impl $tr for $n {
                    type Params = $p;
                    const METHOD: &'static str = $s;
                }
            )*
        }
    )* };
}
calls! {
    Request request lsp_request: Initialize "initialize" InitializeParams, Shutdown "shutdown" (), Completion "textDocument/completion" CompletionParams, HoverRequest "textDocument/hover" HoverParams,;
    Notification notification lsp_notification: Exit "exit" (), Initialized "initialized" serde_json::Value, DidOpenTextDocument "textDocument/didOpen" DidOpenTextDocumentParams,
        DidChangeTextDocument "textDocument/didChange" DidChangeTextDocumentParams, DidSaveTextDocument "textDocument/didSave" DidSaveTextDocumentParams,
        DidCloseTextDocument "textDocument/didClose" DidCloseTextDocumentParams,;
}
#[macro_export]
macro_rules! lsp_request {
    ("initialize") => { $crate::request::Initialize };
    ("shutdown") => { $crate::request::Shutdown };
    ("textDocument/completion") => { $crate::request::Completion };
    ("textDocument/hover") => { $crate::request::HoverRequest };
}
#[macro_export]
macro_rules! lsp_notification {
    ("exit") => { $crate::notification::Exit };
    ("initialized") => { $crate::notification::Initialized };
    ("textDocument/didOpen") => { $crate::notification::DidOpenTextDocument };
    ("textDocument/didChange") => { $crate::notification::DidChangeTextDocument };
    ("textDocument/didSave") => { $crate::notification::DidSaveTextDocument };
    ("textDocument/didClose") => { $crate::notification::DidCloseTextDocument };
}

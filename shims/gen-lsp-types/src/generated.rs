// generated by gen.py
use crate::{DocumentChange, DocumentDiagnosticReport, Uri};
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Copy, Eq, Hash, PartialOrd, Ord, Default)]
#[serde(rename_all = "camelCase")]
pub struct Position {
    pub line: u32,
    pub character: u32,
}

impl Position {
    pub fn new(line: u32, character: u32) -> Self {
        Self { line, character }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Copy, Eq, Hash, Default)]
#[serde(rename_all = "camelCase")]
pub struct Range {
    pub start: Position,
    pub end: Position,
}

impl Range {
    pub fn new(start: Position, end: Position) -> Self {
        Self { start, end }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash)]
#[serde(rename_all = "camelCase")]
pub struct Location {
    pub uri: Uri,
    pub range: Range,
}

impl Location {
    pub fn new(uri: Uri, range: Range) -> Self {
        Self { uri, range }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash)]
#[serde(rename_all = "camelCase")]
pub struct LocationLink {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub origin_selection_range: Option<Range>,
    pub target_uri: Uri,
    pub target_range: Range,
    pub target_selection_range: Range,
}

impl LocationLink {
    pub fn new(origin_selection_range: Option<Range>, target_uri: Uri, target_range: Range, target_selection_range: Range) -> Self {
        Self { origin_selection_range, target_uri, target_range, target_selection_range }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextEdit {
    pub range: Range,
    pub new_text: String,
}

impl TextEdit {
    pub fn new(range: Range, new_text: String) -> Self {
        Self { range, new_text }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct InsertReplaceEdit {
    pub new_text: String,
    pub insert: Range,
    pub replace: Range,
}

impl InsertReplaceEdit {
    pub fn new(new_text: String, insert: Range, replace: Range) -> Self {
        Self { new_text, insert, replace }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct AnnotatedTextEdit {
    pub annotation_id: String,
    #[serde(flatten)]
    pub text_edit: TextEdit,
}

impl AnnotatedTextEdit {
    pub fn new(annotation_id: String, text_edit: TextEdit) -> Self {
        Self { annotation_id, text_edit }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SnippetTextEdit {
    pub range: Range,
    pub snippet: Value,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}

impl SnippetTextEdit {
    pub fn new(range: Range, snippet: Value, annotation_id: Option<String>) -> Self {
        Self { range, snippet, annotation_id }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentIdentifier {
    pub uri: Uri,
}

impl TextDocumentIdentifier {
    pub fn new(uri: Uri) -> Self {
        Self { uri }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash)]
#[serde(rename_all = "camelCase")]
pub struct VersionedTextDocumentIdentifier {
    pub version: i32,
    #[serde(flatten)]
    pub text_document_identifier: TextDocumentIdentifier,
}

impl VersionedTextDocumentIdentifier {
    pub fn new(version: i32, text_document_identifier: TextDocumentIdentifier) -> Self {
        Self { version, text_document_identifier }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash)]
#[serde(rename_all = "camelCase")]
pub struct OptionalVersionedTextDocumentIdentifier {
    #[serde(default)]
    pub version: Option<i32>,
    #[serde(flatten)]
    pub text_document_identifier: TextDocumentIdentifier,
}

impl OptionalVersionedTextDocumentIdentifier {
    pub fn new(version: Option<i32>, text_document_identifier: TextDocumentIdentifier) -> Self {
        Self { version, text_document_identifier }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentItem {
    pub uri: Uri,
    pub language_id: String,
    pub version: i32,
    pub text: String,
}

impl TextDocumentItem {
    pub fn new(uri: Uri, language_id: String, version: i32, text: String) -> Self {
        Self { uri, language_id, version, text }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentPositionParams {
    pub text_document: TextDocumentIdentifier,
    pub position: Position,
}

impl TextDocumentPositionParams {
    pub fn new(text_document: TextDocumentIdentifier, position: Position) -> Self {
        Self { text_document, position }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_token: Option<ProgressToken>,
}

impl WorkDoneProgressParams {
    pub fn new(work_done_token: Option<ProgressToken>) -> Self {
        Self { work_done_token }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct PartialResultParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub partial_result_token: Option<ProgressToken>,
}

impl PartialResultParams {
    pub fn new(partial_result_token: Option<ProgressToken>) -> Self {
        Self { partial_result_token }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Copy, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_progress: Option<bool>,
}

impl WorkDoneProgressOptions {
    pub fn new(work_done_progress: Option<bool>) -> Self {
        Self { work_done_progress }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentContentChangePartial {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range_length: Option<u32>,
    pub text: String,
}

impl TextDocumentContentChangePartial {
    pub fn new(range: Range, range_length: Option<u32>, text: String) -> Self {
        Self { range, range_length, text }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentContentChangeWholeDocument {
    pub text: String,
}

impl TextDocumentContentChangeWholeDocument {
    pub fn new(text: String) -> Self {
        Self { text }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DidOpenTextDocumentParams {
    pub text_document: TextDocumentItem,
}

impl DidOpenTextDocumentParams {
    pub fn new(text_document: TextDocumentItem) -> Self {
        Self { text_document }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeTextDocumentParams {
    pub text_document: VersionedTextDocumentIdentifier,
    pub content_changes: Vec<TextDocumentContentChangeEvent>,
}

impl DidChangeTextDocumentParams {
    pub fn new(text_document: VersionedTextDocumentIdentifier, content_changes: Vec<TextDocumentContentChangeEvent>) -> Self {
        Self { text_document, content_changes }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DidCloseTextDocumentParams {
    pub text_document: TextDocumentIdentifier,
}

impl DidCloseTextDocumentParams {
    pub fn new(text_document: TextDocumentIdentifier) -> Self {
        Self { text_document }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DidSaveTextDocumentParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text: Option<String>,
}

impl DidSaveTextDocumentParams {
    pub fn new(text_document: TextDocumentIdentifier, text: Option<String>) -> Self {
        Self { text_document, text }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeConfigurationParams {
    pub settings: Value,
}

impl DidChangeConfigurationParams {
    pub fn new(settings: Value) -> Self {
        Self { settings }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct FileEvent {
    pub uri: Uri,
    #[serde(rename = "type")]
    pub kind: FileChangeType,
}

impl FileEvent {
    pub fn new(uri: Uri, kind: FileChangeType) -> Self {
        Self { uri, kind }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesParams {
    pub changes: Vec<FileEvent>,
}

impl DidChangeWatchedFilesParams {
    pub fn new(changes: Vec<FileEvent>) -> Self {
        Self { changes }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFolder {
    pub uri: Uri,
    pub name: String,
}

impl WorkspaceFolder {
    pub fn new(uri: Uri, name: String) -> Self {
        Self { uri, name }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFoldersChangeEvent {
    pub added: Vec<WorkspaceFolder>,
    pub removed: Vec<WorkspaceFolder>,
}

impl WorkspaceFoldersChangeEvent {
    pub fn new(added: Vec<WorkspaceFolder>, removed: Vec<WorkspaceFolder>) -> Self {
        Self { added, removed }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWorkspaceFoldersParams {
    pub event: WorkspaceFoldersChangeEvent,
}

impl DidChangeWorkspaceFoldersParams {
    pub fn new(event: WorkspaceFoldersChangeEvent) -> Self {
        Self { event }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct CancelParams {
    pub id: Id,
}

impl CancelParams {
    pub fn new(id: Id) -> Self {
        Self { id }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressCancelParams {
    pub token: ProgressToken,
}

impl WorkDoneProgressCancelParams {
    pub fn new(token: ProgressToken) -> Self {
        Self { token }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct ShowMessageParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
}

impl ShowMessageParams {
    pub fn new(kind: MessageType, message: String) -> Self {
        Self { kind, message }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct MessageActionItem {
    pub title: String,
}

impl MessageActionItem {
    pub fn new(title: String) -> Self {
        Self { title }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct ShowMessageRequestParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub actions: Option<Vec<MessageActionItem>>,
}

impl ShowMessageRequestParams {
    pub fn new(kind: MessageType, message: String, actions: Option<Vec<MessageActionItem>>) -> Self {
        Self { kind, message, actions }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct ProgressParams {
    pub token: ProgressToken,
    pub value: Value,
}

impl ProgressParams {
    pub fn new(token: ProgressToken, value: Value) -> Self {
        Self { token, value }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressCreateParams {
    pub token: ProgressToken,
}

impl WorkDoneProgressCreateParams {
    pub fn new(token: ProgressToken) -> Self {
        Self { token }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct ConfigurationItem {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub scope_uri: Option<Uri>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub section: Option<String>,
}

impl ConfigurationItem {
    pub fn new(scope_uri: Option<Uri>, section: Option<String>) -> Self {
        Self { scope_uri, section }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct ConfigurationParams {
    pub items: Vec<ConfigurationItem>,
}

impl ConfigurationParams {
    pub fn new(items: Vec<ConfigurationItem>) -> Self {
        Self { items }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct Registration {
    pub id: String,
    pub method: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub register_options: Option<Value>,
}

impl Registration {
    pub fn new(id: String, method: String, register_options: Option<Value>) -> Self {
        Self { id, method, register_options }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RegistrationParams {
    pub registrations: Vec<Registration>,
}

impl RegistrationParams {
    pub fn new(registrations: Vec<Registration>) -> Self {
        Self { registrations }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FileSystemWatcher {
    pub glob_pattern: GlobPattern,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<u32>,
}

impl FileSystemWatcher {
    pub fn new(glob_pattern: GlobPattern, kind: Option<u32>) -> Self {
        Self { glob_pattern, kind }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RelativePattern {
    pub base_uri: BaseUri,
    pub pattern: String,
}

impl RelativePattern {
    pub fn new(base_uri: BaseUri, pattern: String) -> Self {
        Self { base_uri, pattern }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesRegistrationOptions {
    pub watchers: Vec<FileSystemWatcher>,
}

impl DidChangeWatchedFilesRegistrationOptions {
    pub fn new(watchers: Vec<FileSystemWatcher>) -> Self {
        Self { watchers }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct Command {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<String>,
    pub command: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub arguments: Option<Vec<Value>>,
}

impl Command {
    pub fn new(title: String, tooltip: Option<String>, command: String, arguments: Option<Vec<Value>>) -> Self {
        Self { title, tooltip, command, arguments }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeLens {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}

impl CodeLens {
    pub fn new(range: Range, command: Option<Command>, data: Option<Value>) -> Self {
        Self { range, command, data }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct CodeLensParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
}

impl CodeLensParams {
    pub fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier) -> Self {
        Self { work_done_progress_params, partial_result_params, text_document }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct ImplementationParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl ImplementationParams {
    pub fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { text_document_position_params, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DefinitionParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl DefinitionParams {
    pub fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { text_document_position_params, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct HoverParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}

impl HoverParams {
    pub fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self {
        Self { text_document_position_params, work_done_progress_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct Hover {
    pub contents: Contents,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range: Option<Range>,
}

impl Hover {
    pub fn new(contents: Contents, range: Option<Range>) -> Self {
        Self { contents, range }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct MarkupContent {
    pub kind: MarkupKind,
    pub value: String,
}

impl MarkupContent {
    pub fn new(kind: MarkupKind, value: String) -> Self {
        Self { kind, value }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DocumentHighlightParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl DocumentHighlightParams {
    pub fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { text_document_position_params, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentHighlight {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<DocumentHighlightKind>,
}

impl DocumentHighlight {
    pub fn new(range: Range, kind: Option<DocumentHighlightKind>) -> Self {
        Self { range, kind }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context: Option<Value>,
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}

impl SignatureHelpParams {
    pub fn new(context: Option<Value>, text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self {
        Self { context, text_document_position_params, work_done_progress_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelp {
    pub signatures: Vec<SignatureInformation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_signature: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_parameter: Option<ActiveParameter>,
}

impl SignatureHelp {
    pub fn new(signatures: Vec<SignatureInformation>, active_signature: Option<u32>, active_parameter: Option<ActiveParameter>) -> Self {
        Self { signatures, active_signature, active_parameter }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureInformation {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parameters: Option<Vec<ParameterInformation>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub active_parameter: Option<ActiveParameter>,
}

impl SignatureInformation {
    pub fn new(label: String, documentation: Option<Documentation>, parameters: Option<Vec<ParameterInformation>>, active_parameter: Option<ActiveParameter>) -> Self {
        Self { label, documentation, parameters, active_parameter }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct ParameterInformation {
    pub label: ParameterInformationLabel,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
}

impl ParameterInformation {
    pub fn new(label: ParameterInformationLabel, documentation: Option<Documentation>) -> Self {
        Self { label, documentation }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct ReferenceContext {
    pub include_declaration: bool,
}

impl ReferenceContext {
    pub fn new(include_declaration: bool) -> Self {
        Self { include_declaration }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct ReferenceParams {
    pub context: ReferenceContext,
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl ReferenceParams {
    pub fn new(context: ReferenceContext, text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { context, text_document_position_params, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct PrepareRenameParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}

impl PrepareRenameParams {
    pub fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams) -> Self {
        Self { text_document_position_params, work_done_progress_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct PrepareRenamePlaceholder {
    pub range: Range,
    pub placeholder: String,
}

impl PrepareRenamePlaceholder {
    pub fn new(range: Range, placeholder: String) -> Self {
        Self { range, placeholder }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct PrepareRenameDefaultBehavior {
    pub default_behavior: bool,
}

impl PrepareRenameDefaultBehavior {
    pub fn new(default_behavior: bool) -> Self {
        Self { default_behavior }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct RenameParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    pub new_name: String,
}

impl RenameParams {
    pub fn new(text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, new_name: String) -> Self {
        Self { text_document_position_params, work_done_progress_params, new_name }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct CompletionContext {
    pub trigger_kind: CompletionTriggerKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_character: Option<String>,
}

impl CompletionContext {
    pub fn new(trigger_kind: CompletionTriggerKind, trigger_character: Option<String>) -> Self {
        Self { trigger_kind, trigger_character }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct CompletionParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context: Option<CompletionContext>,
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl CompletionParams {
    pub fn new(context: Option<CompletionContext>, text_document_position_params: TextDocumentPositionParams, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { context, text_document_position_params, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItemLabelDetails {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
}

impl CompletionItemLabelDetails {
    pub fn new(detail: Option<String>, description: Option<String>) -> Self {
        Self { detail, description }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionItem {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details: Option<CompletionItemLabelDetails>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CompletionItemKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<Value>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub preselect: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub sort_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub filter_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text_format: Option<InsertTextFormat>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_text_mode: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edit: Option<CompletionItemTextEdit>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edit_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub additional_text_edits: Option<Vec<TextEdit>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionList {
    pub is_incomplete: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub item_defaults: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub apply_kind: Option<Value>,
    pub items: Vec<CompletionItem>,
}

impl CompletionList {
    pub fn new(is_incomplete: bool, item_defaults: Option<Value>, apply_kind: Option<Value>, items: Vec<CompletionItem>) -> Self {
        Self { is_incomplete, item_defaults, apply_kind, items }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbolParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub text_document: TextDocumentIdentifier,
}

impl DocumentSymbolParams {
    pub fn new(work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams, text_document: TextDocumentIdentifier) -> Self {
        Self { work_done_progress_params, partial_result_params, text_document }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbol {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    pub kind: SymbolKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<SymbolTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    pub range: Range,
    pub selection_range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub children: Option<Vec<DocumentSymbol>>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct BaseSymbolInformation {
    pub name: String,
    pub kind: SymbolKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<SymbolTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub container_name: Option<String>,
}

impl BaseSymbolInformation {
    pub fn new(name: String, kind: SymbolKind, tags: Option<Vec<SymbolTag>>, container_name: Option<String>) -> Self {
        Self { name, kind, tags, container_name }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct SymbolInformation {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    pub location: Location,
    #[serde(flatten)]
    pub base_symbol_information: BaseSymbolInformation,
}

impl SymbolInformation {
    pub fn new(deprecated: Option<bool>, location: Location, base_symbol_information: BaseSymbolInformation) -> Self {
        Self { deprecated, location, base_symbol_information }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceSymbol {
    pub location: WorkspaceSymbolLocation,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
    #[serde(flatten)]
    pub base_symbol_information: BaseSymbolInformation,
}

impl WorkspaceSymbol {
    pub fn new(location: WorkspaceSymbolLocation, data: Option<Value>, base_symbol_information: BaseSymbolInformation) -> Self {
        Self { location, data, base_symbol_information }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceSymbolParams {
    pub query: String,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl WorkspaceSymbolParams {
    pub fn new(query: String, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { query, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct LocationUriOnly {
    pub uri: Uri,
}

impl LocationUriOnly {
    pub fn new(uri: Uri) -> Self {
        Self { uri }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct SelectionRangeParams {
    pub text_document: TextDocumentIdentifier,
    pub positions: Vec<Position>,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl SelectionRangeParams {
    pub fn new(text_document: TextDocumentIdentifier, positions: Vec<Position>, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { text_document, positions, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct SelectionRange {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parent: Option<Box<SelectionRange>>,
}

impl SelectionRange {
    pub fn new(range: Range, parent: Option<Box<SelectionRange>>) -> Self {
        Self { range, parent }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct FormattingOptions {
    pub tab_size: u32,
    pub insert_spaces: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trim_trailing_whitespace: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_final_newline: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trim_final_newlines: Option<bool>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DocumentFormattingParams {
    pub text_document: TextDocumentIdentifier,
    pub options: FormattingOptions,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}

impl DocumentFormattingParams {
    pub fn new(text_document: TextDocumentIdentifier, options: FormattingOptions, work_done_progress_params: WorkDoneProgressParams) -> Self {
        Self { text_document, options, work_done_progress_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl SemanticTokensParams {
    pub fn new(text_document: TextDocumentIdentifier, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { text_document, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensRangeParams {
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

impl SemanticTokensRangeParams {
    pub fn new(text_document: TextDocumentIdentifier, range: Range, work_done_progress_params: WorkDoneProgressParams, partial_result_params: PartialResultParams) -> Self {
        Self { text_document, range, work_done_progress_params, partial_result_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Copy, Hash, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticToken {
    pub delta_line: u32,
    pub delta_start: u32,
    pub length: u32,
    pub token_type: u32,
    pub token_modifiers_bitset: u32,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokens {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub result_id: Option<String>,
    #[serde(with = "crate::flat_tokens")]
    pub data: Vec<SemanticToken>,
}

impl SemanticTokens {
    pub fn new(result_id: Option<String>, data: Vec<SemanticToken>) -> Self {
        Self { result_id, data }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensEdit {
    pub start: u32,
    pub delete_count: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    #[serde(with = "crate::flat_tokens_opt")]
    pub data: Option<Vec<SemanticToken>>,
}

impl SemanticTokensEdit {
    pub fn new(start: u32, delete_count: u32, data: Option<Vec<SemanticToken>>) -> Self {
        Self { start, delete_count, data }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensDelta {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub result_id: Option<String>,
    pub edits: Vec<SemanticTokensEdit>,
}

impl SemanticTokensDelta {
    pub fn new(result_id: Option<String>, edits: Vec<SemanticTokensEdit>) -> Self {
        Self { result_id, edits }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensLegend {
    pub token_types: Vec<String>,
    pub token_modifiers: Vec<String>,
}

impl SemanticTokensLegend {
    pub fn new(token_types: Vec<String>, token_modifiers: Vec<String>) -> Self {
        Self { token_types, token_modifiers }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SemanticTokensOptions {
    pub legend: SemanticTokensLegend,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub full: Option<Full>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}

impl SemanticTokensOptions {
    pub fn new(legend: SemanticTokensLegend, range: Option<Value>, full: Option<Full>, work_done_progress_options: WorkDoneProgressOptions) -> Self {
        Self { legend, range, full, work_done_progress_options }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintParams {
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}

impl InlayHintParams {
    pub fn new(text_document: TextDocumentIdentifier, range: Range, work_done_progress_params: WorkDoneProgressParams) -> Self {
        Self { text_document, range, work_done_progress_params }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InlayHint {
    pub position: Position,
    pub label: Label,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<InlayHintKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_edits: Option<Vec<TextEdit>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<Tooltip>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub padding_left: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub padding_right: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintLabelPart {
    pub value: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<Tooltip>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub location: Option<Location>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
}

impl InlayHintLabelPart {
    pub fn new(value: String, tooltip: Option<Tooltip>, location: Option<Location>, command: Option<Command>) -> Self {
        Self { value, tooltip, location, command }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}

impl InlayHintOptions {
    pub fn new(resolve_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self {
        Self { resolve_provider, work_done_progress_options }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct DocumentDiagnosticParams {
    pub text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub identifier: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub previous_result_id: Option<String>,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct FullDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub result_id: Option<String>,
    pub items: Vec<Diagnostic>,
}

impl FullDocumentDiagnosticReport {
    pub fn new(result_id: Option<String>, items: Vec<Diagnostic>) -> Self {
        Self { result_id, items }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct UnchangedDocumentDiagnosticReport {
    pub result_id: String,
}

impl UnchangedDocumentDiagnosticReport {
    pub fn new(result_id: String) -> Self {
        Self { result_id }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RelatedFullDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_documents: Option<Value>,
    #[serde(flatten)]
    pub full_document_diagnostic_report: FullDocumentDiagnosticReport,
}

impl RelatedFullDocumentDiagnosticReport {
    pub fn new(related_documents: Option<Value>, full_document_diagnostic_report: FullDocumentDiagnosticReport) -> Self {
        Self { related_documents, full_document_diagnostic_report }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RelatedUnchangedDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_documents: Option<Value>,
    #[serde(flatten)]
    pub unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport,
}

impl RelatedUnchangedDocumentDiagnosticReport {
    pub fn new(related_documents: Option<Value>, unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport) -> Self {
        Self { related_documents, unchanged_document_diagnostic_report }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticServerCancellationData {
    pub retrigger_request: bool,
}

impl DiagnosticServerCancellationData {
    pub fn new(retrigger_request: bool) -> Self {
        Self { retrigger_request }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct Diagnostic {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub severity: Option<DiagnosticSeverity>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code: Option<Code>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_description: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub source: Option<String>,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<DiagnosticTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_information: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionContext {
    pub diagnostics: Vec<Diagnostic>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub only: Option<Vec<CodeActionKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_kind: Option<u32>,
}

impl CodeActionContext {
    pub fn new(diagnostics: Vec<Diagnostic>, only: Option<Vec<CodeActionKind>>, trigger_kind: Option<u32>) -> Self {
        Self { diagnostics, only, trigger_kind }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionParams {
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    pub context: CodeActionContext,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeAction {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CodeActionKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostics: Option<Vec<Diagnostic>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub is_preferred: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub disabled: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub edit: Option<WorkspaceEdit>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<Value>>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceEdit {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub changes: Option<std::collections::HashMap<Uri,Vec<TextEdit>>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_changes: Option<Vec<DocumentChange>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change_annotations: Option<Value>,
}

impl WorkspaceEdit {
    pub fn new(changes: Option<std::collections::HashMap<Uri,Vec<TextEdit>>>, document_changes: Option<Vec<DocumentChange>>, change_annotations: Option<Value>) -> Self {
        Self { changes, document_changes, change_annotations }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentEdit {
    pub text_document: OptionalVersionedTextDocumentIdentifier,
    pub edits: Vec<Edit>,
}

impl TextDocumentEdit {
    pub fn new(text_document: OptionalVersionedTextDocumentIdentifier, edits: Vec<Edit>) -> Self {
        Self { text_document, edits }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct CreateFile {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}

impl CreateFile {
    pub fn new(uri: Uri, options: Option<Value>, annotation_id: Option<String>) -> Self {
        Self { uri, options, annotation_id }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RenameFile {
    pub old_uri: Uri,
    pub new_uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}

impl RenameFile {
    pub fn new(old_uri: Uri, new_uri: Uri, options: Option<Value>, annotation_id: Option<String>) -> Self {
        Self { old_uri, new_uri, options, annotation_id }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct DeleteFile {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub annotation_id: Option<String>,
}

impl DeleteFile {
    pub fn new(uri: Uri, options: Option<Value>, annotation_id: Option<String>) -> Self {
        Self { uri, options, annotation_id }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressBegin {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancellable: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub percentage: Option<u32>,
}

impl WorkDoneProgressBegin {
    pub fn new(title: String, cancellable: Option<bool>, message: Option<String>, percentage: Option<u32>) -> Self {
        Self { title, cancellable, message, percentage }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressReport {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancellable: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub percentage: Option<u32>,
}

impl WorkDoneProgressReport {
    pub fn new(cancellable: Option<bool>, message: Option<String>, percentage: Option<u32>) -> Self {
        Self { cancellable, message, percentage }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkDoneProgressEnd {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
}

impl WorkDoneProgressEnd {
    pub fn new(message: Option<String>) -> Self {
        Self { message }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientInfo {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<String>,
}

impl ClientInfo {
    pub fn new(name: String, version: Option<String>) -> Self {
        Self { name, version }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct ServerInfo {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<String>,
}

impl ServerInfo {
    pub fn new(name: String, version: Option<String>) -> Self {
        Self { name, version }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceFoldersInitializeParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_folders: Option<WorkspaceFolders>,
}

impl WorkspaceFoldersInitializeParams {
    pub fn new(workspace_folders: Option<WorkspaceFolders>) -> Self {
        Self { workspace_folders }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InitializeParams {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub process_id: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub client_info: Option<ClientInfo>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub locale: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub root_path: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub root_uri: Option<Uri>,
    pub capabilities: ClientCapabilities,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub initialization_options: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trace: Option<Value>,
    #[serde(flatten)]
    pub workspace_folders_initialize_params: WorkspaceFoldersInitializeParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InitializeResult {
    pub capabilities: ServerCapabilities,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub server_info: Option<ServerInfo>,
}

impl InitializeResult {
    pub fn new(capabilities: ServerCapabilities, server_info: Option<ServerInfo>) -> Self {
        Self { capabilities, server_info }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub all_commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_item: Option<ServerCompletionItemOptions>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct ServerCompletionItemOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details_support: Option<bool>,
}

impl ServerCompletionItemOptions {
    pub fn new(label_details_support: Option<bool>) -> Self {
        Self { label_details_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trigger_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub retrigger_characters: Option<Vec<String>>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}

impl SignatureHelpOptions {
    pub fn new(trigger_characters: Option<Vec<String>>, retrigger_characters: Option<Vec<String>>, work_done_progress_options: WorkDoneProgressOptions) -> Self {
        Self { trigger_characters, retrigger_characters, work_done_progress_options }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeLensOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}

impl CodeLensOptions {
    pub fn new(resolve_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self {
        Self { resolve_provider, work_done_progress_options }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_kinds: Option<Vec<CodeActionKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}

impl CodeActionOptions {
    pub fn new(code_action_kinds: Option<Vec<CodeActionKind>>, documentation: Option<Value>, resolve_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self {
        Self { code_action_kinds, documentation, resolve_provider, work_done_progress_options }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct RenameOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub prepare_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}

impl RenameOptions {
    pub fn new(prepare_provider: Option<bool>, work_done_progress_options: WorkDoneProgressOptions) -> Self {
        Self { prepare_provider, work_done_progress_options }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Default)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub identifier: Option<String>,
    pub inter_file_dependencies: bool,
    pub workspace_diagnostics: bool,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}

impl DiagnosticOptions {
    pub fn new(identifier: Option<String>, inter_file_dependencies: bool, workspace_diagnostics: bool, work_done_progress_options: WorkDoneProgressOptions) -> Self {
        Self { identifier, inter_file_dependencies, workspace_diagnostics, work_done_progress_options }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ServerCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub position_encoding: Option<PositionEncodingKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_document_sync: Option<TextDocumentSync>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hover_provider: Option<HoverProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_provider: Option<CompletionOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_help_provider: Option<SignatureHelpOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub definition_provider: Option<DefinitionProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub references_provider: Option<ReferencesProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_highlight_provider: Option<DocumentHighlightProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_symbol_provider: Option<DocumentSymbolProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_symbol_provider: Option<WorkspaceSymbolProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_provider: Option<CodeActionProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_lens_provider: Option<CodeLensOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_formatting_provider: Option<DocumentFormattingProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub selection_range_provider: Option<SelectionRangeProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rename_provider: Option<RenameProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub semantic_tokens_provider: Option<SemanticTokensProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint_provider: Option<InlayHintProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostic_provider: Option<DiagnosticProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub experimental: Option<Value>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace: Option<WorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text_document: Option<TextDocumentClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub notebook_document: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub window: Option<WindowClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub general: Option<GeneralClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub experimental: Option<Value>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct GeneralClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub position_encodings: Option<Vec<PositionEncodingKind>>,
}

impl GeneralClientCapabilities {
    pub fn new(position_encodings: Option<Vec<PositionEncodingKind>>) -> Self {
        Self { position_encodings }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WindowClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub work_done_progress: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub show_message: Option<Value>,
}

impl WindowClientCapabilities {
    pub fn new(work_done_progress: Option<bool>, show_message: Option<Value>) -> Self {
        Self { work_done_progress, show_message }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub apply_edit: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_edit: Option<WorkspaceEditClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_change_configuration: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub symbol: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub semantic_tokens: Option<RefreshCapability>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_lens: Option<RefreshCapability>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint: Option<RefreshCapability>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostics: Option<RefreshCapability>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub file_operations: Option<FileOperationClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace_folders: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub configuration: Option<bool>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct RefreshCapability {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub refresh_support: Option<bool>,
}

impl RefreshCapability {
    pub fn new(refresh_support: Option<bool>) -> Self {
        Self { refresh_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct FileOperationClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub will_rename: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_rename: Option<bool>,
}

impl FileOperationClientCapabilities {
    pub fn new(will_rename: Option<bool>, did_rename: Option<bool>) -> Self {
        Self { will_rename, did_rename }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct WorkspaceEditClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_changes: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resource_operations: Option<Vec<ResourceOperationKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change_annotation_support: Option<Value>,
}

impl WorkspaceEditClientCapabilities {
    pub fn new(document_changes: Option<bool>, resource_operations: Option<Vec<ResourceOperationKind>>, change_annotation_support: Option<Value>) -> Self {
        Self { document_changes, resource_operations, change_annotation_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DidChangeWatchedFilesClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub relative_pattern_support: Option<bool>,
}

impl DidChangeWatchedFilesClientCapabilities {
    pub fn new(dynamic_registration: Option<bool>, relative_pattern_support: Option<bool>) -> Self {
        Self { dynamic_registration, relative_pattern_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub synchronization: Option<TextDocumentSyncClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion: Option<CompletionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hover: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_help: Option<SignatureHelpClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub definition: Option<DefinitionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub document_symbol: Option<DocumentSymbolClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action: Option<CodeActionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostic: Option<DiagnosticClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub inlay_hint: Option<InlayHintClientCapabilities>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct TextDocumentSyncClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub did_save: Option<bool>,
}

impl TextDocumentSyncClientCapabilities {
    pub fn new(dynamic_registration: Option<bool>, did_save: Option<bool>) -> Self {
        Self { dynamic_registration, did_save }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CompletionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion_item: Option<ClientCompletionItemOptions>,
}

impl CompletionClientCapabilities {
    pub fn new(completion_item: Option<ClientCompletionItemOptions>) -> Self {
        Self { completion_item }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientCompletionItemOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub snippet_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub insert_replace_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_details_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ResolveSupport>,
}

impl ClientCompletionItemOptions {
    pub fn new(snippet_support: Option<bool>, insert_replace_support: Option<bool>, label_details_support: Option<bool>, resolve_support: Option<ResolveSupport>) -> Self {
        Self { snippet_support, insert_replace_support, label_details_support, resolve_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ResolveSupport {
    pub properties: Vec<String>,
}

impl ResolveSupport {
    pub fn new(properties: Vec<String>) -> Self {
        Self { properties }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct SignatureHelpClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub signature_information: Option<ClientSignatureInformationOptions>,
}

impl SignatureHelpClientCapabilities {
    pub fn new(signature_information: Option<ClientSignatureInformationOptions>) -> Self {
        Self { signature_information }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientSignatureInformationOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parameter_information: Option<ClientSignatureParameterInformationOptions>,
}

impl ClientSignatureInformationOptions {
    pub fn new(parameter_information: Option<ClientSignatureParameterInformationOptions>) -> Self {
        Self { parameter_information }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct ClientSignatureParameterInformationOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label_offset_support: Option<bool>,
}

impl ClientSignatureParameterInformationOptions {
    pub fn new(label_offset_support: Option<bool>) -> Self {
        Self { label_offset_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Copy, Default)]
#[serde(rename_all = "camelCase")]
pub struct DefinitionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub link_support: Option<bool>,
}

impl DefinitionClientCapabilities {
    pub fn new(link_support: Option<bool>) -> Self {
        Self { link_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DocumentSymbolClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hierarchical_document_symbol_support: Option<bool>,
}

impl DocumentSymbolClientCapabilities {
    pub fn new(hierarchical_document_symbol_support: Option<bool>) -> Self {
        Self { hierarchical_document_symbol_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct CodeActionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code_action_literal_support: Option<Value>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ResolveSupport>,
}

impl CodeActionClientCapabilities {
    pub fn new(code_action_literal_support: Option<Value>, resolve_support: Option<ResolveSupport>) -> Self {
        Self { code_action_literal_support, resolve_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct DiagnosticClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub related_document_support: Option<bool>,
}

impl DiagnosticClientCapabilities {
    pub fn new(dynamic_registration: Option<bool>, related_document_support: Option<bool>) -> Self {
        Self { dynamic_registration, related_document_support }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Default)]
#[serde(rename_all = "camelCase")]
pub struct InlayHintClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub resolve_support: Option<ResolveSupport>,
}

impl InlayHintClientCapabilities {
    pub fn new(resolve_support: Option<ResolveSupport>) -> Self {
        Self { resolve_support }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum FileChangeType {
    Created,
    Changed,
    Deleted,
}

impl Serialize for FileChangeType {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Created => 1, Self::Changed => 2, Self::Deleted => 3 })
    }
}
impl<'de> Deserialize<'de> for FileChangeType {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Created), 2 => Ok(Self::Changed), 3 => Ok(Self::Deleted), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MessageType {
    Error,
    Warning,
    Info,
    Log,
    Debug,
}

impl Serialize for MessageType {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Error => 1, Self::Warning => 2, Self::Info => 3, Self::Log => 4, Self::Debug => 5 })
    }
}
impl<'de> Deserialize<'de> for MessageType {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Error), 2 => Ok(Self::Warning), 3 => Ok(Self::Info), 4 => Ok(Self::Log), 5 => Ok(Self::Debug), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DiagnosticSeverity {
    Error,
    Warning,
    Information,
    Hint,
}

impl Serialize for DiagnosticSeverity {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Error => 1, Self::Warning => 2, Self::Information => 3, Self::Hint => 4 })
    }
}
impl<'de> Deserialize<'de> for DiagnosticSeverity {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Error), 2 => Ok(Self::Warning), 3 => Ok(Self::Information), 4 => Ok(Self::Hint), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DiagnosticTag {
    Unnecessary,
    Deprecated,
}

impl Serialize for DiagnosticTag {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Unnecessary => 1, Self::Deprecated => 2 })
    }
}
impl<'de> Deserialize<'de> for DiagnosticTag {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Unnecessary), 2 => Ok(Self::Deprecated), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum DocumentHighlightKind {
    Text,
    Read,
    Write,
}

impl Serialize for DocumentHighlightKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Text => 1, Self::Read => 2, Self::Write => 3 })
    }
}
impl<'de> Deserialize<'de> for DocumentHighlightKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Text), 2 => Ok(Self::Read), 3 => Ok(Self::Write), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum InsertTextFormat {
    PlainText,
    Snippet,
}

impl Serialize for InsertTextFormat {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::PlainText => 1, Self::Snippet => 2 })
    }
}
impl<'de> Deserialize<'de> for InsertTextFormat {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::PlainText), 2 => Ok(Self::Snippet), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CompletionTriggerKind {
    Invoked,
    TriggerCharacter,
    TriggerForIncompleteCompletions,
}

impl Serialize for CompletionTriggerKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Invoked => 1, Self::TriggerCharacter => 2, Self::TriggerForIncompleteCompletions => 3 })
    }
}
impl<'de> Deserialize<'de> for CompletionTriggerKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Invoked), 2 => Ok(Self::TriggerCharacter), 3 => Ok(Self::TriggerForIncompleteCompletions), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum InlayHintKind {
    Type,
    Parameter,
}

impl Serialize for InlayHintKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Type => 1, Self::Parameter => 2 })
    }
}
impl<'de> Deserialize<'de> for InlayHintKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Type), 2 => Ok(Self::Parameter), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SymbolTag {
    Deprecated,
}

impl Serialize for SymbolTag {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Deprecated => 1 })
    }
}
impl<'de> Deserialize<'de> for SymbolTag {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Deprecated), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TextDocumentSyncKind {
    None,
    Full,
    Incremental,
}

impl Serialize for TextDocumentSyncKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::None => 0, Self::Full => 1, Self::Incremental => 2 })
    }
}
impl<'de> Deserialize<'de> for TextDocumentSyncKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 0 => Ok(Self::None), 1 => Ok(Self::Full), 2 => Ok(Self::Incremental), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CompletionItemKind {
    Text,
    Method,
    Function,
    Constructor,
    Field,
    Variable,
    Class,
    Interface,
    Module,
    Property,
    Unit,
    Value,
    Enum,
    Keyword,
    Snippet,
    Color,
    File,
    Reference,
    Folder,
    EnumMember,
    Constant,
    Struct,
    Event,
    Operator,
    TypeParameter,
}

impl Serialize for CompletionItemKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::Text => 1, Self::Method => 2, Self::Function => 3, Self::Constructor => 4, Self::Field => 5, Self::Variable => 6, Self::Class => 7, Self::Interface => 8, Self::Module => 9, Self::Property => 10, Self::Unit => 11, Self::Value => 12, Self::Enum => 13, Self::Keyword => 14, Self::Snippet => 15, Self::Color => 16, Self::File => 17, Self::Reference => 18, Self::Folder => 19, Self::EnumMember => 20, Self::Constant => 21, Self::Struct => 22, Self::Event => 23, Self::Operator => 24, Self::TypeParameter => 25 })
    }
}
impl<'de> Deserialize<'de> for CompletionItemKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::Text), 2 => Ok(Self::Method), 3 => Ok(Self::Function), 4 => Ok(Self::Constructor), 5 => Ok(Self::Field), 6 => Ok(Self::Variable), 7 => Ok(Self::Class), 8 => Ok(Self::Interface), 9 => Ok(Self::Module), 10 => Ok(Self::Property), 11 => Ok(Self::Unit), 12 => Ok(Self::Value), 13 => Ok(Self::Enum), 14 => Ok(Self::Keyword), 15 => Ok(Self::Snippet), 16 => Ok(Self::Color), 17 => Ok(Self::File), 18 => Ok(Self::Reference), 19 => Ok(Self::Folder), 20 => Ok(Self::EnumMember), 21 => Ok(Self::Constant), 22 => Ok(Self::Struct), 23 => Ok(Self::Event), 24 => Ok(Self::Operator), 25 => Ok(Self::TypeParameter), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SymbolKind {
    File,
    Module,
    Namespace,
    Package,
    Class,
    Method,
    Property,
    Field,
    Constructor,
    Enum,
    Interface,
    Function,
    Variable,
    Constant,
    String,
    Number,
    Boolean,
    Array,
    Object,
    Key,
    Null,
    EnumMember,
    Struct,
    Event,
    Operator,
    TypeParameter,
}

impl Serialize for SymbolKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(match self { Self::File => 1, Self::Module => 2, Self::Namespace => 3, Self::Package => 4, Self::Class => 5, Self::Method => 6, Self::Property => 7, Self::Field => 8, Self::Constructor => 9, Self::Enum => 10, Self::Interface => 11, Self::Function => 12, Self::Variable => 13, Self::Constant => 14, Self::String => 15, Self::Number => 16, Self::Boolean => 17, Self::Array => 18, Self::Object => 19, Self::Key => 20, Self::Null => 21, Self::EnumMember => 22, Self::Struct => 23, Self::Event => 24, Self::Operator => 25, Self::TypeParameter => 26 })
    }
}
impl<'de> Deserialize<'de> for SymbolKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        match u32::deserialize(d)? { 1 => Ok(Self::File), 2 => Ok(Self::Module), 3 => Ok(Self::Namespace), 4 => Ok(Self::Package), 5 => Ok(Self::Class), 6 => Ok(Self::Method), 7 => Ok(Self::Property), 8 => Ok(Self::Field), 9 => Ok(Self::Constructor), 10 => Ok(Self::Enum), 11 => Ok(Self::Interface), 12 => Ok(Self::Function), 13 => Ok(Self::Variable), 14 => Ok(Self::Constant), 15 => Ok(Self::String), 16 => Ok(Self::Number), 17 => Ok(Self::Boolean), 18 => Ok(Self::Array), 19 => Ok(Self::Object), 20 => Ok(Self::Key), 21 => Ok(Self::Null), 22 => Ok(Self::EnumMember), 23 => Ok(Self::Struct), 24 => Ok(Self::Event), 25 => Ok(Self::Operator), 26 => Ok(Self::TypeParameter), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum MarkupKind {
    PlainText,
    Markdown,
}

impl MarkupKind {
    pub fn as_str(&self) -> &str {
        match self { Self::PlainText => "plaintext", Self::Markdown => "markdown" }
    }
}
impl Serialize for MarkupKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.as_str())
    }
}
impl std::fmt::Display for MarkupKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_str())
    }
}
impl<'de> Deserialize<'de> for MarkupKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        match s.as_str() { "plaintext" => Ok(Self::PlainText), "markdown" => Ok(Self::Markdown), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ResourceOperationKind {
    Create,
    Rename,
    Delete,
}

impl ResourceOperationKind {
    pub fn as_str(&self) -> &str {
        match self { Self::Create => "create", Self::Rename => "rename", Self::Delete => "delete" }
    }
}
impl Serialize for ResourceOperationKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.as_str())
    }
}
impl std::fmt::Display for ResourceOperationKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_str())
    }
}
impl<'de> Deserialize<'de> for ResourceOperationKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        match s.as_str() { "create" => Ok(Self::Create), "rename" => Ok(Self::Rename), "delete" => Ok(Self::Delete), x => Err(serde::de::Error::custom(format!("invalid value {x}"))) }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PositionEncodingKind {
    UTF8,
    UTF16,
    UTF32,
    Custom(String),
}

impl PositionEncodingKind {
    pub fn as_str(&self) -> &str {
        match self { Self::UTF8 => "utf-8", Self::UTF16 => "utf-16", Self::UTF32 => "utf-32", Self::Custom(s) => s }
    }
}
impl Serialize for PositionEncodingKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.as_str())
    }
}
impl std::fmt::Display for PositionEncodingKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_str())
    }
}
impl<'de> Deserialize<'de> for PositionEncodingKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        match s.as_str() { "utf-8" => Ok(Self::UTF8), "utf-16" => Ok(Self::UTF16), "utf-32" => Ok(Self::UTF32), _ => Ok(Self::Custom(s)) }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum CodeActionKind {
    Empty,
    QuickFix,
    Refactor,
    RefactorExtract,
    RefactorInline,
    RefactorMove,
    RefactorRewrite,
    Source,
    SourceOrganizeImports,
    SourceFixAll,
    Notebook,
    Custom(String),
}

impl CodeActionKind {
    pub fn as_str(&self) -> &str {
        match self { Self::Empty => "", Self::QuickFix => "quickfix", Self::Refactor => "refactor", Self::RefactorExtract => "refactor.extract", Self::RefactorInline => "refactor.inline", Self::RefactorMove => "refactor.move", Self::RefactorRewrite => "refactor.rewrite", Self::Source => "source", Self::SourceOrganizeImports => "source.organizeImports", Self::SourceFixAll => "source.fixAll", Self::Notebook => "notebook", Self::Custom(s) => s }
    }
}
impl Serialize for CodeActionKind {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.as_str())
    }
}
impl std::fmt::Display for CodeActionKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_str())
    }
}
impl<'de> Deserialize<'de> for CodeActionKind {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        match s.as_str() { "" => Ok(Self::Empty), "quickfix" => Ok(Self::QuickFix), "refactor" => Ok(Self::Refactor), "refactor.extract" => Ok(Self::RefactorExtract), "refactor.inline" => Ok(Self::RefactorInline), "refactor.move" => Ok(Self::RefactorMove), "refactor.rewrite" => Ok(Self::RefactorRewrite), "source" => Ok(Self::Source), "source.organizeImports" => Ok(Self::SourceOrganizeImports), "source.fixAll" => Ok(Self::SourceFixAll), "notebook" => Ok(Self::Notebook), _ => Ok(Self::Custom(s)) }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SemanticTokenTypes {
    Namespace,
    Type,
    Class,
    Enum,
    Interface,
    Struct,
    TypeParameter,
    Parameter,
    Variable,
    Property,
    EnumMember,
    Event,
    Function,
    Method,
    Macro,
    Keyword,
    Modifier,
    Comment,
    String,
    Number,
    Regexp,
    Operator,
    Decorator,
    Label,
    Custom(String),
}

impl SemanticTokenTypes {
    pub fn as_str(&self) -> &str {
        match self { Self::Namespace => "namespace", Self::Type => "type", Self::Class => "class", Self::Enum => "enum", Self::Interface => "interface", Self::Struct => "struct", Self::TypeParameter => "typeParameter", Self::Parameter => "parameter", Self::Variable => "variable", Self::Property => "property", Self::EnumMember => "enumMember", Self::Event => "event", Self::Function => "function", Self::Method => "method", Self::Macro => "macro", Self::Keyword => "keyword", Self::Modifier => "modifier", Self::Comment => "comment", Self::String => "string", Self::Number => "number", Self::Regexp => "regexp", Self::Operator => "operator", Self::Decorator => "decorator", Self::Label => "label", Self::Custom(s) => s }
    }
}
impl Serialize for SemanticTokenTypes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.as_str())
    }
}
impl std::fmt::Display for SemanticTokenTypes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.as_str())
    }
}
impl<'de> Deserialize<'de> for SemanticTokenTypes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        match s.as_str() { "namespace" => Ok(Self::Namespace), "type" => Ok(Self::Type), "class" => Ok(Self::Class), "enum" => Ok(Self::Enum), "interface" => Ok(Self::Interface), "struct" => Ok(Self::Struct), "typeParameter" => Ok(Self::TypeParameter), "parameter" => Ok(Self::Parameter), "variable" => Ok(Self::Variable), "property" => Ok(Self::Property), "enumMember" => Ok(Self::EnumMember), "event" => Ok(Self::Event), "function" => Ok(Self::Function), "method" => Ok(Self::Method), "macro" => Ok(Self::Macro), "keyword" => Ok(Self::Keyword), "modifier" => Ok(Self::Modifier), "comment" => Ok(Self::Comment), "string" => Ok(Self::String), "number" => Ok(Self::Number), "regexp" => Ok(Self::Regexp), "operator" => Ok(Self::Operator), "decorator" => Ok(Self::Decorator), "label" => Ok(Self::Label), _ => Ok(Self::Custom(s)) }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum TextDocumentContentChangeEvent {
    TextDocumentContentChangePartial(TextDocumentContentChangePartial),
    TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash)]
#[serde(untagged)]
pub enum Id {
    Int(i32),
    String(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash)]
#[serde(untagged)]
pub enum ProgressToken {
    Int(i32),
    String(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum GlobPattern {
    Pattern(String),
    RelativePattern(RelativePattern),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum BaseUri {
    WorkspaceFolder(WorkspaceFolder),
    Uri(Uri),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum Contents {
    MarkupContent(MarkupContent),
    String(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum Documentation {
    String(String),
    MarkupContent(MarkupContent),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Copy, Eq)]
#[serde(untagged)]
pub enum ActiveParameter {
    Int(u32),
    Null(()),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum ParameterInformationLabel {
    String(String),
    Tuple((u32,u32)),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum PrepareRenameResult {
    PrepareRenamePlaceholder(PrepareRenamePlaceholder),
    PrepareRenameDefaultBehavior(PrepareRenameDefaultBehavior),
    Range(Range),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum CompletionItemTextEdit {
    InsertReplaceEdit(InsertReplaceEdit),
    TextEdit(TextEdit),
}

impl From<InsertReplaceEdit> for CompletionItemTextEdit {
    fn from(x: InsertReplaceEdit) -> Self {
        Self::InsertReplaceEdit(x)
    }
}

impl From<TextEdit> for CompletionItemTextEdit {
    fn from(x: TextEdit) -> Self {
        Self::TextEdit(x)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompletionResponse {
    CompletionItemList(Vec<CompletionItem>),
    CompletionList(CompletionList),
}

impl From<Vec<CompletionItem>> for CompletionResponse {
    fn from(x: Vec<CompletionItem>) -> Self {
        Self::CompletionItemList(x)
    }
}

impl From<CompletionList> for CompletionResponse {
    fn from(x: CompletionList) -> Self {
        Self::CompletionList(x)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentSymbolResponse {
    SymbolInformationList(Vec<SymbolInformation>),
    DocumentSymbolList(Vec<DocumentSymbol>),
}

impl From<Vec<SymbolInformation>> for DocumentSymbolResponse {
    fn from(x: Vec<SymbolInformation>) -> Self {
        Self::SymbolInformationList(x)
    }
}

impl From<Vec<DocumentSymbol>> for DocumentSymbolResponse {
    fn from(x: Vec<DocumentSymbol>) -> Self {
        Self::DocumentSymbolList(x)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceSymbolResponse {
    SymbolInformationList(Vec<SymbolInformation>),
    WorkspaceSymbolList(Vec<WorkspaceSymbol>),
}

impl From<Vec<SymbolInformation>> for WorkspaceSymbolResponse {
    fn from(x: Vec<SymbolInformation>) -> Self {
        Self::SymbolInformationList(x)
    }
}

impl From<Vec<WorkspaceSymbol>> for WorkspaceSymbolResponse {
    fn from(x: Vec<WorkspaceSymbol>) -> Self {
        Self::WorkspaceSymbolList(x)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum WorkspaceSymbolLocation {
    Location(Location),
    LocationUriOnly(LocationUriOnly),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum Definition {
    Location(Location),
    LocationList(Vec<Location>),
}

impl From<Location> for Definition {
    fn from(x: Location) -> Self {
        Self::Location(x)
    }
}

impl From<Vec<Location>> for Definition {
    fn from(x: Vec<Location>) -> Self {
        Self::LocationList(x)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum DefinitionResponse {
    DefinitionLinkList(Vec<LocationLink>),
    Definition(Definition),
}

impl From<Vec<LocationLink>> for DefinitionResponse {
    fn from(x: Vec<LocationLink>) -> Self {
        Self::DefinitionLinkList(x)
    }
}

impl From<Definition> for DefinitionResponse {
    fn from(x: Definition) -> Self {
        Self::Definition(x)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Full {
    Bool(bool),
    SemanticTokensFullDelta(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Label {
    String(String),
    InlayHintLabelPartList(Vec<InlayHintLabelPart>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum Tooltip {
    String(String),
    MarkupContent(MarkupContent),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum Code {
    Int(i32),
    String(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CodeActionResponse {
    CodeAction(CodeAction),
    Command(Command),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Edit {
    SnippetTextEdit(SnippetTextEdit),
    AnnotatedTextEdit(AnnotatedTextEdit),
    TextEdit(TextEdit),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
#[serde(untagged)]
pub enum WorkspaceFolders {
    WorkspaceFolderList(Vec<WorkspaceFolder>),
    Null(()),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum HoverProvider {
    Bool(bool),
    Options(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DefinitionProvider {
    Bool(bool),
    Options(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ReferencesProvider {
    Bool(bool),
    Options(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentHighlightProvider {
    Bool(bool),
    Options(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentSymbolProvider {
    Bool(bool),
    Options(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceSymbolProvider {
    Bool(bool),
    Options(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentFormattingProvider {
    Bool(bool),
    Options(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SelectionRangeProvider {
    Bool(bool),
    Options(Value),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CodeActionProvider {
    Bool(bool),
    CodeActionOptions(CodeActionOptions),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum RenameProvider {
    Bool(bool),
    RenameOptions(RenameOptions),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SemanticTokensProvider {
    SemanticTokensOptions(SemanticTokensOptions),
}

impl From<SemanticTokensOptions> for SemanticTokensProvider {
    fn from(x: SemanticTokensOptions) -> Self {
        Self::SemanticTokensOptions(x)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum InlayHintProvider {
    Bool(bool),
    InlayHintOptions(InlayHintOptions),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DiagnosticProvider {
    DiagnosticOptions(DiagnosticOptions),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentSync {
    Kind(TextDocumentSyncKind),
    Options(Value),
}

#[derive(Debug)]
pub enum ShutdownRequest {}
impl crate::Request for ShutdownRequest {
    type Params = ();
    type Result = ();
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("shutdown");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum SelectionRangeRequest {}
impl crate::Request for SelectionRangeRequest {
    type Params = SelectionRangeParams;
    type Result = Option<Vec<SelectionRange>>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/selectionRange");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DocumentFormattingRequest {}
impl crate::Request for DocumentFormattingRequest {
    type Params = DocumentFormattingParams;
    type Result = Option<Vec<TextEdit>>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/formatting");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum CompletionRequest {}
impl crate::Request for CompletionRequest {
    type Params = CompletionParams;
    type Result = Option<CompletionResponse>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/completion");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum CompletionResolveRequest {}
impl crate::Request for CompletionResolveRequest {
    type Params = CompletionItem;
    type Result = CompletionItem;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("completionItem/resolve");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum SemanticTokensRequest {}
impl crate::Request for SemanticTokensRequest {
    type Params = SemanticTokensParams;
    type Result = Option<SemanticTokens>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/semanticTokens/full");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum SemanticTokensRangeRequest {}
impl crate::Request for SemanticTokensRangeRequest {
    type Params = SemanticTokensRangeParams;
    type Result = Option<SemanticTokens>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/semanticTokens/range");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum SemanticTokensRefreshRequest {}
impl crate::Request for SemanticTokensRefreshRequest {
    type Params = ();
    type Result = ();
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("workspace/semanticTokens/refresh");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DocumentDiagnosticRequest {}
impl crate::Request for DocumentDiagnosticRequest {
    type Params = DocumentDiagnosticParams;
    type Result = DocumentDiagnosticReport;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/diagnostic");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DocumentSymbolRequest {}
impl crate::Request for DocumentSymbolRequest {
    type Params = DocumentSymbolParams;
    type Result = Option<DocumentSymbolResponse>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/documentSymbol");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum SignatureHelpRequest {}
impl crate::Request for SignatureHelpRequest {
    type Params = SignatureHelpParams;
    type Result = Option<SignatureHelp>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/signatureHelp");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum HoverRequest {}
impl crate::Request for HoverRequest {
    type Params = HoverParams;
    type Result = Option<Hover>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/hover");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DefinitionRequest {}
impl crate::Request for DefinitionRequest {
    type Params = DefinitionParams;
    type Result = Option<DefinitionResponse>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/definition");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum InlayHintRequest {}
impl crate::Request for InlayHintRequest {
    type Params = InlayHintParams;
    type Result = Option<Vec<InlayHint>>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/inlayHint");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum InlayHintResolveRequest {}
impl crate::Request for InlayHintResolveRequest {
    type Params = InlayHint;
    type Result = InlayHint;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("inlayHint/resolve");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum InlayHintRefreshRequest {}
impl crate::Request for InlayHintRefreshRequest {
    type Params = ();
    type Result = ();
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("workspace/inlayHint/refresh");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum CodeLensRequest {}
impl crate::Request for CodeLensRequest {
    type Params = CodeLensParams;
    type Result = Option<Vec<CodeLens>>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/codeLens");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum CodeLensResolveRequest {}
impl crate::Request for CodeLensResolveRequest {
    type Params = CodeLens;
    type Result = CodeLens;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("codeLens/resolve");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum CodeLensRefreshRequest {}
impl crate::Request for CodeLensRefreshRequest {
    type Params = ();
    type Result = ();
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("workspace/codeLens/refresh");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum PrepareRenameRequest {}
impl crate::Request for PrepareRenameRequest {
    type Params = PrepareRenameParams;
    type Result = Option<PrepareRenameResult>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/prepareRename");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum RenameRequest {}
impl crate::Request for RenameRequest {
    type Params = RenameParams;
    type Result = Option<WorkspaceEdit>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/rename");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum ReferencesRequest {}
impl crate::Request for ReferencesRequest {
    type Params = ReferenceParams;
    type Result = Option<Vec<Location>>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/references");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DocumentHighlightRequest {}
impl crate::Request for DocumentHighlightRequest {
    type Params = DocumentHighlightParams;
    type Result = Option<Vec<DocumentHighlight>>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/documentHighlight");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum WorkspaceSymbolRequest {}
impl crate::Request for WorkspaceSymbolRequest {
    type Params = WorkspaceSymbolParams;
    type Result = Option<WorkspaceSymbolResponse>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("workspace/symbol");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum CodeActionRequest {}
impl crate::Request for CodeActionRequest {
    type Params = CodeActionParams;
    type Result = Option<Vec<CodeActionResponse>>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("textDocument/codeAction");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum CodeActionResolveRequest {}
impl crate::Request for CodeActionResolveRequest {
    type Params = CodeAction;
    type Result = CodeAction;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("codeAction/resolve");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum ConfigurationRequest {}
impl crate::Request for ConfigurationRequest {
    type Params = ConfigurationParams;
    type Result = Vec<Value>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("workspace/configuration");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum RegistrationRequest {}
impl crate::Request for RegistrationRequest {
    type Params = RegistrationParams;
    type Result = ();
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("client/registerCapability");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum ShowMessageRequest {}
impl crate::Request for ShowMessageRequest {
    type Params = ShowMessageRequestParams;
    type Result = Option<MessageActionItem>;
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("window/showMessageRequest");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum WorkDoneProgressCreateRequest {}
impl crate::Request for WorkDoneProgressCreateRequest {
    type Params = WorkDoneProgressCreateParams;
    type Result = ();
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("window/workDoneProgress/create");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DiagnosticRefreshRequest {}
impl crate::Request for DiagnosticRefreshRequest {
    type Params = ();
    type Result = ();
    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new("workspace/diagnostic/refresh");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum ExitNotification {}
impl crate::Notification for ExitNotification {
    type Params = ();
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("exit");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum CancelNotification {}
impl crate::Notification for CancelNotification {
    type Params = CancelParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("$/cancelRequest");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum ProgressNotification {}
impl crate::Notification for ProgressNotification {
    type Params = ProgressParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("$/progress");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum WorkDoneProgressCancelNotification {}
impl crate::Notification for WorkDoneProgressCancelNotification {
    type Params = WorkDoneProgressCancelParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("window/workDoneProgress/cancel");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DidOpenTextDocumentNotification {}
impl crate::Notification for DidOpenTextDocumentNotification {
    type Params = DidOpenTextDocumentParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("textDocument/didOpen");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DidChangeTextDocumentNotification {}
impl crate::Notification for DidChangeTextDocumentNotification {
    type Params = DidChangeTextDocumentParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("textDocument/didChange");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DidCloseTextDocumentNotification {}
impl crate::Notification for DidCloseTextDocumentNotification {
    type Params = DidCloseTextDocumentParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("textDocument/didClose");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DidSaveTextDocumentNotification {}
impl crate::Notification for DidSaveTextDocumentNotification {
    type Params = DidSaveTextDocumentParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("textDocument/didSave");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DidChangeConfigurationNotification {}
impl crate::Notification for DidChangeConfigurationNotification {
    type Params = DidChangeConfigurationParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("workspace/didChangeConfiguration");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DidChangeWatchedFilesNotification {}
impl crate::Notification for DidChangeWatchedFilesNotification {
    type Params = DidChangeWatchedFilesParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("workspace/didChangeWatchedFiles");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum DidChangeWorkspaceFoldersNotification {}
impl crate::Notification for DidChangeWorkspaceFoldersNotification {
    type Params = DidChangeWorkspaceFoldersParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("workspace/didChangeWorkspaceFolders");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}
#[derive(Debug)]
pub enum ShowMessageNotification {}
impl crate::Notification for ShowMessageNotification {
    type Params = ShowMessageParams;
    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new("window/showMessage");
    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;
}

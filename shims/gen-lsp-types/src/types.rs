// generated by gen.py from lsp.spec

pub type LspAny = serde_json::Value;
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash, PartialOrd, Ord)]
pub struct Position {
    pub line: u32,
    pub character: u32,
}
impl Position { pub const fn new(line: u32, character: u32) -> Self { Self { line, character } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash, PartialOrd, Ord)]
pub struct Range {
    pub start: Position,
    pub end: Position,
}
impl Range { pub const fn new(start: Position, end: Position) -> Self { Self { start, end } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Hash)]
pub struct Location {
    pub uri: Uri,
    pub range: Range,
}
impl Location { pub const fn new(uri: Uri, range: Range) -> Self { Self { uri, range } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct LocationLink {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "originSelectionRange")]
    pub origin_selection_range: Option<Range>,
    #[serde(rename = "targetUri")]
    pub target_uri: Uri,
    #[serde(rename = "targetRange")]
    pub target_range: Range,
    #[serde(rename = "targetSelectionRange")]
    pub target_selection_range: Range,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextEdit {
    pub range: Range,
    #[serde(rename = "newText")]
    pub new_text: String,
}
impl TextEdit { pub const fn new(range: Range, new_text: String) -> Self { Self { range, new_text } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct AnnotatedTextEdit {
    #[serde(flatten)]
    pub text_edit: TextEdit,
    #[serde(rename = "annotationId")]
    pub annotation_id: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SnippetTextEdit {
    pub range: Range,
    pub snippet: LspAny,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "annotationId")]
    pub annotation_id: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Hash)]
pub struct TextDocumentIdentifier {
    pub uri: Uri,
}
impl TextDocumentIdentifier { pub const fn new(uri: Uri) -> Self { Self { uri } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Hash)]
pub struct VersionedTextDocumentIdentifier {
    #[serde(flatten)]
    pub text_document_identifier: TextDocumentIdentifier,
    pub version: i32,
}
impl VersionedTextDocumentIdentifier { pub const fn new(text_document_identifier: TextDocumentIdentifier, version: i32) -> Self { Self { text_document_identifier, version } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct OptionalVersionedTextDocumentIdentifier {
    #[serde(flatten)]
    pub text_document_identifier: TextDocumentIdentifier,
    pub version: Option<i32>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentItem {
    pub uri: Uri,
    #[serde(rename = "languageId")]
    pub language_id: LanguageKind,
    pub version: i32,
    pub text: String,
}
impl TextDocumentItem { pub const fn new(uri: Uri, language_id: LanguageKind, version: i32, text: String) -> Self { Self { uri, language_id, version, text } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentPositionParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    pub position: Position,
}
impl TextDocumentPositionParams { pub const fn new(text_document: TextDocumentIdentifier, position: Position) -> Self { Self { text_document, position } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Id {
    Int(i32),
    String(String),
}
impl Default for Id { fn default() -> Self { Id::Int(Default::default()) } }
impl From<i32> for Id { fn from(v: i32) -> Self { Id::Int(v) } }
impl From<String> for Id { fn from(v: String) -> Self { Id::String(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ProgressToken {
    Int(i32),
    String(String),
}
impl Default for ProgressToken { fn default() -> Self { ProgressToken::Int(Default::default()) } }
impl From<i32> for ProgressToken { fn from(v: i32) -> Self { ProgressToken::Int(v) } }
impl From<String> for ProgressToken { fn from(v: String) -> Self { ProgressToken::String(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CancelParams {
    pub id: Id,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ProgressParams {
    pub token: ProgressToken,
    pub value: LspAny,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkDoneProgressParams {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "workDoneToken")]
    pub work_done_token: Option<ProgressToken>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct PartialResultParams {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "partialResultToken")]
    pub partial_result_token: Option<ProgressToken>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkDoneProgressOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "workDoneProgress")]
    pub work_done_progress: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkDoneProgressCreateParams {
    pub token: ProgressToken,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkDoneProgressCancelParams {
    pub token: ProgressToken,
}
str_enum!(LanguageKind: Move = "move", Rust = "rust", Json = "json", Markdown = "markdown", Plaintext = "plaintext");
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Serialize, Deserialize)]
pub enum MarkupKind {
    #[default]
    #[serde(rename = "plaintext")]
    PlainText,
    #[serde(rename = "markdown")]
    Markdown,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct MarkupContent {
    pub kind: MarkupKind,
    pub value: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum MarkedString {
    String(String),
    MarkedStringWithLanguage(MarkedStringWithLanguage),
}
impl Default for MarkedString { fn default() -> Self { MarkedString::String(Default::default()) } }
impl From<String> for MarkedString { fn from(v: String) -> Self { MarkedString::String(v) } }
impl From<MarkedStringWithLanguage> for MarkedString { fn from(v: MarkedStringWithLanguage) -> Self { MarkedString::MarkedStringWithLanguage(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct MarkedStringWithLanguage {
    pub language: String,
    pub value: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Command {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<String>,
    pub command: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub arguments: Option<Vec<LspAny>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DidOpenTextDocumentParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentItem,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DidCloseTextDocumentParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DidSaveTextDocumentParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub text: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DidChangeTextDocumentParams {
    #[serde(rename = "textDocument")]
    pub text_document: VersionedTextDocumentIdentifier,
    #[serde(rename = "contentChanges")]
    pub content_changes: Vec<TextDocumentContentChangeEvent>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentContentChangePartial {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "rangeLength")]
    pub range_length: Option<u32>,
    pub text: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentContentChangeWholeDocument {
    pub text: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentContentChangeEvent {
    TextDocumentContentChangePartial(TextDocumentContentChangePartial),
    TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument),
}
impl Default for TextDocumentContentChangeEvent { fn default() -> Self { TextDocumentContentChangeEvent::TextDocumentContentChangePartial(Default::default()) } }
impl From<TextDocumentContentChangePartial> for TextDocumentContentChangeEvent { fn from(v: TextDocumentContentChangePartial) -> Self { TextDocumentContentChangeEvent::TextDocumentContentChangePartial(v) } }
impl From<TextDocumentContentChangeWholeDocument> for TextDocumentContentChangeEvent { fn from(v: TextDocumentContentChangeWholeDocument) -> Self { TextDocumentContentChangeEvent::TextDocumentContentChangeWholeDocument(v) } }
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum FileChangeType {
    #[default]
    Created = 1,
    Changed = 2,
    Deleted = 3,
}
int_enum!(FileChangeType: Created = 1, Changed = 2, Deleted = 3);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct FileEvent {
    pub uri: Uri,
    #[serde(rename = "type")]
    pub kind: FileChangeType,
}
impl FileEvent { pub const fn new(uri: Uri, kind: FileChangeType) -> Self { Self { uri, kind } } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DidChangeWatchedFilesParams {
    pub changes: Vec<FileEvent>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DidChangeConfigurationParams {
    pub settings: LspAny,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceFolder {
    pub uri: Uri,
    pub name: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceFolders {
    WorkspaceFolderList(Vec<WorkspaceFolder>),
    Null(()),
}
impl Default for WorkspaceFolders { fn default() -> Self { WorkspaceFolders::WorkspaceFolderList(Default::default()) } }
impl From<Vec<WorkspaceFolder>> for WorkspaceFolders { fn from(v: Vec<WorkspaceFolder>) -> Self { WorkspaceFolders::WorkspaceFolderList(v) } }
impl From<()> for WorkspaceFolders { fn from(v: ()) -> Self { WorkspaceFolders::Null(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceFoldersChangeEvent {
    pub added: Vec<WorkspaceFolder>,
    pub removed: Vec<WorkspaceFolder>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DidChangeWorkspaceFoldersParams {
    pub event: WorkspaceFoldersChangeEvent,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ConfigurationItem {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "scopeUri")]
    pub scope_uri: Option<Uri>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub section: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ConfigurationParams {
    pub items: Vec<ConfigurationItem>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Registration {
    pub id: String,
    pub method: String,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "registerOptions")]
    pub register_options: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RegistrationParams {
    pub registrations: Vec<Registration>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Unregistration {
    pub id: String,
    pub method: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct UnregistrationParams {
    #[serde(flatten)]
    pub unregisterations: UnregInner,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct UnregInner {
    pub unregisterations: Vec<Unregistration>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum GlobPattern {
    Pattern(String),
    RelativePattern(RelativePattern),
}
impl Default for GlobPattern { fn default() -> Self { GlobPattern::Pattern(Default::default()) } }
impl From<String> for GlobPattern { fn from(v: String) -> Self { GlobPattern::Pattern(v) } }
impl From<RelativePattern> for GlobPattern { fn from(v: RelativePattern) -> Self { GlobPattern::RelativePattern(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum BaseUri {
    Uri(Uri),
    WorkspaceFolder(WorkspaceFolder),
}
impl Default for BaseUri { fn default() -> Self { BaseUri::Uri(Default::default()) } }
impl From<Uri> for BaseUri { fn from(v: Uri) -> Self { BaseUri::Uri(v) } }
impl From<WorkspaceFolder> for BaseUri { fn from(v: WorkspaceFolder) -> Self { BaseUri::WorkspaceFolder(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RelativePattern {
    #[serde(rename = "baseUri")]
    pub base_uri: BaseUri,
    pub pattern: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct FileSystemWatcher {
    #[serde(rename = "globPattern")]
    pub glob_pattern: GlobPattern,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<u32>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DidChangeWatchedFilesRegistrationOptions {
    pub watchers: Vec<FileSystemWatcher>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentSelectorItem {
    TextDocumentFilter(LspAny),
}
impl Default for DocumentSelectorItem { fn default() -> Self { DocumentSelectorItem::TextDocumentFilter(Default::default()) } }
impl From<LspAny> for DocumentSelectorItem { fn from(v: LspAny) -> Self { DocumentSelectorItem::TextDocumentFilter(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentRegistrationOptions {
    #[serde(rename = "documentSelector")]
    pub document_selector: Option<Vec<TextDocumentFilter>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentFilterLanguage {
    pub language: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub scheme: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pattern: Option<GlobPattern>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentFilterPattern {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub language: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub scheme: Option<String>,
    pub pattern: GlobPattern,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentFilterScheme {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub language: Option<String>,
    pub scheme: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub pattern: Option<GlobPattern>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentFilter {
    Language(TextDocumentFilterLanguage),
    Pattern(TextDocumentFilterPattern),
    Scheme(TextDocumentFilterScheme),
}
impl Default for TextDocumentFilter { fn default() -> Self { TextDocumentFilter::Language(Default::default()) } }
impl From<TextDocumentFilterLanguage> for TextDocumentFilter { fn from(v: TextDocumentFilterLanguage) -> Self { TextDocumentFilter::Language(v) } }
impl From<TextDocumentFilterPattern> for TextDocumentFilter { fn from(v: TextDocumentFilterPattern) -> Self { TextDocumentFilter::Pattern(v) } }
impl From<TextDocumentFilterScheme> for TextDocumentFilter { fn from(v: TextDocumentFilterScheme) -> Self { TextDocumentFilter::Scheme(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SaveOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "includeText")]
    pub include_text: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentSaveRegistrationOptions {
    #[serde(flatten)]
    pub text_document_registration_options: TextDocumentRegistrationOptions,
    #[serde(flatten)]
    pub save_options: SaveOptions,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum MessageType {
    #[default]
    Error = 1,
    Warning = 2,
    Info = 3,
    Log = 4,
    Debug = 5,
}
int_enum!(MessageType: Error = 1, Warning = 2, Info = 3, Log = 4, Debug = 5);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ShowMessageParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct MessageActionItem {
    pub title: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ShowMessageRequestParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub actions: Option<Vec<MessageActionItem>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct LogMessageParams {
    #[serde(rename = "type")]
    pub kind: MessageType,
    pub message: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CreateFileOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub overwrite: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "ignoreIfExists")]
    pub ignore_if_exists: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RenameFileOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub overwrite: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "ignoreIfExists")]
    pub ignore_if_exists: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DeleteFileOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub recursive: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "ignoreIfNotExists")]
    pub ignore_if_not_exists: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CreateFile {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<CreateFileOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "annotationId")]
    pub annotation_id: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RenameFile {
    #[serde(rename = "oldUri")]
    pub old_uri: Uri,
    #[serde(rename = "newUri")]
    pub new_uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<RenameFileOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "annotationId")]
    pub annotation_id: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DeleteFile {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub options: Option<DeleteFileOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "annotationId")]
    pub annotation_id: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Edit {
    AnnotatedTextEdit(AnnotatedTextEdit),
    TextEdit(TextEdit),
    SnippetTextEdit(SnippetTextEdit),
}
impl Default for Edit { fn default() -> Self { Edit::AnnotatedTextEdit(Default::default()) } }
impl From<AnnotatedTextEdit> for Edit { fn from(v: AnnotatedTextEdit) -> Self { Edit::AnnotatedTextEdit(v) } }
impl From<TextEdit> for Edit { fn from(v: TextEdit) -> Self { Edit::TextEdit(v) } }
impl From<SnippetTextEdit> for Edit { fn from(v: SnippetTextEdit) -> Self { Edit::SnippetTextEdit(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentEdit {
    #[serde(rename = "textDocument")]
    pub text_document: OptionalVersionedTextDocumentIdentifier,
    pub edits: Vec<Edit>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ChangeAnnotation {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "needsConfirmation")]
    pub needs_confirmation: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceEdit {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub changes: Option<HashMap<Uri, Vec<TextEdit>>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentChanges")]
    pub document_changes: Option<Vec<DocumentChange>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "changeAnnotations")]
    pub change_annotations: Option<HashMap<String, ChangeAnnotation>>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default, Serialize, Deserialize)]
pub enum ResourceOperationKind {
    #[default]
    #[serde(rename = "create")]
    Create,
    #[serde(rename = "rename")]
    Rename,
    #[serde(rename = "delete")]
    Delete,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum CompletionItemKind {
    #[default]
    Text = 1,
    Method = 2,
    Function = 3,
    Constructor = 4,
    Field = 5,
    Variable = 6,
    Class = 7,
    Interface = 8,
    Module = 9,
    Property = 10,
    Unit = 11,
    Value = 12,
    Enum = 13,
    Keyword = 14,
    Snippet = 15,
    Color = 16,
    File = 17,
    Reference = 18,
    Folder = 19,
    EnumMember = 20,
    Constant = 21,
    Struct = 22,
    Event = 23,
    Operator = 24,
    TypeParameter = 25,
}
int_enum!(CompletionItemKind: Text = 1, Method = 2, Function = 3, Constructor = 4, Field = 5, Variable = 6, Class = 7, Interface = 8, Module = 9, Property = 10, Unit = 11, Value = 12, Enum = 13, Keyword = 14, Snippet = 15, Color = 16, File = 17, Reference = 18, Folder = 19, EnumMember = 20, Constant = 21, Struct = 22, Event = 23, Operator = 24, TypeParameter = 25);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum CompletionItemTag {
    #[default]
    Deprecated = 1,
}
int_enum!(CompletionItemTag: Deprecated = 1);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum CompletionTriggerKind {
    #[default]
    Invoked = 1,
    TriggerCharacter = 2,
    TriggerForIncompleteCompletions = 3,
}
int_enum!(CompletionTriggerKind: Invoked = 1, TriggerCharacter = 2, TriggerForIncompleteCompletions = 3);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum InsertTextFormat {
    #[default]
    PlainText = 1,
    Snippet = 2,
}
int_enum!(InsertTextFormat: PlainText = 1, Snippet = 2);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum InsertTextMode {
    #[default]
    AsIs = 1,
    AdjustIndentation = 2,
}
int_enum!(InsertTextMode: AsIs = 1, AdjustIndentation = 2);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CompletionContext {
    #[serde(rename = "triggerKind")]
    pub trigger_kind: CompletionTriggerKind,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "triggerCharacter")]
    pub trigger_character: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CompletionParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context: Option<CompletionContext>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CompletionItemLabelDetails {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InsertReplaceEdit {
    #[serde(rename = "newText")]
    pub new_text: String,
    pub insert: Range,
    pub replace: Range,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompletionItemTextEdit {
    TextEdit(TextEdit),
    InsertReplaceEdit(InsertReplaceEdit),
}
impl Default for CompletionItemTextEdit { fn default() -> Self { CompletionItemTextEdit::TextEdit(Default::default()) } }
impl From<TextEdit> for CompletionItemTextEdit { fn from(v: TextEdit) -> Self { CompletionItemTextEdit::TextEdit(v) } }
impl From<InsertReplaceEdit> for CompletionItemTextEdit { fn from(v: InsertReplaceEdit) -> Self { CompletionItemTextEdit::InsertReplaceEdit(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Documentation {
    String(String),
    MarkupContent(MarkupContent),
}
impl Default for Documentation { fn default() -> Self { Documentation::String(Default::default()) } }
impl From<String> for Documentation { fn from(v: String) -> Self { Documentation::String(v) } }
impl From<MarkupContent> for Documentation { fn from(v: MarkupContent) -> Self { Documentation::MarkupContent(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CompletionItem {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "labelDetails")]
    pub label_details: Option<CompletionItemLabelDetails>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CompletionItemKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<CompletionItemTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub preselect: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "sortText")]
    pub sort_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "filterText")]
    pub filter_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "insertText")]
    pub insert_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "insertTextFormat")]
    pub insert_text_format: Option<InsertTextFormat>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "insertTextMode")]
    pub insert_text_mode: Option<InsertTextMode>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "textEdit")]
    pub text_edit: Option<CompletionItemTextEdit>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "textEditText")]
    pub text_edit_text: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "additionalTextEdits")]
    pub additional_text_edits: Option<Vec<TextEdit>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "commitCharacters")]
    pub commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CompletionList {
    #[serde(rename = "isIncomplete")]
    pub is_incomplete: bool,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "itemDefaults")]
    pub item_defaults: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "applyKind")]
    pub apply_kind: Option<LspAny>,
    pub items: Vec<CompletionItem>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CompletionResponse {
    CompletionItemList(Vec<CompletionItem>),
    CompletionList(CompletionList),
}
impl Default for CompletionResponse { fn default() -> Self { CompletionResponse::CompletionItemList(Default::default()) } }
impl From<Vec<CompletionItem>> for CompletionResponse { fn from(v: Vec<CompletionItem>) -> Self { CompletionResponse::CompletionItemList(v) } }
impl From<CompletionList> for CompletionResponse { fn from(v: CompletionList) -> Self { CompletionResponse::CompletionList(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Contents {
    MarkupContent(MarkupContent),
    MarkedString(MarkedString),
    MarkedStringList(Vec<MarkedString>),
}
impl Default for Contents { fn default() -> Self { Contents::MarkupContent(Default::default()) } }
impl From<MarkupContent> for Contents { fn from(v: MarkupContent) -> Self { Contents::MarkupContent(v) } }
impl From<MarkedString> for Contents { fn from(v: MarkedString) -> Self { Contents::MarkedString(v) } }
impl From<Vec<MarkedString>> for Contents { fn from(v: Vec<MarkedString>) -> Self { Contents::MarkedStringList(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Hover {
    pub contents: Contents,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range: Option<Range>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct HoverParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SignatureHelpParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub context: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ParameterInformationLabel {
    String(String),
    Tuple((u32,u32)),
}
impl Default for ParameterInformationLabel { fn default() -> Self { ParameterInformationLabel::String(Default::default()) } }
impl From<String> for ParameterInformationLabel { fn from(v: String) -> Self { ParameterInformationLabel::String(v) } }
impl From<(u32,u32)> for ParameterInformationLabel { fn from(v: (u32,u32)) -> Self { ParameterInformationLabel::Tuple(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ParameterInformation {
    pub label: ParameterInformationLabel,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ActiveParameterInner {
    Int(u32),
    Null(()),
}
impl Default for ActiveParameterInner { fn default() -> Self { ActiveParameterInner::Int(Default::default()) } }
impl From<u32> for ActiveParameterInner { fn from(v: u32) -> Self { ActiveParameterInner::Int(v) } }
impl From<()> for ActiveParameterInner { fn from(v: ()) -> Self { ActiveParameterInner::Null(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SignatureInformation {
    pub label: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<Documentation>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parameters: Option<Vec<ParameterInformation>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "activeParameter")]
    pub active_parameter: Option<ActiveParameter>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SignatureHelp {
    pub signatures: Vec<SignatureInformation>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "activeSignature")]
    pub active_signature: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "activeParameter")]
    pub active_parameter: Option<ActiveParameter>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DefinitionParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ImplementationParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Definition {
    Location(Location),
    LocationList(Vec<Location>),
}
impl Default for Definition { fn default() -> Self { Definition::Location(Default::default()) } }
impl From<Location> for Definition { fn from(v: Location) -> Self { Definition::Location(v) } }
impl From<Vec<Location>> for Definition { fn from(v: Vec<Location>) -> Self { Definition::LocationList(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DefinitionResponse {
    Definition(Definition),
    DefinitionLinkList(Vec<LocationLink>),
}
impl Default for DefinitionResponse { fn default() -> Self { DefinitionResponse::Definition(Default::default()) } }
impl From<Definition> for DefinitionResponse { fn from(v: Definition) -> Self { DefinitionResponse::Definition(v) } }
impl From<Vec<LocationLink>> for DefinitionResponse { fn from(v: Vec<LocationLink>) -> Self { DefinitionResponse::DefinitionLinkList(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ReferenceContext {
    #[serde(rename = "includeDeclaration")]
    pub include_declaration: bool,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ReferenceParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub context: ReferenceContext,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentHighlightParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum DocumentHighlightKind {
    #[default]
    Text = 1,
    Read = 2,
    Write = 3,
}
int_enum!(DocumentHighlightKind: Text = 1, Read = 2, Write = 3);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentHighlight {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<DocumentHighlightKind>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum SymbolKind {
    #[default]
    File = 1,
    Module = 2,
    Namespace = 3,
    Package = 4,
    Class = 5,
    Method = 6,
    Property = 7,
    Field = 8,
    Constructor = 9,
    Enum = 10,
    Interface = 11,
    Function = 12,
    Variable = 13,
    Constant = 14,
    String = 15,
    Number = 16,
    Boolean = 17,
    Array = 18,
    Object = 19,
    Key = 20,
    Null = 21,
    EnumMember = 22,
    Struct = 23,
    Event = 24,
    Operator = 25,
    TypeParameter = 26,
}
int_enum!(SymbolKind: File = 1, Module = 2, Namespace = 3, Package = 4, Class = 5, Method = 6, Property = 7, Field = 8, Constructor = 9, Enum = 10, Interface = 11, Function = 12, Variable = 13, Constant = 14, String = 15, Number = 16, Boolean = 17, Array = 18, Object = 19, Key = 20, Null = 21, EnumMember = 22, Struct = 23, Event = 24, Operator = 25, TypeParameter = 26);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum SymbolTag {
    #[default]
    Deprecated = 1,
}
int_enum!(SymbolTag: Deprecated = 1);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentSymbolParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentSymbol {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub detail: Option<String>,
    pub kind: SymbolKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<SymbolTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    pub range: Range,
    #[serde(rename = "selectionRange")]
    pub selection_range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub children: Option<Vec<DocumentSymbol>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct BaseSymbolInformation {
    pub name: String,
    pub kind: SymbolKind,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<SymbolTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "containerName")]
    pub container_name: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SymbolInformation {
    #[serde(flatten)]
    pub base_symbol_information: BaseSymbolInformation,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub deprecated: Option<bool>,
    pub location: Location,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentSymbolResponse {
    SymbolInformationList(Vec<SymbolInformation>),
    DocumentSymbolList(Vec<DocumentSymbol>),
}
impl Default for DocumentSymbolResponse { fn default() -> Self { DocumentSymbolResponse::SymbolInformationList(Default::default()) } }
impl From<Vec<SymbolInformation>> for DocumentSymbolResponse { fn from(v: Vec<SymbolInformation>) -> Self { DocumentSymbolResponse::SymbolInformationList(v) } }
impl From<Vec<DocumentSymbol>> for DocumentSymbolResponse { fn from(v: Vec<DocumentSymbol>) -> Self { DocumentSymbolResponse::DocumentSymbolList(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceSymbolParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
    pub query: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct LocationUriOnly {
    pub uri: Uri,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceSymbolLocation {
    Location(Location),
    LocationUriOnly(LocationUriOnly),
}
impl Default for WorkspaceSymbolLocation { fn default() -> Self { WorkspaceSymbolLocation::Location(Default::default()) } }
impl From<Location> for WorkspaceSymbolLocation { fn from(v: Location) -> Self { WorkspaceSymbolLocation::Location(v) } }
impl From<LocationUriOnly> for WorkspaceSymbolLocation { fn from(v: LocationUriOnly) -> Self { WorkspaceSymbolLocation::LocationUriOnly(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceSymbol {
    #[serde(flatten)]
    pub base_symbol_information: BaseSymbolInformation,
    pub location: WorkspaceSymbolLocation,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceSymbolResponse {
    SymbolInformationList(Vec<SymbolInformation>),
    WorkspaceSymbolList(Vec<WorkspaceSymbol>),
}
impl Default for WorkspaceSymbolResponse { fn default() -> Self { WorkspaceSymbolResponse::SymbolInformationList(Default::default()) } }
impl From<Vec<SymbolInformation>> for WorkspaceSymbolResponse { fn from(v: Vec<SymbolInformation>) -> Self { WorkspaceSymbolResponse::SymbolInformationList(v) } }
impl From<Vec<WorkspaceSymbol>> for WorkspaceSymbolResponse { fn from(v: Vec<WorkspaceSymbol>) -> Self { WorkspaceSymbolResponse::WorkspaceSymbolList(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SelectionRangeParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    pub positions: Vec<Position>,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SelectionRange {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub parent: Option<Box<SelectionRange>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SemanticTokensParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SemanticTokensRangeParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SemanticTokensLegend {
    #[serde(rename = "tokenTypes")]
    pub token_types: Vec<String>,
    #[serde(rename = "tokenModifiers")]
    pub token_modifiers: Vec<String>,
}
str_enum!(SemanticTokenTypes: Namespace = "namespace", Type = "type", Class = "class", Enum = "enum", Interface = "interface", Struct = "struct", TypeParameter = "typeParameter", Parameter = "parameter", Variable = "variable", Property = "property", EnumMember = "enumMember", Event = "event", Function = "function", Method = "method", Macro = "macro", Keyword = "keyword", Modifier = "modifier", Comment = "comment", String = "string", Number = "number", Regexp = "regexp", Operator = "operator", Decorator = "decorator", Label = "label");
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentFormattingParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    pub options: FormattingOptions,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct FormattingOptions {
    #[serde(rename = "tabSize")]
    pub tab_size: u32,
    #[serde(rename = "insertSpaces")]
    pub insert_spaces: bool,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "trimTrailingWhitespace")]
    pub trim_trailing_whitespace: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "insertFinalNewline")]
    pub insert_final_newline: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "trimFinalNewlines")]
    pub trim_final_newlines: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RenameParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(rename = "newName")]
    pub new_name: String,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct PrepareRenameParams {
    #[serde(flatten)]
    pub text_document_position_params: TextDocumentPositionParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct PrepareRenamePlaceholder {
    pub range: Range,
    pub placeholder: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct PrepareRenameDefaultBehavior {
    #[serde(rename = "defaultBehavior")]
    pub default_behavior: bool,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum PrepareRenameResult {
    Range(Range),
    PrepareRenamePlaceholder(PrepareRenamePlaceholder),
    PrepareRenameDefaultBehavior(PrepareRenameDefaultBehavior),
}
impl Default for PrepareRenameResult { fn default() -> Self { PrepareRenameResult::Range(Default::default()) } }
impl From<Range> for PrepareRenameResult { fn from(v: Range) -> Self { PrepareRenameResult::Range(v) } }
impl From<PrepareRenamePlaceholder> for PrepareRenameResult { fn from(v: PrepareRenamePlaceholder) -> Self { PrepareRenameResult::PrepareRenamePlaceholder(v) } }
impl From<PrepareRenameDefaultBehavior> for PrepareRenameResult { fn from(v: PrepareRenameDefaultBehavior) -> Self { PrepareRenameResult::PrepareRenameDefaultBehavior(v) } }
str_enum!(CodeActionKind: Empty = "", QuickFix = "quickfix", Refactor = "refactor", RefactorExtract = "refactor.extract", RefactorInline = "refactor.inline", RefactorMove = "refactor.move", RefactorRewrite = "refactor.rewrite", Source = "source", SourceOrganizeImports = "source.organizeImports", SourceFixAll = "source.fixAll", Notebook = "notebook");
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum CodeActionTriggerKind {
    #[default]
    Invoked = 1,
    Automatic = 2,
}
int_enum!(CodeActionTriggerKind: Invoked = 1, Automatic = 2);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum CodeActionTag {
    #[default]
    LlmGenerated = 1,
}
int_enum!(CodeActionTag: LlmGenerated = 1);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum DiagnosticSeverity {
    #[default]
    Error = 1,
    Warning = 2,
    Information = 3,
    Hint = 4,
}
int_enum!(DiagnosticSeverity: Error = 1, Warning = 2, Information = 3, Hint = 4);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum DiagnosticTag {
    #[default]
    Unnecessary = 1,
    Deprecated = 2,
}
int_enum!(DiagnosticTag: Unnecessary = 1, Deprecated = 2);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Code {
    Int(i32),
    String(String),
}
impl Default for Code { fn default() -> Self { Code::Int(Default::default()) } }
impl From<i32> for Code { fn from(v: i32) -> Self { Code::Int(v) } }
impl From<String> for Code { fn from(v: String) -> Self { Code::String(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeDescription {
    pub href: Uri,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DiagnosticRelatedInformation {
    pub location: Location,
    pub message: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct Diagnostic {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub severity: Option<DiagnosticSeverity>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub code: Option<Code>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "codeDescription")]
    pub code_description: Option<CodeDescription>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub source: Option<String>,
    pub message: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<DiagnosticTag>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "relatedInformation")]
    pub related_information: Option<Vec<DiagnosticRelatedInformation>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeActionContext {
    pub diagnostics: Vec<Diagnostic>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub only: Option<Vec<CodeActionKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "triggerKind")]
    pub trigger_kind: Option<CodeActionTriggerKind>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeActionParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
    pub context: CodeActionContext,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeActionDisabled {
    pub reason: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeAction {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<CodeActionKind>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostics: Option<Vec<Diagnostic>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "isPreferred")]
    pub is_preferred: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub disabled: Option<CodeActionDisabled>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub edit: Option<WorkspaceEdit>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tags: Option<Vec<CodeActionTag>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CodeActionResponse {
    Command(Command),
    CodeAction(CodeAction),
}
impl Default for CodeActionResponse { fn default() -> Self { CodeActionResponse::Command(Default::default()) } }
impl From<Command> for CodeActionResponse { fn from(v: Command) -> Self { CodeActionResponse::Command(v) } }
impl From<CodeAction> for CodeActionResponse { fn from(v: CodeAction) -> Self { CodeActionResponse::CodeAction(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeLensParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeLens {
    pub range: Range,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentDiagnosticParams {
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub identifier: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "previousResultId")]
    pub previous_result_id: Option<String>,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(flatten)]
    pub partial_result_params: PartialResultParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct FullDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resultId")]
    pub result_id: Option<String>,
    pub items: Vec<Diagnostic>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct UnchangedDocumentDiagnosticReport {
    #[serde(rename = "resultId")]
    pub result_id: String,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum RelatedDocuments {
    #[serde(rename = "full")]
    FullDocumentDiagnosticReport(FullDocumentDiagnosticReport),
    #[serde(rename = "unchanged")]
    UnchangedDocumentDiagnosticReport(UnchangedDocumentDiagnosticReport),
}
impl From<FullDocumentDiagnosticReport> for RelatedDocuments { fn from(v: FullDocumentDiagnosticReport) -> Self { RelatedDocuments::FullDocumentDiagnosticReport(v) } }
impl From<UnchangedDocumentDiagnosticReport> for RelatedDocuments { fn from(v: UnchangedDocumentDiagnosticReport) -> Self { RelatedDocuments::UnchangedDocumentDiagnosticReport(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RelatedFullDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "relatedDocuments")]
    pub related_documents: Option<HashMap<Uri, RelatedDocuments>>,
    #[serde(flatten)]
    pub full_document_diagnostic_report: FullDocumentDiagnosticReport,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RelatedUnchangedDocumentDiagnosticReport {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "relatedDocuments")]
    pub related_documents: Option<HashMap<Uri, RelatedDocuments>>,
    #[serde(flatten)]
    pub unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum DocumentDiagnosticReport {
    #[serde(rename = "full")]
    RelatedFullDocumentDiagnosticReport(RelatedFullDocumentDiagnosticReport),
    #[serde(rename = "unchanged")]
    RelatedUnchangedDocumentDiagnosticReport(RelatedUnchangedDocumentDiagnosticReport),
}
impl From<RelatedFullDocumentDiagnosticReport> for DocumentDiagnosticReport { fn from(v: RelatedFullDocumentDiagnosticReport) -> Self { DocumentDiagnosticReport::RelatedFullDocumentDiagnosticReport(v) } }
impl From<RelatedUnchangedDocumentDiagnosticReport> for DocumentDiagnosticReport { fn from(v: RelatedUnchangedDocumentDiagnosticReport) -> Self { DocumentDiagnosticReport::RelatedUnchangedDocumentDiagnosticReport(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DiagnosticServerCancellationData {
    #[serde(rename = "retriggerRequest")]
    pub retrigger_request: bool,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct PublishDiagnosticsParams {
    pub uri: Uri,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<i32>,
    pub diagnostics: Vec<Diagnostic>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum InlayHintKind {
    #[default]
    Type = 1,
    Parameter = 2,
}
int_enum!(InlayHintKind: Type = 1, Parameter = 2);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InlayHintParams {
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
    #[serde(rename = "textDocument")]
    pub text_document: TextDocumentIdentifier,
    pub range: Range,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Tooltip {
    String(String),
    MarkupContent(MarkupContent),
}
impl Default for Tooltip { fn default() -> Self { Tooltip::String(Default::default()) } }
impl From<String> for Tooltip { fn from(v: String) -> Self { Tooltip::String(v) } }
impl From<MarkupContent> for Tooltip { fn from(v: MarkupContent) -> Self { Tooltip::MarkupContent(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InlayHintLabelPart {
    pub value: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<Tooltip>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub location: Option<Location>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub command: Option<Command>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Label {
    String(String),
    InlayHintLabelPartList(Vec<InlayHintLabelPart>),
}
impl Default for Label { fn default() -> Self { Label::String(Default::default()) } }
impl From<String> for Label { fn from(v: String) -> Self { Label::String(v) } }
impl From<Vec<InlayHintLabelPart>> for Label { fn from(v: Vec<InlayHintLabelPart>) -> Self { Label::InlayHintLabelPartList(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InlayHint {
    pub position: Position,
    pub label: Label,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kind: Option<InlayHintKind>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "textEdits")]
    pub text_edits: Option<Vec<TextEdit>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub tooltip: Option<Tooltip>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "paddingLeft")]
    pub padding_left: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "paddingRight")]
    pub padding_right: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub data: Option<LspAny>,
}
str_enum!(PositionEncodingKind: UTF8 = "utf-8", UTF16 = "utf-16", UTF32 = "utf-32");
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(u32)]
pub enum TextDocumentSyncKind {
    #[default]
    None = 0,
    Full = 1,
    Incremental = 2,
}
int_enum!(TextDocumentSyncKind: None = 0, Full = 1, Incremental = 2);
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentSyncOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "openClose")]
    pub open_close: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub change: Option<TextDocumentSyncKind>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "willSave")]
    pub will_save: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "willSaveWaitUntil")]
    pub will_save_wait_until: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub save: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum TextDocumentSync {
    Options(TextDocumentSyncOptions),
    Kind(TextDocumentSyncKind),
}
impl Default for TextDocumentSync { fn default() -> Self { TextDocumentSync::Options(Default::default()) } }
impl From<TextDocumentSyncOptions> for TextDocumentSync { fn from(v: TextDocumentSyncOptions) -> Self { TextDocumentSync::Options(v) } }
impl From<TextDocumentSyncKind> for TextDocumentSync { fn from(v: TextDocumentSyncKind) -> Self { TextDocumentSync::Kind(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct HoverOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum HoverProvider {
    Bool(bool),
    HoverOptions(HoverOptions),
}
impl Default for HoverProvider { fn default() -> Self { HoverProvider::Bool(Default::default()) } }
impl From<bool> for HoverProvider { fn from(v: bool) -> Self { HoverProvider::Bool(v) } }
impl From<HoverOptions> for HoverProvider { fn from(v: HoverOptions) -> Self { HoverProvider::HoverOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ServerCompletionItemOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "labelDetailsSupport")]
    pub label_details_support: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CompletionOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "triggerCharacters")]
    pub trigger_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "allCommitCharacters")]
    pub all_commit_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resolveProvider")]
    pub resolve_provider: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "completionItem")]
    pub completion_item: Option<ServerCompletionItemOptions>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SignatureHelpOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "triggerCharacters")]
    pub trigger_characters: Option<Vec<String>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "retriggerCharacters")]
    pub retrigger_characters: Option<Vec<String>>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DefinitionOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DefinitionProvider {
    Bool(bool),
    DefinitionOptions(DefinitionOptions),
}
impl Default for DefinitionProvider { fn default() -> Self { DefinitionProvider::Bool(Default::default()) } }
impl From<bool> for DefinitionProvider { fn from(v: bool) -> Self { DefinitionProvider::Bool(v) } }
impl From<DefinitionOptions> for DefinitionProvider { fn from(v: DefinitionOptions) -> Self { DefinitionProvider::DefinitionOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ReferenceOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ReferencesProvider {
    Bool(bool),
    ReferenceOptions(ReferenceOptions),
}
impl Default for ReferencesProvider { fn default() -> Self { ReferencesProvider::Bool(Default::default()) } }
impl From<bool> for ReferencesProvider { fn from(v: bool) -> Self { ReferencesProvider::Bool(v) } }
impl From<ReferenceOptions> for ReferencesProvider { fn from(v: ReferenceOptions) -> Self { ReferencesProvider::ReferenceOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentHighlightOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentHighlightProvider {
    Bool(bool),
    DocumentHighlightOptions(DocumentHighlightOptions),
}
impl Default for DocumentHighlightProvider { fn default() -> Self { DocumentHighlightProvider::Bool(Default::default()) } }
impl From<bool> for DocumentHighlightProvider { fn from(v: bool) -> Self { DocumentHighlightProvider::Bool(v) } }
impl From<DocumentHighlightOptions> for DocumentHighlightProvider { fn from(v: DocumentHighlightOptions) -> Self { DocumentHighlightProvider::DocumentHighlightOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentSymbolOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub label: Option<String>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentSymbolProvider {
    Bool(bool),
    DocumentSymbolOptions(DocumentSymbolOptions),
}
impl Default for DocumentSymbolProvider { fn default() -> Self { DocumentSymbolProvider::Bool(Default::default()) } }
impl From<bool> for DocumentSymbolProvider { fn from(v: bool) -> Self { DocumentSymbolProvider::Bool(v) } }
impl From<DocumentSymbolOptions> for DocumentSymbolProvider { fn from(v: DocumentSymbolOptions) -> Self { DocumentSymbolProvider::DocumentSymbolOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceSymbolOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resolveProvider")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum WorkspaceSymbolProvider {
    Bool(bool),
    WorkspaceSymbolOptions(WorkspaceSymbolOptions),
}
impl Default for WorkspaceSymbolProvider { fn default() -> Self { WorkspaceSymbolProvider::Bool(Default::default()) } }
impl From<bool> for WorkspaceSymbolProvider { fn from(v: bool) -> Self { WorkspaceSymbolProvider::Bool(v) } }
impl From<WorkspaceSymbolOptions> for WorkspaceSymbolProvider { fn from(v: WorkspaceSymbolOptions) -> Self { WorkspaceSymbolProvider::WorkspaceSymbolOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeActionOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "codeActionKinds")]
    pub code_action_kinds: Option<Vec<CodeActionKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub documentation: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resolveProvider")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum CodeActionProvider {
    Bool(bool),
    CodeActionOptions(CodeActionOptions),
}
impl Default for CodeActionProvider { fn default() -> Self { CodeActionProvider::Bool(Default::default()) } }
impl From<bool> for CodeActionProvider { fn from(v: bool) -> Self { CodeActionProvider::Bool(v) } }
impl From<CodeActionOptions> for CodeActionProvider { fn from(v: CodeActionOptions) -> Self { CodeActionProvider::CodeActionOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeLensOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resolveProvider")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentFormattingOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DocumentFormattingProvider {
    Bool(bool),
    DocumentFormattingOptions(DocumentFormattingOptions),
}
impl Default for DocumentFormattingProvider { fn default() -> Self { DocumentFormattingProvider::Bool(Default::default()) } }
impl From<bool> for DocumentFormattingProvider { fn from(v: bool) -> Self { DocumentFormattingProvider::Bool(v) } }
impl From<DocumentFormattingOptions> for DocumentFormattingProvider { fn from(v: DocumentFormattingOptions) -> Self { DocumentFormattingProvider::DocumentFormattingOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SelectionRangeOptions {
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SelectionRangeProvider {
    Bool(bool),
    SelectionRangeOptions(SelectionRangeOptions),
}
impl Default for SelectionRangeProvider { fn default() -> Self { SelectionRangeProvider::Bool(Default::default()) } }
impl From<bool> for SelectionRangeProvider { fn from(v: bool) -> Self { SelectionRangeProvider::Bool(v) } }
impl From<SelectionRangeOptions> for SelectionRangeProvider { fn from(v: SelectionRangeOptions) -> Self { SelectionRangeProvider::SelectionRangeOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct RenameOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "prepareProvider")]
    pub prepare_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum RenameProvider {
    Bool(bool),
    RenameOptions(RenameOptions),
}
impl Default for RenameProvider { fn default() -> Self { RenameProvider::Bool(Default::default()) } }
impl From<bool> for RenameProvider { fn from(v: bool) -> Self { RenameProvider::Bool(v) } }
impl From<RenameOptions> for RenameProvider { fn from(v: RenameOptions) -> Self { RenameProvider::RenameOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Full {
    Bool(bool),
    SemanticTokensFullDelta(SemanticTokensFullDelta),
}
impl Default for Full { fn default() -> Self { Full::Bool(Default::default()) } }
impl From<bool> for Full { fn from(v: bool) -> Self { Full::Bool(v) } }
impl From<SemanticTokensFullDelta> for Full { fn from(v: SemanticTokensFullDelta) -> Self { Full::SemanticTokensFullDelta(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SemanticTokensFullDelta {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub delta: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SemanticTokensOptions {
    pub legend: SemanticTokensLegend,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub range: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub full: Option<Full>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum SemanticTokensProvider {
    SemanticTokensOptions(SemanticTokensOptions),
}
impl Default for SemanticTokensProvider { fn default() -> Self { SemanticTokensProvider::SemanticTokensOptions(Default::default()) } }
impl From<SemanticTokensOptions> for SemanticTokensProvider { fn from(v: SemanticTokensOptions) -> Self { SemanticTokensProvider::SemanticTokensOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InlayHintOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resolveProvider")]
    pub resolve_provider: Option<bool>,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum InlayHintProvider {
    Bool(bool),
    InlayHintOptions(InlayHintOptions),
}
impl Default for InlayHintProvider { fn default() -> Self { InlayHintProvider::Bool(Default::default()) } }
impl From<bool> for InlayHintProvider { fn from(v: bool) -> Self { InlayHintProvider::Bool(v) } }
impl From<InlayHintOptions> for InlayHintProvider { fn from(v: InlayHintOptions) -> Self { InlayHintProvider::InlayHintOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DiagnosticOptions {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub identifier: Option<String>,
    #[serde(rename = "interFileDependencies")]
    pub inter_file_dependencies: bool,
    #[serde(rename = "workspaceDiagnostics")]
    pub workspace_diagnostics: bool,
    #[serde(flatten)]
    pub work_done_progress_options: WorkDoneProgressOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum DiagnosticProvider {
    DiagnosticOptions(DiagnosticOptions),
}
impl Default for DiagnosticProvider { fn default() -> Self { DiagnosticProvider::DiagnosticOptions(Default::default()) } }
impl From<DiagnosticOptions> for DiagnosticProvider { fn from(v: DiagnosticOptions) -> Self { DiagnosticProvider::DiagnosticOptions(v) } }
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ServerCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "positionEncoding")]
    pub position_encoding: Option<PositionEncodingKind>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "textDocumentSync")]
    pub text_document_sync: Option<TextDocumentSync>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "completionProvider")]
    pub completion_provider: Option<CompletionOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "hoverProvider")]
    pub hover_provider: Option<HoverProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "signatureHelpProvider")]
    pub signature_help_provider: Option<SignatureHelpOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "definitionProvider")]
    pub definition_provider: Option<DefinitionProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "referencesProvider")]
    pub references_provider: Option<ReferencesProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentHighlightProvider")]
    pub document_highlight_provider: Option<DocumentHighlightProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentSymbolProvider")]
    pub document_symbol_provider: Option<DocumentSymbolProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "codeActionProvider")]
    pub code_action_provider: Option<CodeActionProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "codeLensProvider")]
    pub code_lens_provider: Option<CodeLensOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "workspaceSymbolProvider")]
    pub workspace_symbol_provider: Option<WorkspaceSymbolProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentFormattingProvider")]
    pub document_formatting_provider: Option<DocumentFormattingProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "renameProvider")]
    pub rename_provider: Option<RenameProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "selectionRangeProvider")]
    pub selection_range_provider: Option<SelectionRangeProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "executeCommandProvider")]
    pub execute_command_provider: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "semanticTokensProvider")]
    pub semantic_tokens_provider: Option<SemanticTokensProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "inlayHintProvider")]
    pub inlay_hint_provider: Option<InlayHintProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "diagnosticProvider")]
    pub diagnostic_provider: Option<DiagnosticProvider>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub experimental: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ServerInfo {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InitializeResult {
    pub capabilities: ServerCapabilities,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "serverInfo")]
    pub server_info: Option<ServerInfo>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ClientInfo {
    pub name: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub version: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InitializeParams {
    #[serde(rename = "processId")]
    pub process_id: Option<i32>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "clientInfo")]
    pub client_info: Option<ClientInfo>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub locale: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "rootPath")]
    pub root_path: Option<String>,
    #[serde(rename = "rootUri")]
    pub root_uri: Option<Uri>,
    pub capabilities: ClientCapabilities,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "initializationOptions")]
    pub initialization_options: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub trace: Option<LspAny>,
    #[serde(flatten)]
    pub workspace_folders_initialize_params: WorkspaceFoldersInitializeParams,
    #[serde(flatten)]
    pub work_done_progress_params: WorkDoneProgressParams,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceFoldersInitializeParams {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "workspaceFolders")]
    pub workspace_folders: Option<WorkspaceFolders>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InitializedParams {
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub workspace: Option<WorkspaceClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "textDocument")]
    pub text_document: Option<TextDocumentClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub window: Option<WindowClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub general: Option<GeneralClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub experimental: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct GeneralClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "positionEncodings")]
    pub position_encodings: Option<Vec<PositionEncodingKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub markdown: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "regularExpressions")]
    pub regular_expressions: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "staleRequestSupport")]
    pub stale_request_support: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WindowClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "workDoneProgress")]
    pub work_done_progress: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "showMessage")]
    pub show_message: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "showDocument")]
    pub show_document: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceEditClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentChanges")]
    pub document_changes: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resourceOperations")]
    pub resource_operations: Option<Vec<ResourceOperationKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "failureHandling")]
    pub failure_handling: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "normalizesLineEndings")]
    pub normalizes_line_endings: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "changeAnnotationSupport")]
    pub change_annotation_support: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash)]
pub struct DynRefresh {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "refreshSupport")]
    pub refresh_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
}
pub type SemanticTokensWorkspaceClientCapabilities = DynRefresh;
pub type CodeLensWorkspaceClientCapabilities = DynRefresh;
pub type InlayHintWorkspaceClientCapabilities = DynRefresh;
pub type DiagnosticWorkspaceClientCapabilities = DynRefresh;
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash)]
pub struct DidChangeWatchedFilesClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "relativePatternSupport")]
    pub relative_pattern_support: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash)]
pub struct FileOperationClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "didCreate")]
    pub did_create: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "willCreate")]
    pub will_create: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "didRename")]
    pub did_rename: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "willRename")]
    pub will_rename: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "didDelete")]
    pub did_delete: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "willDelete")]
    pub will_delete: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkspaceClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "applyEdit")]
    pub apply_edit: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "workspaceEdit")]
    pub workspace_edit: Option<WorkspaceEditClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "didChangeConfiguration")]
    pub did_change_configuration: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "didChangeWatchedFiles")]
    pub did_change_watched_files: Option<DidChangeWatchedFilesClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub symbol: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "executeCommand")]
    pub execute_command: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "workspaceFolders")]
    pub workspace_folders: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub configuration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "semanticTokens")]
    pub semantic_tokens: Option<DynRefresh>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "codeLens")]
    pub code_lens: Option<DynRefresh>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "fileOperations")]
    pub file_operations: Option<FileOperationClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "inlineValue")]
    pub inline_value: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "inlayHint")]
    pub inlay_hint: Option<DynRefresh>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostics: Option<DynRefresh>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ResolveSupport {
    pub properties: Vec<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash)]
pub struct TextDocumentSyncClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "willSave")]
    pub will_save: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "willSaveWaitUntil")]
    pub will_save_wait_until: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "didSave")]
    pub did_save: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ClientCompletionItemOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "snippetSupport")]
    pub snippet_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "commitCharactersSupport")]
    pub commit_characters_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentationFormat")]
    pub documentation_format: Option<Vec<MarkupKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "deprecatedSupport")]
    pub deprecated_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "preselectSupport")]
    pub preselect_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "tagSupport")]
    pub tag_support: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "insertReplaceSupport")]
    pub insert_replace_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resolveSupport")]
    pub resolve_support: Option<ResolveSupport>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "insertTextModeSupport")]
    pub insert_text_mode_support: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "labelDetailsSupport")]
    pub label_details_support: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CompletionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "completionItem")]
    pub completion_item: Option<ClientCompletionItemOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "completionItemKind")]
    pub completion_item_kind: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "insertTextMode")]
    pub insert_text_mode: Option<InsertTextMode>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "contextSupport")]
    pub context_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "completionList")]
    pub completion_list: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash)]
pub struct ClientSignatureParameterInformationOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "labelOffsetSupport")]
    pub label_offset_support: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ClientSignatureInformationOptions {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentationFormat")]
    pub documentation_format: Option<Vec<MarkupKind>>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "parameterInformation")]
    pub parameter_information: Option<ClientSignatureParameterInformationOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "activeParameterSupport")]
    pub active_parameter_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "noActiveParameterSupport")]
    pub no_active_parameter_support: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct SignatureHelpClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "signatureInformation")]
    pub signature_information: Option<ClientSignatureInformationOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "contextSupport")]
    pub context_support: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default, Copy, Hash)]
pub struct DefinitionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "linkSupport")]
    pub link_support: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DocumentSymbolClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "symbolKind")]
    pub symbol_kind: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "hierarchicalDocumentSymbolSupport")]
    pub hierarchical_document_symbol_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "tagSupport")]
    pub tag_support: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "labelSupport")]
    pub label_support: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ClientCodeActionKindOptions {
    #[serde(rename = "valueSet")]
    pub value_set: Vec<CodeActionKind>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ClientCodeActionLiteralOptions {
    #[serde(rename = "codeActionKind")]
    pub code_action_kind: ClientCodeActionKindOptions,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct CodeActionClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "codeActionLiteralSupport")]
    pub code_action_literal_support: Option<ClientCodeActionLiteralOptions>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "isPreferredSupport")]
    pub is_preferred_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "disabledSupport")]
    pub disabled_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dataSupport")]
    pub data_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resolveSupport")]
    pub resolve_support: Option<ResolveSupport>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "honorsChangeAnnotations")]
    pub honors_change_annotations: Option<bool>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct ClientInlayHintResolveOptions {
    pub properties: Vec<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct InlayHintClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "resolveSupport")]
    pub resolve_support: Option<ClientInlayHintResolveOptions>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct HoverClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "contentFormat")]
    pub content_format: Option<Vec<MarkupKind>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct DiagnosticClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "dynamicRegistration")]
    pub dynamic_registration: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "relatedDocumentSupport")]
    pub related_document_support: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "relatedInformation")]
    pub related_information: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "tagSupport")]
    pub tag_support: Option<LspAny>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct TextDocumentClientCapabilities {
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub synchronization: Option<TextDocumentSyncClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub completion: Option<CompletionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub hover: Option<HoverClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "signatureHelp")]
    pub signature_help: Option<SignatureHelpClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub definition: Option<DefinitionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub references: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentHighlight")]
    pub document_highlight: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "documentSymbol")]
    pub document_symbol: Option<DocumentSymbolClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "codeAction")]
    pub code_action: Option<CodeActionClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "codeLens")]
    pub code_lens: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub formatting: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rename: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "selectionRange")]
    pub selection_range: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "publishDiagnostics")]
    pub publish_diagnostics: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "semanticTokens")]
    pub semantic_tokens: Option<LspAny>,
    #[serde(default, skip_serializing_if = "Option::is_none", rename = "inlayHint")]
    pub inlay_hint: Option<InlayHintClientCapabilities>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub diagnostic: Option<DiagnosticClientCapabilities>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize, Default)]
pub struct WorkDoneProgressBeginInner {
    pub title: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cancellable: Option<bool>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub message: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub percentage: Option<u32>,
}
#[derive(Debug, Clone, Copy)]
pub enum InitializeRequest {}
impl Request for InitializeRequest { type Params = InitializeParams; type Result = InitializeResult; const METHOD: LspRequestMethod = LspRequestMethod::new("initialize"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum ShutdownRequest {}
impl Request for ShutdownRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("shutdown"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum CompletionRequest {}
impl Request for CompletionRequest { type Params = CompletionParams; type Result = Option<CompletionResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/completion"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum CompletionResolveRequest {}
impl Request for CompletionResolveRequest { type Params = CompletionItem; type Result = CompletionItem; const METHOD: LspRequestMethod = LspRequestMethod::new("completionItem/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum HoverRequest {}
impl Request for HoverRequest { type Params = HoverParams; type Result = Option<Hover>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/hover"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum SignatureHelpRequest {}
impl Request for SignatureHelpRequest { type Params = SignatureHelpParams; type Result = Option<SignatureHelp>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/signatureHelp"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DefinitionRequest {}
impl Request for DefinitionRequest { type Params = DefinitionParams; type Result = Option<DefinitionResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/definition"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum ReferencesRequest {}
impl Request for ReferencesRequest { type Params = ReferenceParams; type Result = Option<Vec<Location>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/references"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DocumentHighlightRequest {}
impl Request for DocumentHighlightRequest { type Params = DocumentHighlightParams; type Result = Option<Vec<DocumentHighlight>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/documentHighlight"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DocumentSymbolRequest {}
impl Request for DocumentSymbolRequest { type Params = DocumentSymbolParams; type Result = Option<DocumentSymbolResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/documentSymbol"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum WorkspaceSymbolRequest {}
impl Request for WorkspaceSymbolRequest { type Params = WorkspaceSymbolParams; type Result = Option<WorkspaceSymbolResponse>; const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/symbol"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum CodeActionRequest {}
impl Request for CodeActionRequest { type Params = CodeActionParams; type Result = Option<Vec<CodeActionResponse>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/codeAction"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum CodeActionResolveRequest {}
impl Request for CodeActionResolveRequest { type Params = CodeAction; type Result = CodeAction; const METHOD: LspRequestMethod = LspRequestMethod::new("codeAction/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum CodeLensRequest {}
impl Request for CodeLensRequest { type Params = CodeLensParams; type Result = Option<Vec<CodeLens>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/codeLens"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum CodeLensResolveRequest {}
impl Request for CodeLensResolveRequest { type Params = CodeLens; type Result = CodeLens; const METHOD: LspRequestMethod = LspRequestMethod::new("codeLens/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DocumentFormattingRequest {}
impl Request for DocumentFormattingRequest { type Params = DocumentFormattingParams; type Result = Option<Vec<TextEdit>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/formatting"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum RenameRequest {}
impl Request for RenameRequest { type Params = RenameParams; type Result = Option<WorkspaceEdit>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/rename"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum PrepareRenameRequest {}
impl Request for PrepareRenameRequest { type Params = PrepareRenameParams; type Result = Option<PrepareRenameResult>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/prepareRename"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum SelectionRangeRequest {}
impl Request for SelectionRangeRequest { type Params = SelectionRangeParams; type Result = Option<Vec<SelectionRange>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/selectionRange"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum SemanticTokensRequest {}
impl Request for SemanticTokensRequest { type Params = SemanticTokensParams; type Result = Option<SemanticTokens>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/semanticTokens/full"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum SemanticTokensRangeRequest {}
impl Request for SemanticTokensRangeRequest { type Params = SemanticTokensRangeParams; type Result = Option<SemanticTokens>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/semanticTokens/range"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum SemanticTokensRefreshRequest {}
impl Request for SemanticTokensRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/semanticTokens/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum CodeLensRefreshRequest {}
impl Request for CodeLensRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/codeLens/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum InlayHintRefreshRequest {}
impl Request for InlayHintRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/inlayHint/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum DiagnosticRefreshRequest {}
impl Request for DiagnosticRefreshRequest { type Params = (); type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/diagnostic/refresh"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum InlayHintRequest {}
impl Request for InlayHintRequest { type Params = InlayHintParams; type Result = Option<Vec<InlayHint>>; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/inlayHint"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum InlayHintResolveRequest {}
impl Request for InlayHintResolveRequest { type Params = InlayHint; type Result = InlayHint; const METHOD: LspRequestMethod = LspRequestMethod::new("inlayHint/resolve"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DocumentDiagnosticRequest {}
impl Request for DocumentDiagnosticRequest { type Params = DocumentDiagnosticParams; type Result = DocumentDiagnosticReport; const METHOD: LspRequestMethod = LspRequestMethod::new("textDocument/diagnostic"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum ShowMessageRequest {}
impl Request for ShowMessageRequest { type Params = ShowMessageRequestParams; type Result = Option<MessageActionItem>; const METHOD: LspRequestMethod = LspRequestMethod::new("window/showMessageRequest"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum WorkDoneProgressCreateRequest {}
impl Request for WorkDoneProgressCreateRequest { type Params = WorkDoneProgressCreateParams; type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("window/workDoneProgress/create"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum RegistrationRequest {}
impl Request for RegistrationRequest { type Params = RegistrationParams; type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("client/registerCapability"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum UnregistrationRequest {}
impl Request for UnregistrationRequest { type Params = UnregistrationParams; type Result = (); const METHOD: LspRequestMethod = LspRequestMethod::new("client/unregisterCapability"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum ConfigurationRequest {}
impl Request for ConfigurationRequest { type Params = ConfigurationParams; type Result = Vec<LspAny>; const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/configuration"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum WorkspaceFoldersRequest {}
impl Request for WorkspaceFoldersRequest { type Params = (); type Result = Option<Vec<WorkspaceFolder>>; const METHOD: LspRequestMethod = LspRequestMethod::new("workspace/workspaceFolders"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum InitializedNotification {}
impl Notification for InitializedNotification { type Params = InitializedParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("initialized"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum ExitNotification {}
impl Notification for ExitNotification { type Params = (); const METHOD: LspNotificationMethod = LspNotificationMethod::new("exit"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum CancelNotification {}
impl Notification for CancelNotification { type Params = CancelParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("$/cancelRequest"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::Both; }
#[derive(Debug, Clone, Copy)]
pub enum ProgressNotification {}
impl Notification for ProgressNotification { type Params = ProgressParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("$/progress"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::Both; }
#[derive(Debug, Clone, Copy)]
pub enum DidOpenTextDocumentNotification {}
impl Notification for DidOpenTextDocumentNotification { type Params = DidOpenTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didOpen"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DidChangeTextDocumentNotification {}
impl Notification for DidChangeTextDocumentNotification { type Params = DidChangeTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didChange"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DidCloseTextDocumentNotification {}
impl Notification for DidCloseTextDocumentNotification { type Params = DidCloseTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didClose"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DidSaveTextDocumentNotification {}
impl Notification for DidSaveTextDocumentNotification { type Params = DidSaveTextDocumentParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/didSave"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DidChangeConfigurationNotification {}
impl Notification for DidChangeConfigurationNotification { type Params = DidChangeConfigurationParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeConfiguration"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DidChangeWorkspaceFoldersNotification {}
impl Notification for DidChangeWorkspaceFoldersNotification { type Params = DidChangeWorkspaceFoldersParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeWorkspaceFolders"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum DidChangeWatchedFilesNotification {}
impl Notification for DidChangeWatchedFilesNotification { type Params = DidChangeWatchedFilesParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("workspace/didChangeWatchedFiles"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum WorkDoneProgressCancelNotification {}
impl Notification for WorkDoneProgressCancelNotification { type Params = WorkDoneProgressCancelParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/workDoneProgress/cancel"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ClientToServer; }
#[derive(Debug, Clone, Copy)]
pub enum ShowMessageNotification {}
impl Notification for ShowMessageNotification { type Params = ShowMessageParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/showMessage"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum LogMessageNotification {}
impl Notification for LogMessageNotification { type Params = LogMessageParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("window/logMessage"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }
#[derive(Debug, Clone, Copy)]
pub enum PublishDiagnosticsNotification {}
impl Notification for PublishDiagnosticsNotification { type Params = PublishDiagnosticsParams; const METHOD: LspNotificationMethod = LspNotificationMethod::new("textDocument/publishDiagnostics"); const MESSAGE_DIRECTION: MessageDirection = MessageDirection::ServerToClient; }

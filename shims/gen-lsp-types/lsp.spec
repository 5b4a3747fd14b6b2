alias LspAny = serde_json::Value
struct:copy,ord,new Position = line: u32; character: u32
struct:copy,ord,new Range = start: Position; end: Position
struct:hash,new Location = uri: Uri; range: Range
struct LocationLink = origin_selection_range?: Range; target_uri: Uri; target_range: Range; target_selection_range: Range
struct:new TextEdit = range: Range; new_text: String
struct AnnotatedTextEdit = @text_edit: TextEdit; annotation_id: String
struct SnippetTextEdit = range: Range; snippet: LspAny; annotation_id?: String
struct:hash,new TextDocumentIdentifier = uri: Uri
struct:hash,new VersionedTextDocumentIdentifier = @text_document_identifier: TextDocumentIdentifier; version: i32
struct OptionalVersionedTextDocumentIdentifier = @text_document_identifier: TextDocumentIdentifier; version: Option<i32>
struct:new TextDocumentItem = uri: Uri; language_id: LanguageKind; version: i32; text: String
struct:new TextDocumentPositionParams = text_document: TextDocumentIdentifier; position: Position
union Id = Int i32 | String String
union ProgressToken = Int i32 | String String
struct CancelParams = id: Id
struct ProgressParams = token: ProgressToken; value: LspAny
struct WorkDoneProgressParams = work_done_token?: ProgressToken
struct PartialResultParams = partial_result_token?: ProgressToken
struct WorkDoneProgressOptions = work_done_progress?: bool
struct WorkDoneProgressCreateParams = token: ProgressToken
struct WorkDoneProgressCancelParams = token: ProgressToken
str LanguageKind = Move Rust Json Markdown Plaintext
cstr MarkupKind = PlainText:plaintext Markdown:markdown
struct MarkupContent = kind: MarkupKind; value: String
union MarkedString = String String | MarkedStringWithLanguage
struct MarkedStringWithLanguage = language: String; value: String
struct Command = title: String; tooltip?: String; command: String; arguments?: Vec<LspAny>
// --- text sync
struct DidOpenTextDocumentParams = text_document: TextDocumentItem
struct DidCloseTextDocumentParams = text_document: TextDocumentIdentifier
struct DidSaveTextDocumentParams = text_document: TextDocumentIdentifier; text?: String
struct DidChangeTextDocumentParams = text_document: VersionedTextDocumentIdentifier; content_changes: Vec<TextDocumentContentChangeEvent>
struct TextDocumentContentChangePartial = range: Range; range_length?: u32; text: String
struct TextDocumentContentChangeWholeDocument = text: String
union TextDocumentContentChangeEvent = TextDocumentContentChangePartial | TextDocumentContentChangeWholeDocument
int FileChangeType = Created:1 Changed:2 Deleted:3
struct:new FileEvent = uri: Uri; kind!type: FileChangeType
struct DidChangeWatchedFilesParams = changes: Vec<FileEvent>
struct DidChangeConfigurationParams = settings: LspAny
struct WorkspaceFolder = uri: Uri; name: String
union WorkspaceFolders = WorkspaceFolderList Vec<WorkspaceFolder> | Null ()
struct WorkspaceFoldersChangeEvent = added: Vec<WorkspaceFolder>; removed: Vec<WorkspaceFolder>
struct DidChangeWorkspaceFoldersParams = event: WorkspaceFoldersChangeEvent
struct ConfigurationItem = scope_uri?: Uri; section?: String
struct ConfigurationParams = items: Vec<ConfigurationItem>
// --- registration
struct Registration = id: String; method: String; register_options?: LspAny
struct RegistrationParams = registrations: Vec<Registration>
struct Unregistration = id: String; method: String
struct UnregistrationParams = @unregisterations: UnregInner
struct UnregInner = unregisterations: Vec<Unregistration>
union GlobPattern = Pattern String | RelativePattern
union BaseUri = Uri | WorkspaceFolder
struct RelativePattern = base_uri: BaseUri; pattern: String
struct FileSystemWatcher = glob_pattern: GlobPattern; kind?: u32
struct DidChangeWatchedFilesRegistrationOptions = watchers: Vec<FileSystemWatcher>
union DocumentSelectorItem = TextDocumentFilter LspAny
struct TextDocumentRegistrationOptions = document_selector: Option<Vec<TextDocumentFilter>>
struct TextDocumentFilterLanguage = language: String; scheme?: String; pattern?: GlobPattern
struct TextDocumentFilterPattern = language?: String; scheme?: String; pattern: GlobPattern
struct TextDocumentFilterScheme = language?: String; scheme: String; pattern?: GlobPattern
union TextDocumentFilter = Language TextDocumentFilterLanguage | Pattern TextDocumentFilterPattern | Scheme TextDocumentFilterScheme
struct SaveOptions = include_text?: bool
struct TextDocumentSaveRegistrationOptions = @text_document_registration_options: TextDocumentRegistrationOptions; @save_options: SaveOptions
// --- window
int MessageType = Error:1 Warning:2 Info:3 Log:4 Debug:5
struct ShowMessageParams = kind!type: MessageType; message: String
struct MessageActionItem = title: String
struct ShowMessageRequestParams = kind!type: MessageType; message: String; actions?: Vec<MessageActionItem>
struct LogMessageParams = kind!type: MessageType; message: String
// --- edits
struct CreateFileOptions = overwrite?: bool; ignore_if_exists?: bool
struct RenameFileOptions = overwrite?: bool; ignore_if_exists?: bool
struct DeleteFileOptions = recursive?: bool; ignore_if_not_exists?: bool
struct CreateFile = uri: Uri; options?: CreateFileOptions; annotation_id?: String
struct RenameFile = old_uri: Uri; new_uri: Uri; options?: RenameFileOptions; annotation_id?: String
struct DeleteFile = uri: Uri; options?: DeleteFileOptions; annotation_id?: String
union Edit = AnnotatedTextEdit | TextEdit | SnippetTextEdit
struct TextDocumentEdit = text_document: OptionalVersionedTextDocumentIdentifier; edits: Vec<Edit>
struct ChangeAnnotation = label: String; needs_confirmation?: bool; description?: String
struct WorkspaceEdit = changes?: HashMap<Uri, Vec<TextEdit>>; document_changes?: Vec<DocumentChange>; change_annotations?: HashMap<String, ChangeAnnotation>
cstr ResourceOperationKind = Create Rename Delete
// --- completion
int CompletionItemKind = Text:1 Method:2 Function:3 Constructor:4 Field:5 Variable:6 Class:7 Interface:8 Module:9 Property:10 Unit:11 Value:12 Enum:13 Keyword:14 Snippet:15 Color:16 File:17 Reference:18 Folder:19 EnumMember:20 Constant:21 Struct:22 Event:23 Operator:24 TypeParameter:25
int CompletionItemTag = Deprecated:1
int CompletionTriggerKind = Invoked:1 TriggerCharacter:2 TriggerForIncompleteCompletions:3
int InsertTextFormat = PlainText:1 Snippet:2
int InsertTextMode = AsIs:1 AdjustIndentation:2
struct CompletionContext = trigger_kind: CompletionTriggerKind; trigger_character?: String
struct CompletionParams = @text_document_position_params: TextDocumentPositionParams; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams; context?: CompletionContext
struct CompletionItemLabelDetails = detail?: String; description?: String
struct InsertReplaceEdit = new_text: String; insert: Range; replace: Range
union CompletionItemTextEdit = TextEdit | InsertReplaceEdit
union Documentation = String String | MarkupContent
struct CompletionItem = label: String; label_details?: CompletionItemLabelDetails; kind?: CompletionItemKind; tags?: Vec<CompletionItemTag>; detail?: String; documentation?: Documentation; deprecated?: bool; preselect?: bool; sort_text?: String; filter_text?: String; insert_text?: String; insert_text_format?: InsertTextFormat; insert_text_mode?: InsertTextMode; text_edit?: CompletionItemTextEdit; text_edit_text?: String; additional_text_edits?: Vec<TextEdit>; commit_characters?: Vec<String>; command?: Command; data?: LspAny
struct CompletionList = is_incomplete: bool; item_defaults?: LspAny; apply_kind?: LspAny; items: Vec<CompletionItem>
union CompletionResponse = CompletionItemList Vec<CompletionItem> | CompletionList
// --- hover, signature
union Contents = MarkupContent | MarkedString | MarkedStringList Vec<MarkedString>
struct Hover = contents: Contents; range?: Range
struct HoverParams = @text_document_position_params: TextDocumentPositionParams; @work_done_progress_params: WorkDoneProgressParams
struct SignatureHelpParams = @text_document_position_params: TextDocumentPositionParams; @work_done_progress_params: WorkDoneProgressParams; context?: LspAny
union ParameterInformationLabel = String String | Tuple (u32,u32)
struct ParameterInformation = label: ParameterInformationLabel; documentation?: Documentation
union:copy ActiveParameterInner = Int u32 | Null ()
struct SignatureInformation = label: String; documentation?: Documentation; parameters?: Vec<ParameterInformation>; active_parameter?: ActiveParameter
struct SignatureHelp = signatures: Vec<SignatureInformation>; active_signature?: u32; active_parameter?: ActiveParameter
// --- goto & refs
struct DefinitionParams = @text_document_position_params: TextDocumentPositionParams; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
struct ImplementationParams = @text_document_position_params: TextDocumentPositionParams; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
union Definition = Location | LocationList Vec<Location>
union DefinitionResponse = Definition | DefinitionLinkList Vec<LocationLink>
struct ReferenceContext = include_declaration: bool
struct ReferenceParams = @text_document_position_params: TextDocumentPositionParams; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams; context: ReferenceContext
struct DocumentHighlightParams = @text_document_position_params: TextDocumentPositionParams; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
int DocumentHighlightKind = Text:1 Read:2 Write:3
struct DocumentHighlight = range: Range; kind?: DocumentHighlightKind
// --- symbols
int SymbolKind = File:1 Module:2 Namespace:3 Package:4 Class:5 Method:6 Property:7 Field:8 Constructor:9 Enum:10 Interface:11 Function:12 Variable:13 Constant:14 String:15 Number:16 Boolean:17 Array:18 Object:19 Key:20 Null:21 EnumMember:22 Struct:23 Event:24 Operator:25 TypeParameter:26
int SymbolTag = Deprecated:1
struct DocumentSymbolParams = text_document: TextDocumentIdentifier; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
struct DocumentSymbol = name: String; detail?: String; kind: SymbolKind; tags?: Vec<SymbolTag>; deprecated?: bool; range: Range; selection_range: Range; children?: Vec<DocumentSymbol>
struct BaseSymbolInformation = name: String; kind: SymbolKind; tags?: Vec<SymbolTag>; container_name?: String
struct SymbolInformation = @base_symbol_information: BaseSymbolInformation; deprecated?: bool; location: Location
union DocumentSymbolResponse = SymbolInformationList Vec<SymbolInformation> | DocumentSymbolList Vec<DocumentSymbol>
struct WorkspaceSymbolParams = @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams; query: String
struct LocationUriOnly = uri: Uri
union WorkspaceSymbolLocation = Location | LocationUriOnly
struct WorkspaceSymbol = @base_symbol_information: BaseSymbolInformation; location: WorkspaceSymbolLocation; data?: LspAny
union WorkspaceSymbolResponse = SymbolInformationList Vec<SymbolInformation> | WorkspaceSymbolList Vec<WorkspaceSymbol>
// --- selection
struct SelectionRangeParams = text_document: TextDocumentIdentifier; positions: Vec<Position>; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
struct SelectionRange = range: Range; parent?: Box<SelectionRange>
// --- semantic tokens
struct SemanticTokensParams = text_document: TextDocumentIdentifier; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
struct SemanticTokensRangeParams = text_document: TextDocumentIdentifier; range: Range; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
struct SemanticTokensLegend = token_types: Vec<String>; token_modifiers: Vec<String>
str SemanticTokenTypes = Namespace Type Class Enum Interface Struct TypeParameter Parameter Variable Property EnumMember Event Function Method Macro Keyword Modifier Comment String Number Regexp Operator Decorator Label
struct DocumentFormattingParams = text_document: TextDocumentIdentifier; options: FormattingOptions; @work_done_progress_params: WorkDoneProgressParams
struct FormattingOptions = tab_size: u32; insert_spaces: bool; trim_trailing_whitespace?: bool; insert_final_newline?: bool; trim_final_newlines?: bool
// --- rename
struct RenameParams = @text_document_position_params: TextDocumentPositionParams; new_name: String; @work_done_progress_params: WorkDoneProgressParams
struct PrepareRenameParams = @text_document_position_params: TextDocumentPositionParams; @work_done_progress_params: WorkDoneProgressParams
struct PrepareRenamePlaceholder = range: Range; placeholder: String
struct PrepareRenameDefaultBehavior = default_behavior: bool
union PrepareRenameResult = Range | PrepareRenamePlaceholder | PrepareRenameDefaultBehavior
// --- code actions
str CodeActionKind = Empty:'' QuickFix:quickfix Refactor:refactor RefactorExtract:refactor.extract RefactorInline:refactor.inline RefactorMove:refactor.move RefactorRewrite:refactor.rewrite Source:source SourceOrganizeImports:source.organizeImports SourceFixAll:source.fixAll Notebook:notebook
int CodeActionTriggerKind = Invoked:1 Automatic:2
int CodeActionTag = LlmGenerated:1
int DiagnosticSeverity = Error:1 Warning:2 Information:3 Hint:4
int DiagnosticTag = Unnecessary:1 Deprecated:2
union Code = Int i32 | String String
struct CodeDescription = href: Uri
struct DiagnosticRelatedInformation = location: Location; message: String
struct Diagnostic = range: Range; severity?: DiagnosticSeverity; code?: Code; code_description?: CodeDescription; source?: String; message: String; tags?: Vec<DiagnosticTag>; related_information?: Vec<DiagnosticRelatedInformation>; data?: LspAny
struct CodeActionContext = diagnostics: Vec<Diagnostic>; only?: Vec<CodeActionKind>; trigger_kind?: CodeActionTriggerKind
struct CodeActionParams = text_document: TextDocumentIdentifier; range: Range; context: CodeActionContext; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
struct CodeActionDisabled = reason: String
struct CodeAction = title: String; kind?: CodeActionKind; diagnostics?: Vec<Diagnostic>; is_preferred?: bool; disabled?: CodeActionDisabled; edit?: WorkspaceEdit; command?: Command; data?: LspAny; tags?: Vec<CodeActionTag>
union CodeActionResponse = Command | CodeAction
struct CodeLensParams = text_document: TextDocumentIdentifier; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
struct CodeLens = range: Range; command?: Command; data?: LspAny
// --- diagnostics pull
struct DocumentDiagnosticParams = text_document: TextDocumentIdentifier; identifier?: String; previous_result_id?: String; @work_done_progress_params: WorkDoneProgressParams; @partial_result_params: PartialResultParams
struct FullDocumentDiagnosticReport = result_id?: String; items: Vec<Diagnostic>
struct UnchangedDocumentDiagnosticReport = result_id: String
tagged RelatedDocuments = FullDocumentDiagnosticReport full | UnchangedDocumentDiagnosticReport unchanged
struct RelatedFullDocumentDiagnosticReport = related_documents?: HashMap<Uri, RelatedDocuments>; @full_document_diagnostic_report: FullDocumentDiagnosticReport
struct RelatedUnchangedDocumentDiagnosticReport = related_documents?: HashMap<Uri, RelatedDocuments>; @unchanged_document_diagnostic_report: UnchangedDocumentDiagnosticReport
tagged DocumentDiagnosticReport = RelatedFullDocumentDiagnosticReport full | RelatedUnchangedDocumentDiagnosticReport unchanged
struct DiagnosticServerCancellationData = retrigger_request: bool
struct PublishDiagnosticsParams = uri: Uri; version?: i32; diagnostics: Vec<Diagnostic>
// --- inlay hints
int InlayHintKind = Type:1 Parameter:2
struct InlayHintParams = @work_done_progress_params: WorkDoneProgressParams; text_document: TextDocumentIdentifier; range: Range
union Tooltip = String String | MarkupContent
struct InlayHintLabelPart = value: String; tooltip?: Tooltip; location?: Location; command?: Command
union Label = String String | InlayHintLabelPartList Vec<InlayHintLabelPart>
struct InlayHint = position: Position; label: Label; kind?: InlayHintKind; text_edits?: Vec<TextEdit>; tooltip?: Tooltip; padding_left?: bool; padding_right?: bool; data?: LspAny
// --- capabilities (server)
str PositionEncodingKind = UTF8:utf-8 UTF16:utf-16 UTF32:utf-32
int TextDocumentSyncKind = None:0 Full:1 Incremental:2
struct TextDocumentSyncOptions = open_close?: bool; change?: TextDocumentSyncKind; will_save?: bool; will_save_wait_until?: bool; save?: LspAny
union TextDocumentSync = Options TextDocumentSyncOptions | Kind TextDocumentSyncKind
struct HoverOptions = @work_done_progress_options: WorkDoneProgressOptions
union HoverProvider = Bool bool | HoverOptions
struct ServerCompletionItemOptions = label_details_support?: bool
struct CompletionOptions = trigger_characters?: Vec<String>; all_commit_characters?: Vec<String>; resolve_provider?: bool; completion_item?: ServerCompletionItemOptions; @work_done_progress_options: WorkDoneProgressOptions
struct SignatureHelpOptions = trigger_characters?: Vec<String>; retrigger_characters?: Vec<String>; @work_done_progress_options: WorkDoneProgressOptions
struct DefinitionOptions = @work_done_progress_options: WorkDoneProgressOptions
union DefinitionProvider = Bool bool | DefinitionOptions
struct ReferenceOptions = @work_done_progress_options: WorkDoneProgressOptions
union ReferencesProvider = Bool bool | ReferenceOptions
struct DocumentHighlightOptions = @work_done_progress_options: WorkDoneProgressOptions
union DocumentHighlightProvider = Bool bool | DocumentHighlightOptions
struct DocumentSymbolOptions = label?: String; @work_done_progress_options: WorkDoneProgressOptions
union DocumentSymbolProvider = Bool bool | DocumentSymbolOptions
struct WorkspaceSymbolOptions = resolve_provider?: bool; @work_done_progress_options: WorkDoneProgressOptions
union WorkspaceSymbolProvider = Bool bool | WorkspaceSymbolOptions
struct CodeActionOptions = code_action_kinds?: Vec<CodeActionKind>; documentation?: LspAny; resolve_provider?: bool; @work_done_progress_options: WorkDoneProgressOptions
union CodeActionProvider = Bool bool | CodeActionOptions
struct CodeLensOptions = resolve_provider?: bool; @work_done_progress_options: WorkDoneProgressOptions
struct DocumentFormattingOptions = @work_done_progress_options: WorkDoneProgressOptions
union DocumentFormattingProvider = Bool bool | DocumentFormattingOptions
struct SelectionRangeOptions = @work_done_progress_options: WorkDoneProgressOptions
union SelectionRangeProvider = Bool bool | SelectionRangeOptions
struct RenameOptions = prepare_provider?: bool; @work_done_progress_options: WorkDoneProgressOptions
union RenameProvider = Bool bool | RenameOptions
union Full = Bool bool | SemanticTokensFullDelta
struct SemanticTokensFullDelta = delta?: bool
struct SemanticTokensOptions = legend: SemanticTokensLegend; range?: LspAny; full?: Full; @work_done_progress_options: WorkDoneProgressOptions
union SemanticTokensProvider = SemanticTokensOptions
struct InlayHintOptions = resolve_provider?: bool; @work_done_progress_options: WorkDoneProgressOptions
union InlayHintProvider = Bool bool | InlayHintOptions
struct DiagnosticOptions = identifier?: String; inter_file_dependencies: bool; workspace_diagnostics: bool; @work_done_progress_options: WorkDoneProgressOptions
union DiagnosticProvider = DiagnosticOptions
struct ServerCapabilities = position_encoding?: PositionEncodingKind; text_document_sync?: TextDocumentSync; completion_provider?: CompletionOptions; hover_provider?: HoverProvider; signature_help_provider?: SignatureHelpOptions; definition_provider?: DefinitionProvider; references_provider?: ReferencesProvider; document_highlight_provider?: DocumentHighlightProvider; document_symbol_provider?: DocumentSymbolProvider; code_action_provider?: CodeActionProvider; code_lens_provider?: CodeLensOptions; workspace_symbol_provider?: WorkspaceSymbolProvider; document_formatting_provider?: DocumentFormattingProvider; rename_provider?: RenameProvider; selection_range_provider?: SelectionRangeProvider; execute_command_provider?: LspAny; semantic_tokens_provider?: SemanticTokensProvider; inlay_hint_provider?: InlayHintProvider; diagnostic_provider?: DiagnosticProvider; workspace?: LspAny; experimental?: LspAny
struct ServerInfo = name: String; version?: String
struct InitializeResult = capabilities: ServerCapabilities; server_info?: ServerInfo
// --- capabilities (client)
struct ClientInfo = name: String; version?: String
struct InitializeParams = process_id: Option<i32>; client_info?: ClientInfo; locale?: String; root_path?: String; root_uri: Option<Uri>; capabilities: ClientCapabilities; initialization_options?: LspAny; trace?: LspAny; @workspace_folders_initialize_params: WorkspaceFoldersInitializeParams; @work_done_progress_params: WorkDoneProgressParams
struct WorkspaceFoldersInitializeParams = workspace_folders?: WorkspaceFolders
struct InitializedParams = 
struct ClientCapabilities = workspace?: WorkspaceClientCapabilities; text_document?: TextDocumentClientCapabilities; window?: WindowClientCapabilities; general?: GeneralClientCapabilities; experimental?: LspAny
struct GeneralClientCapabilities = position_encodings?: Vec<PositionEncodingKind>; markdown?: LspAny; regular_expressions?: LspAny; stale_request_support?: LspAny
struct WindowClientCapabilities = work_done_progress?: bool; show_message?: LspAny; show_document?: LspAny
struct WorkspaceEditClientCapabilities = document_changes?: bool; resource_operations?: Vec<ResourceOperationKind>; failure_handling?: LspAny; normalizes_line_endings?: bool; change_annotation_support?: LspAny
struct:copy DynRefresh = refresh_support?: bool; dynamic_registration?: bool
alias SemanticTokensWorkspaceClientCapabilities = DynRefresh
alias CodeLensWorkspaceClientCapabilities = DynRefresh
alias InlayHintWorkspaceClientCapabilities = DynRefresh
alias DiagnosticWorkspaceClientCapabilities = DynRefresh
struct:copy DidChangeWatchedFilesClientCapabilities = dynamic_registration?: bool; relative_pattern_support?: bool
struct:copy FileOperationClientCapabilities = dynamic_registration?: bool; did_create?: bool; will_create?: bool; did_rename?: bool; will_rename?: bool; did_delete?: bool; will_delete?: bool
struct WorkspaceClientCapabilities = apply_edit?: bool; workspace_edit?: WorkspaceEditClientCapabilities; did_change_configuration?: LspAny; did_change_watched_files?: DidChangeWatchedFilesClientCapabilities; symbol?: LspAny; execute_command?: LspAny; workspace_folders?: bool; configuration?: bool; semantic_tokens?: DynRefresh; code_lens?: DynRefresh; file_operations?: FileOperationClientCapabilities; inline_value?: LspAny; inlay_hint?: DynRefresh; diagnostics?: DynRefresh
struct ResolveSupport = properties: Vec<String>
struct:copy TextDocumentSyncClientCapabilities = dynamic_registration?: bool; will_save?: bool; will_save_wait_until?: bool; did_save?: bool
struct ClientCompletionItemOptions = snippet_support?: bool; commit_characters_support?: bool; documentation_format?: Vec<MarkupKind>; deprecated_support?: bool; preselect_support?: bool; tag_support?: LspAny; insert_replace_support?: bool; resolve_support?: ResolveSupport; insert_text_mode_support?: LspAny; label_details_support?: bool
struct CompletionClientCapabilities = dynamic_registration?: bool; completion_item?: ClientCompletionItemOptions; completion_item_kind?: LspAny; insert_text_mode?: InsertTextMode; context_support?: bool; completion_list?: LspAny
struct:copy ClientSignatureParameterInformationOptions = label_offset_support?: bool
struct ClientSignatureInformationOptions = documentation_format?: Vec<MarkupKind>; parameter_information?: ClientSignatureParameterInformationOptions; active_parameter_support?: bool; no_active_parameter_support?: bool
struct SignatureHelpClientCapabilities = dynamic_registration?: bool; signature_information?: ClientSignatureInformationOptions; context_support?: bool
struct:copy DefinitionClientCapabilities = dynamic_registration?: bool; link_support?: bool
struct DocumentSymbolClientCapabilities = dynamic_registration?: bool; symbol_kind?: LspAny; hierarchical_document_symbol_support?: bool; tag_support?: LspAny; label_support?: bool
struct ClientCodeActionKindOptions = value_set: Vec<CodeActionKind>
struct ClientCodeActionLiteralOptions = code_action_kind: ClientCodeActionKindOptions
struct CodeActionClientCapabilities = dynamic_registration?: bool; code_action_literal_support?: ClientCodeActionLiteralOptions; is_preferred_support?: bool; disabled_support?: bool; data_support?: bool; resolve_support?: ResolveSupport; honors_change_annotations?: bool
struct ClientInlayHintResolveOptions = properties: Vec<String>
struct InlayHintClientCapabilities = dynamic_registration?: bool; resolve_support?: ClientInlayHintResolveOptions
struct HoverClientCapabilities = dynamic_registration?: bool; content_format?: Vec<MarkupKind>
struct DiagnosticClientCapabilities = dynamic_registration?: bool; related_document_support?: bool; related_information?: bool; tag_support?: LspAny
struct TextDocumentClientCapabilities = synchronization?: TextDocumentSyncClientCapabilities; completion?: CompletionClientCapabilities; hover?: HoverClientCapabilities; signature_help?: SignatureHelpClientCapabilities; definition?: DefinitionClientCapabilities; references?: LspAny; document_highlight?: LspAny; document_symbol?: DocumentSymbolClientCapabilities; code_action?: CodeActionClientCapabilities; code_lens?: LspAny; formatting?: LspAny; rename?: LspAny; selection_range?: LspAny; publish_diagnostics?: LspAny; semantic_tokens?: LspAny; inlay_hint?: InlayHintClientCapabilities; diagnostic?: DiagnosticClientCapabilities
struct WorkDoneProgressBeginInner = title: String; cancellable?: bool; message?: String; percentage?: u32
// --- requests
req InitializeRequest = initialize;c;InitializeParams;InitializeResult
req ShutdownRequest = shutdown;c;();()
req CompletionRequest = textDocument/completion;c;CompletionParams;Option<CompletionResponse>
req CompletionResolveRequest = completionItem/resolve;c;CompletionItem;CompletionItem
req HoverRequest = textDocument/hover;c;HoverParams;Option<Hover>
req SignatureHelpRequest = textDocument/signatureHelp;c;SignatureHelpParams;Option<SignatureHelp>
req DefinitionRequest = textDocument/definition;c;DefinitionParams;Option<DefinitionResponse>
req ReferencesRequest = textDocument/references;c;ReferenceParams;Option<Vec<Location>>
req DocumentHighlightRequest = textDocument/documentHighlight;c;DocumentHighlightParams;Option<Vec<DocumentHighlight>>
req DocumentSymbolRequest = textDocument/documentSymbol;c;DocumentSymbolParams;Option<DocumentSymbolResponse>
req WorkspaceSymbolRequest = workspace/symbol;c;WorkspaceSymbolParams;Option<WorkspaceSymbolResponse>
req CodeActionRequest = textDocument/codeAction;c;CodeActionParams;Option<Vec<CodeActionResponse>>
req CodeActionResolveRequest = codeAction/resolve;c;CodeAction;CodeAction
req CodeLensRequest = textDocument/codeLens;c;CodeLensParams;Option<Vec<CodeLens>>
req CodeLensResolveRequest = codeLens/resolve;c;CodeLens;CodeLens
req DocumentFormattingRequest = textDocument/formatting;c;DocumentFormattingParams;Option<Vec<TextEdit>>
req RenameRequest = textDocument/rename;c;RenameParams;Option<WorkspaceEdit>
req PrepareRenameRequest = textDocument/prepareRename;c;PrepareRenameParams;Option<PrepareRenameResult>
req SelectionRangeRequest = textDocument/selectionRange;c;SelectionRangeParams;Option<Vec<SelectionRange>>
req SemanticTokensRequest = textDocument/semanticTokens/full;c;SemanticTokensParams;Option<SemanticTokens>
req SemanticTokensRangeRequest = textDocument/semanticTokens/range;c;SemanticTokensRangeParams;Option<SemanticTokens>
req SemanticTokensRefreshRequest = workspace/semanticTokens/refresh;s;();()
req CodeLensRefreshRequest = workspace/codeLens/refresh;s;();()
req InlayHintRefreshRequest = workspace/inlayHint/refresh;s;();()
req DiagnosticRefreshRequest = workspace/diagnostic/refresh;s;();()
req InlayHintRequest = textDocument/inlayHint;c;InlayHintParams;Option<Vec<InlayHint>>
req InlayHintResolveRequest = inlayHint/resolve;c;InlayHint;InlayHint
req DocumentDiagnosticRequest = textDocument/diagnostic;c;DocumentDiagnosticParams;DocumentDiagnosticReport
req ShowMessageRequest = window/showMessageRequest;s;ShowMessageRequestParams;Option<MessageActionItem>
req WorkDoneProgressCreateRequest = window/workDoneProgress/create;s;WorkDoneProgressCreateParams;()
req RegistrationRequest = client/registerCapability;s;RegistrationParams;()
req UnregistrationRequest = client/unregisterCapability;s;UnregistrationParams;()
req ConfigurationRequest = workspace/configuration;s;ConfigurationParams;Vec<LspAny>
req WorkspaceFoldersRequest = workspace/workspaceFolders;s;();Option<Vec<WorkspaceFolder>>
// --- notifications
not InitializedNotification = initialized;c;InitializedParams
not ExitNotification = exit;c;()
not CancelNotification = $/cancelRequest;b;CancelParams
not ProgressNotification = $/progress;b;ProgressParams
not DidOpenTextDocumentNotification = textDocument/didOpen;c;DidOpenTextDocumentParams
not DidChangeTextDocumentNotification = textDocument/didChange;c;DidChangeTextDocumentParams
not DidCloseTextDocumentNotification = textDocument/didClose;c;DidCloseTextDocumentParams
not DidSaveTextDocumentNotification = textDocument/didSave;c;DidSaveTextDocumentParams
not DidChangeConfigurationNotification = workspace/didChangeConfiguration;c;DidChangeConfigurationParams
not DidChangeWorkspaceFoldersNotification = workspace/didChangeWorkspaceFolders;c;DidChangeWorkspaceFoldersParams
not DidChangeWatchedFilesNotification = workspace/didChangeWatchedFiles;c;DidChangeWatchedFilesParams
not WorkDoneProgressCancelNotification = window/workDoneProgress/cancel;c;WorkDoneProgressCancelParams
not ShowMessageNotification = window/showMessage;s;ShowMessageParams
not LogMessageNotification = window/logMessage;s;LogMessageParams
not PublishDiagnosticsNotification = textDocument/publishDiagnostics;s;PublishDiagnosticsParams

#!/usr/bin/env python3
# Writes src/gen.rs from the compact description below. `name?` = optional field, `+name` = flattened.
STRUCTS = """
Position line:u32 character:u32 |Copy,Eq,Hash,PartialOrd,Ord
Range start:Position end:Position |Copy,Eq,Hash
Location uri:Uri range:Range |Eq,Hash,ND
LocationLink origin_selection_range?:Range target_uri:Uri target_range:Range target_selection_range:Range |Eq,Hash,ND
TextEdit range:Range new_text:String |Eq,Hash
InsertReplaceEdit new_text:String insert:Range replace:Range |Eq
AnnotatedTextEdit annotation_id:String +text_edit:TextEdit |Eq
SnippetTextEdit range:Range snippet:Value annotation_id?:String
TextDocumentIdentifier uri:Uri |Eq,Hash,ND
VersionedTextDocumentIdentifier version:i32 +text_document_identifier:TextDocumentIdentifier |Eq,Hash,ND
OptionalVersionedTextDocumentIdentifier version!?:i32 +text_document_identifier:TextDocumentIdentifier |Eq,Hash,ND
TextDocumentItem uri:Uri language_id:String version:i32 text:String |Eq,ND
TextDocumentPositionParams text_document:TextDocumentIdentifier position:Position |Eq,Hash,ND
WorkDoneProgressParams work_done_token?:ProgressToken |Eq
PartialResultParams partial_result_token?:ProgressToken |Eq
WorkDoneProgressOptions work_done_progress?:bool |Copy,Eq
TextDocumentContentChangePartial range:Range range_length?:u32 text:String |Eq
TextDocumentContentChangeWholeDocument text:String |Eq
DidOpenTextDocumentParams text_document:TextDocumentItem |Eq,ND
DidChangeTextDocumentParams text_document:VersionedTextDocumentIdentifier content_changes:Vec<TextDocumentContentChangeEvent> |Eq,ND
DidCloseTextDocumentParams text_document:TextDocumentIdentifier |Eq,ND
DidSaveTextDocumentParams text_document:TextDocumentIdentifier text?:String |Eq,ND
DidChangeConfigurationParams settings:Value
FileEvent uri:Uri kind@type:FileChangeType |Eq,ND
DidChangeWatchedFilesParams changes:Vec<FileEvent> |Eq
WorkspaceFolder uri:Uri name:String |Eq,ND
WorkspaceFoldersChangeEvent added:Vec<WorkspaceFolder> removed:Vec<WorkspaceFolder> |Eq
DidChangeWorkspaceFoldersParams event:WorkspaceFoldersChangeEvent |Eq
CancelParams id:Id |Eq,ND
WorkDoneProgressCancelParams token:ProgressToken |Eq,ND
ShowMessageParams kind@type:MessageType message:String |Eq,ND
MessageActionItem title:String |Eq
ShowMessageRequestParams kind@type:MessageType message:String actions?:Vec<MessageActionItem> |Eq,ND
ProgressParams token:ProgressToken value:Value |ND
WorkDoneProgressCreateParams token:ProgressToken |Eq,ND
ConfigurationItem scope_uri?:Uri section?:String |Eq
ConfigurationParams items:Vec<ConfigurationItem> |Eq
Registration id:String method:String register_options?:Value
RegistrationParams registrations:Vec<Registration>
FileSystemWatcher glob_pattern:GlobPattern kind?:u32 |ND
RelativePattern base_uri:BaseUri pattern:String |ND
DidChangeWatchedFilesRegistrationOptions watchers:Vec<FileSystemWatcher>
Command title:String tooltip?:String command:String arguments?:Vec<Value>
CodeLens range:Range command?:Command data?:Value
CodeLensParams +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams text_document:TextDocumentIdentifier |Eq,ND
ImplementationParams +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
DefinitionParams +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
HoverParams +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams |Eq,ND
Hover contents:Contents range?:Range |Eq,ND
MarkupContent kind:MarkupKind value:String |Eq,ND
DocumentHighlightParams +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
DocumentHighlight range:Range kind?:DocumentHighlightKind |Eq
SignatureHelpParams context?:Value +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams |ND
SignatureHelp signatures:Vec<SignatureInformation> active_signature?:u32 active_parameter?:ActiveParameter |Eq
SignatureInformation label:String documentation?:Documentation parameters?:Vec<ParameterInformation> active_parameter?:ActiveParameter |Eq
ParameterInformation label:ParameterInformationLabel documentation?:Documentation |Eq,ND
ReferenceContext include_declaration:bool |Eq
ReferenceParams context:ReferenceContext +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
PrepareRenameParams +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams |Eq,ND
PrepareRenamePlaceholder range:Range placeholder:String |Eq
PrepareRenameDefaultBehavior default_behavior:bool |Eq
RenameParams +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams new_name:String |Eq,ND
CompletionContext trigger_kind:CompletionTriggerKind trigger_character?:String |Eq,ND
CompletionParams context?:CompletionContext +text_document_position_params:TextDocumentPositionParams +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
CompletionItemLabelDetails detail?:String description?:String |Eq
CompletionItem label:String label_details?:CompletionItemLabelDetails kind?:CompletionItemKind tags?:Vec<Value> detail?:String documentation?:Documentation deprecated?:bool preselect?:bool sort_text?:String filter_text?:String insert_text?:String insert_text_format?:InsertTextFormat insert_text_mode?:Value text_edit?:CompletionItemTextEdit text_edit_text?:String additional_text_edits?:Vec<TextEdit> commit_characters?:Vec<String> command?:Command data?:Value
CompletionList is_incomplete:bool item_defaults?:Value apply_kind?:Value items:Vec<CompletionItem>
DocumentSymbolParams +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams text_document:TextDocumentIdentifier |Eq,ND
DocumentSymbol name:String detail?:String kind:SymbolKind tags?:Vec<SymbolTag> deprecated?:bool range:Range selection_range:Range children?:Vec<DocumentSymbol> |Eq,ND
BaseSymbolInformation name:String kind:SymbolKind tags?:Vec<SymbolTag> container_name?:String |Eq,ND
SymbolInformation deprecated?:bool location:Location +base_symbol_information:BaseSymbolInformation |Eq,ND
WorkspaceSymbol location:WorkspaceSymbolLocation data?:Value +base_symbol_information:BaseSymbolInformation |ND
WorkspaceSymbolParams query:String +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq
LocationUriOnly uri:Uri |Eq,ND
SelectionRangeParams text_document:TextDocumentIdentifier positions:Vec<Position> +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
SelectionRange range:Range parent?:Box<SelectionRange> |Eq
FormattingOptions tab_size:u32 insert_spaces:bool trim_trailing_whitespace?:bool insert_final_newline?:bool trim_final_newlines?:bool |Eq
DocumentFormattingParams text_document:TextDocumentIdentifier options:FormattingOptions +work_done_progress_params:WorkDoneProgressParams |Eq,ND
SemanticTokensParams text_document:TextDocumentIdentifier +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
SemanticTokensRangeParams text_document:TextDocumentIdentifier range:Range +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
SemanticToken delta_line:u32 delta_start:u32 length:u32 token_type:u32 token_modifiers_bitset:u32 |Eq,Copy,Hash
SemanticTokens result_id?:String data:Vec<SemanticToken> |Eq
SemanticTokensEdit start:u32 delete_count:u32 data?:Vec<SemanticToken> |Eq
SemanticTokensDelta result_id?:String edits:Vec<SemanticTokensEdit> |Eq
SemanticTokensLegend token_types:Vec<String> token_modifiers:Vec<String> |Eq
SemanticTokensOptions legend:SemanticTokensLegend range?:Value full?:Full +work_done_progress_options:WorkDoneProgressOptions
InlayHintParams text_document:TextDocumentIdentifier range:Range +work_done_progress_params:WorkDoneProgressParams |Eq,ND
InlayHint position:Position label:Label kind?:InlayHintKind text_edits?:Vec<TextEdit> tooltip?:Tooltip padding_left?:bool padding_right?:bool data?:Value |ND
InlayHintLabelPart value:String tooltip?:Tooltip location?:Location command?:Command |ND
InlayHintOptions resolve_provider?:bool +work_done_progress_options:WorkDoneProgressOptions |Eq
DocumentDiagnosticParams text_document:TextDocumentIdentifier identifier?:String previous_result_id?:String +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
FullDocumentDiagnosticReport result_id?:String items:Vec<Diagnostic>
UnchangedDocumentDiagnosticReport result_id:String |Eq
RelatedFullDocumentDiagnosticReport related_documents?:Value +full_document_diagnostic_report:FullDocumentDiagnosticReport
RelatedUnchangedDocumentDiagnosticReport related_documents?:Value +unchanged_document_diagnostic_report:UnchangedDocumentDiagnosticReport
DiagnosticServerCancellationData retrigger_request:bool |Eq
Diagnostic range:Range severity?:DiagnosticSeverity code?:Code code_description?:Value source?:String message:String tags?:Vec<DiagnosticTag> related_information?:Value data?:Value |PEq,Eq
CodeActionContext diagnostics:Vec<Diagnostic> only?:Vec<CodeActionKind> trigger_kind?:u32 |Eq
CodeActionParams text_document:TextDocumentIdentifier range:Range context:CodeActionContext +work_done_progress_params:WorkDoneProgressParams +partial_result_params:PartialResultParams |Eq,ND
CodeAction title:String kind?:CodeActionKind diagnostics?:Vec<Diagnostic> is_preferred?:bool disabled?:Value edit?:WorkspaceEdit command?:Command data?:Value tags?:Vec<Value>
WorkspaceEdit changes?:std::collections::HashMap<Uri,Vec<TextEdit>> document_changes?:Vec<DocumentChange> change_annotations?:Value
TextDocumentEdit text_document:OptionalVersionedTextDocumentIdentifier edits:Vec<Edit> |ND
CreateFile uri:Uri options?:Value annotation_id?:String |ND
RenameFile old_uri:Uri new_uri:Uri options?:Value annotation_id?:String |ND
DeleteFile uri:Uri options?:Value annotation_id?:String |ND
WorkDoneProgressBegin title:String cancellable?:bool message?:String percentage?:u32 |Eq
WorkDoneProgressReport cancellable?:bool message?:String percentage?:u32 |Eq
WorkDoneProgressEnd message?:String |Eq
ClientInfo name:String version?:String |Eq
ServerInfo name:String version?:String |Eq
WorkspaceFoldersInitializeParams workspace_folders?:WorkspaceFolders |Eq
InitializeParams process_id?:i32 client_info?:ClientInfo locale?:String root_path?:String root_uri?:Uri capabilities:ClientCapabilities initialization_options?:Value trace?:Value +workspace_folders_initialize_params:WorkspaceFoldersInitializeParams +work_done_progress_params:WorkDoneProgressParams
InitializeResult capabilities:ServerCapabilities server_info?:ServerInfo
CompletionOptions trigger_characters?:Vec<String> all_commit_characters?:Vec<String> resolve_provider?:bool completion_item?:ServerCompletionItemOptions +work_done_progress_options:WorkDoneProgressOptions |Eq
ServerCompletionItemOptions label_details_support?:bool |Eq
SignatureHelpOptions trigger_characters?:Vec<String> retrigger_characters?:Vec<String> +work_done_progress_options:WorkDoneProgressOptions |Eq
CodeLensOptions resolve_provider?:bool +work_done_progress_options:WorkDoneProgressOptions |Eq
CodeActionOptions code_action_kinds?:Vec<CodeActionKind> documentation?:Value resolve_provider?:bool +work_done_progress_options:WorkDoneProgressOptions
RenameOptions prepare_provider?:bool +work_done_progress_options:WorkDoneProgressOptions |Eq
DiagnosticOptions identifier?:String inter_file_dependencies:bool workspace_diagnostics:bool +work_done_progress_options:WorkDoneProgressOptions |Eq
ServerCapabilities position_encoding?:PositionEncodingKind text_document_sync?:TextDocumentSync hover_provider?:HoverProvider completion_provider?:CompletionOptions signature_help_provider?:SignatureHelpOptions definition_provider?:DefinitionProvider references_provider?:ReferencesProvider document_highlight_provider?:DocumentHighlightProvider document_symbol_provider?:DocumentSymbolProvider workspace_symbol_provider?:WorkspaceSymbolProvider code_action_provider?:CodeActionProvider code_lens_provider?:CodeLensOptions document_formatting_provider?:DocumentFormattingProvider selection_range_provider?:SelectionRangeProvider rename_provider?:RenameProvider semantic_tokens_provider?:SemanticTokensProvider inlay_hint_provider?:InlayHintProvider diagnostic_provider?:DiagnosticProvider experimental?:Value
ClientCapabilities workspace?:WorkspaceClientCapabilities text_document?:TextDocumentClientCapabilities notebook_document?:Value window?:WindowClientCapabilities general?:GeneralClientCapabilities experimental?:Value
GeneralClientCapabilities position_encodings?:Vec<PositionEncodingKind>
WindowClientCapabilities work_done_progress?:bool show_message?:Value
WorkspaceClientCapabilities apply_edit?:bool workspace_edit?:WorkspaceEditClientCapabilities did_change_configuration?:Value did_change_watched_files?:DidChangeWatchedFilesClientCapabilities symbol?:Value semantic_tokens?:RefreshCapability code_lens?:RefreshCapability inlay_hint?:RefreshCapability diagnostics?:RefreshCapability file_operations?:FileOperationClientCapabilities workspace_folders?:bool configuration?:bool
RefreshCapability refresh_support?:bool
FileOperationClientCapabilities will_rename?:bool did_rename?:bool
WorkspaceEditClientCapabilities document_changes?:bool resource_operations?:Vec<ResourceOperationKind> change_annotation_support?:Value
DidChangeWatchedFilesClientCapabilities dynamic_registration?:bool relative_pattern_support?:bool
TextDocumentClientCapabilities synchronization?:TextDocumentSyncClientCapabilities completion?:CompletionClientCapabilities hover?:Value signature_help?:SignatureHelpClientCapabilities definition?:DefinitionClientCapabilities document_symbol?:DocumentSymbolClientCapabilities code_action?:CodeActionClientCapabilities diagnostic?:DiagnosticClientCapabilities inlay_hint?:InlayHintClientCapabilities
TextDocumentSyncClientCapabilities dynamic_registration?:bool did_save?:bool
CompletionClientCapabilities completion_item?:ClientCompletionItemOptions
ClientCompletionItemOptions snippet_support?:bool insert_replace_support?:bool label_details_support?:bool resolve_support?:ResolveSupport
ResolveSupport properties:Vec<String>
SignatureHelpClientCapabilities signature_information?:ClientSignatureInformationOptions
ClientSignatureInformationOptions parameter_information?:ClientSignatureParameterInformationOptions
ClientSignatureParameterInformationOptions label_offset_support?:bool
DefinitionClientCapabilities link_support?:bool |Copy
DocumentSymbolClientCapabilities hierarchical_document_symbol_support?:bool
CodeActionClientCapabilities code_action_literal_support?:Value resolve_support?:ResolveSupport
DiagnosticClientCapabilities dynamic_registration?:bool related_document_support?:bool
InlayHintClientCapabilities resolve_support?:ResolveSupport
"""
# string or number enums: name kind(base) Variant=value
ENUMS = """
FileChangeType n Created=1 Changed=2 Deleted=3
MessageType n Error=1 Warning=2 Info=3 Log=4 Debug=5
DiagnosticSeverity n Error=1 Warning=2 Information=3 Hint=4
DiagnosticTag n Unnecessary=1 Deprecated=2
DocumentHighlightKind n Text=1 Read=2 Write=3
InsertTextFormat n PlainText=1 Snippet=2
CompletionTriggerKind n Invoked=1 TriggerCharacter=2 TriggerForIncompleteCompletions=3
InlayHintKind n Type=1 Parameter=2
SymbolTag n Deprecated=1
TextDocumentSyncKind n None=0 Full=1 Incremental=2
CompletionItemKind n Text=1 Method=2 Function=3 Constructor=4 Field=5 Variable=6 Class=7 Interface=8 Module=9 Property=10 Unit=11 Value=12 Enum=13 Keyword=14 Snippet=15 Color=16 File=17 Reference=18 Folder=19 EnumMember=20 Constant=21 Struct=22 Event=23 Operator=24 TypeParameter=25
SymbolKind n File=1 Module=2 Namespace=3 Package=4 Class=5 Method=6 Property=7 Field=8 Constructor=9 Enum=10 Interface=11 Function=12 Variable=13 Constant=14 String=15 Number=16 Boolean=17 Array=18 Object=19 Key=20 Null=21 EnumMember=22 Struct=23 Event=24 Operator=25 TypeParameter=26
MarkupKind s PlainText=plaintext Markdown=markdown
ResourceOperationKind s Create=create Rename=rename Delete=delete
PositionEncodingKind c UTF8=utf-8 UTF16=utf-16 UTF32=utf-32
CodeActionKind c Empty= QuickFix=quickfix Refactor=refactor RefactorExtract=refactor.extract RefactorInline=refactor.inline RefactorMove=refactor.move RefactorRewrite=refactor.rewrite Source=source SourceOrganizeImports=source.organizeImports SourceFixAll=source.fixAll Notebook=notebook
SemanticTokenTypes c Namespace=namespace Type=type Class=class Enum=enum Interface=interface Struct=struct TypeParameter=typeParameter Parameter=parameter Variable=variable Property=property EnumMember=enumMember Event=event Function=function Method=method Macro=macro Keyword=keyword Modifier=modifier Comment=comment String=string Number=number Regexp=regexp Operator=operator Decorator=decorator Label=label
"""
# untagged unions: Name Variant(Type)... ; `*` = derive From
UNIONS = """
TextDocumentContentChangeEvent TextDocumentContentChangePartial(TextDocumentContentChangePartial) TextDocumentContentChangeWholeDocument(TextDocumentContentChangeWholeDocument) |Eq
Id Int(i32) String(String) |Eq,Hash
ProgressToken Int(i32) String(String) |Eq,Hash
GlobPattern Pattern(String) RelativePattern(RelativePattern)
BaseUri WorkspaceFolder(WorkspaceFolder) Uri(Uri)
Contents MarkupContent(MarkupContent) String(String) |Eq
Documentation String(String) MarkupContent(MarkupContent) |Eq
ActiveParameter Int(u32) Null(()) |Copy,Eq
ParameterInformationLabel String(String) Tuple((u32,u32)) |Eq
PrepareRenameResult PrepareRenamePlaceholder(PrepareRenamePlaceholder) PrepareRenameDefaultBehavior(PrepareRenameDefaultBehavior) Range(Range) |Eq
CompletionItemTextEdit *InsertReplaceEdit(InsertReplaceEdit) *TextEdit(TextEdit) |Eq
CompletionResponse *CompletionItemList(Vec<CompletionItem>) *CompletionList(CompletionList)
DocumentSymbolResponse *SymbolInformationList(Vec<SymbolInformation>) *DocumentSymbolList(Vec<DocumentSymbol>)
WorkspaceSymbolResponse *SymbolInformationList(Vec<SymbolInformation>) *WorkspaceSymbolList(Vec<WorkspaceSymbol>)
WorkspaceSymbolLocation Location(Location) LocationUriOnly(LocationUriOnly) |Eq
Definition *Location(Location) *LocationList(Vec<Location>) |Eq
DefinitionResponse *DefinitionLinkList(Vec<LocationLink>) *Definition(Definition) |Eq
Full Bool(bool) SemanticTokensFullDelta(Value)
Label String(String) InlayHintLabelPartList(Vec<InlayHintLabelPart>)
Tooltip String(String) MarkupContent(MarkupContent) |Eq
Code Int(i32) String(String) |Eq
CodeActionResponse CodeAction(CodeAction) Command(Command)
Edit SnippetTextEdit(SnippetTextEdit) AnnotatedTextEdit(AnnotatedTextEdit) TextEdit(TextEdit)
WorkspaceFolders WorkspaceFolderList(Vec<WorkspaceFolder>) Null(()) |Eq
HoverProvider Bool(bool) Options(Value)
DefinitionProvider Bool(bool) Options(Value)
ReferencesProvider Bool(bool) Options(Value)
DocumentHighlightProvider Bool(bool) Options(Value)
DocumentSymbolProvider Bool(bool) Options(Value)
WorkspaceSymbolProvider Bool(bool) Options(Value)
DocumentFormattingProvider Bool(bool) Options(Value)
SelectionRangeProvider Bool(bool) Options(Value)
CodeActionProvider Bool(bool) CodeActionOptions(CodeActionOptions)
RenameProvider Bool(bool) RenameOptions(RenameOptions)
SemanticTokensProvider *SemanticTokensOptions(SemanticTokensOptions)
InlayHintProvider Bool(bool) InlayHintOptions(InlayHintOptions)
DiagnosticProvider DiagnosticOptions(DiagnosticOptions)
TextDocumentSync Kind(TextDocumentSyncKind) Options(Value)
"""
REQS = """
Shutdown shutdown () ()
SelectionRange textDocument/selectionRange SelectionRangeParams Option<Vec<SelectionRange>>
DocumentFormatting textDocument/formatting DocumentFormattingParams Option<Vec<TextEdit>>
Completion textDocument/completion CompletionParams Option<CompletionResponse>
CompletionResolve completionItem/resolve CompletionItem CompletionItem
SemanticTokens textDocument/semanticTokens/full SemanticTokensParams Option<SemanticTokens>
SemanticTokensRange textDocument/semanticTokens/range SemanticTokensRangeParams Option<SemanticTokens>
SemanticTokensRefresh workspace/semanticTokens/refresh () ()
DocumentDiagnostic textDocument/diagnostic DocumentDiagnosticParams DocumentDiagnosticReport
DocumentSymbol textDocument/documentSymbol DocumentSymbolParams Option<DocumentSymbolResponse>
SignatureHelp textDocument/signatureHelp SignatureHelpParams Option<SignatureHelp>
Hover textDocument/hover HoverParams Option<Hover>
Definition textDocument/definition DefinitionParams Option<DefinitionResponse>
InlayHint textDocument/inlayHint InlayHintParams Option<Vec<InlayHint>>
InlayHintResolve inlayHint/resolve InlayHint InlayHint
InlayHintRefresh workspace/inlayHint/refresh () ()
CodeLens textDocument/codeLens CodeLensParams Option<Vec<CodeLens>>
CodeLensResolve codeLens/resolve CodeLens CodeLens
CodeLensRefresh workspace/codeLens/refresh () ()
PrepareRename textDocument/prepareRename PrepareRenameParams Option<PrepareRenameResult>
Rename textDocument/rename RenameParams Option<WorkspaceEdit>
References textDocument/references ReferenceParams Option<Vec<Location>>
DocumentHighlight textDocument/documentHighlight DocumentHighlightParams Option<Vec<DocumentHighlight>>
WorkspaceSymbol workspace/symbol WorkspaceSymbolParams Option<WorkspaceSymbolResponse>
CodeAction textDocument/codeAction CodeActionParams Option<Vec<CodeActionResponse>>
CodeActionResolve codeAction/resolve CodeAction CodeAction
Configuration workspace/configuration ConfigurationParams Vec<Value>
Registration client/registerCapability RegistrationParams ()
ShowMessage window/showMessageRequest ShowMessageRequestParams Option<MessageActionItem>
WorkDoneProgressCreate window/workDoneProgress/create WorkDoneProgressCreateParams ()
DiagnosticRefresh workspace/diagnostic/refresh () ()
"""
NOTS = """
Exit exit ()
Cancel $/cancelRequest CancelParams
Progress $/progress ProgressParams
WorkDoneProgressCancel window/workDoneProgress/cancel WorkDoneProgressCancelParams
DidOpenTextDocument textDocument/didOpen DidOpenTextDocumentParams
DidChangeTextDocument textDocument/didChange DidChangeTextDocumentParams
DidCloseTextDocument textDocument/didClose DidCloseTextDocumentParams
DidSaveTextDocument textDocument/didSave DidSaveTextDocumentParams
DidChangeConfiguration workspace/didChangeConfiguration DidChangeConfigurationParams
DidChangeWatchedFiles workspace/didChangeWatchedFiles DidChangeWatchedFilesParams
DidChangeWorkspaceFolders workspace/didChangeWorkspaceFolders DidChangeWorkspaceFoldersParams
ShowMessage window/showMessage ShowMessageParams
"""
out = ["// generated by gen.py", "use crate::{DocumentChange, DocumentDiagnosticReport, Uri};", "use serde::{Deserialize, Serialize};", "use serde_json::Value;", ""]
for l in STRUCTS.strip().splitlines():
    body, _, der = l.partition("|")
    der = [d for d in der.strip().split(",") if d]
    nd = "ND" in der
    der = [d for d in der if d not in ("ND", "PEq")]
    name, *fields = body.split()
    d = ["Debug", "Clone", "PartialEq", "Serialize", "Deserialize"] + der + ([] if nd else ["Default"])
    out.append(f"#[derive({', '.join(d)})]\n#[serde(rename_all = \"camelCase\")]\npub struct {name} {{")
    args = []
    for f in fields:
        fn, ty = f.split(":", 1)
        flat = fn.startswith("+")
        fn = fn.lstrip("+")
        ren = None
        if "@" in fn: fn, ren = fn.split("@")
        nullable = fn.endswith("!?")
        opt = fn.endswith("?")
        fn = fn.rstrip("?").rstrip("!")
        if flat: out.append("    #[serde(flatten)]")
        if ren: out.append(f"    #[serde(rename = \"{ren}\")]")
        if opt:
            out.append("    #[serde(default)]" if nullable else "    #[serde(default, skip_serializing_if = \"Option::is_none\")]")
            if ty == "Vec<SemanticToken>": out.append("    #[serde(with = \"crate::flat_tokens_opt\")]")
            ty = f"Option<{ty}>"
        elif ty == "Vec<SemanticToken>": out.append("    #[serde(with = \"crate::flat_tokens\")]")
        out.append(f"    pub {fn}: {ty},")
        args.append((fn, ty))
    out.append("}\n")
    if len(args) <= 4:
        out.append(f"impl {name} {{\n    pub fn new({', '.join(f'{a}: {t}' for a, t in args)}) -> Self {{\n        Self {{ {', '.join(a for a, _ in args)} }}\n    }}\n}}\n")
for l in ENUMS.strip().splitlines():
    name, kind, *vs = l.split()
    vs = [v.split("=", 1) for v in vs]
    vals = {v: (x if kind == "n" else '"%s"' % x) for v, x in vs}
    custom = kind == "c"
    copy = "" if custom else "Copy, "
    out.append(f"#[derive(Debug, Clone, {copy}PartialEq, Eq, Hash, PartialOrd, Ord)]\npub enum {name} {{")
    out += [f"    {v}," for v, _ in vs]
    if custom: out.append("    Custom(String),")
    out.append("}\n")
    if kind == "n":
        out.append(f"impl Serialize for {name} {{\n    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {{\n        s.serialize_u32(match self {{ {', '.join(f'Self::{v} => {x}' for v, x in vals.items())} }})\n    }}\n}}")
        out.append(f"impl<'de> Deserialize<'de> for {name} {{\n    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {{\n        match u32::deserialize(d)? {{ {', '.join(f'{x} => Ok(Self::{v})' for v, x in vals.items())}, x => Err(serde::de::Error::custom(format!(\"invalid value {{x}}\"))) }}\n    }}\n}}")
    else:
        out.append(f"impl {name} {{\n    pub fn as_str(&self) -> &str {{\n        match self {{ {', '.join(f'Self::{v} => {x}' for v, x in vals.items())}{', Self::Custom(s) => s' if custom else ''} }}\n    }}\n}}")
        out.append(f"impl Serialize for {name} {{\n    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {{\n        s.serialize_str(self.as_str())\n    }}\n}}")
        out.append(f"impl std::fmt::Display for {name} {{\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{\n        f.write_str(self.as_str())\n    }}\n}}")
        tail = "_ => Ok(Self::Custom(s))" if custom else 'x => Err(serde::de::Error::custom(format!("invalid value {x}")))'
        out.append(f"impl<'de> Deserialize<'de> for {name} {{\n    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {{\n        let s = String::deserialize(d)?;\n        match s.as_str() {{ {', '.join(f'{x} => Ok(Self::{v})' for v, x in vals.items())}, {tail} }}\n    }}\n}}")
    out.append("")
import re
for l in UNIONS.strip().splitlines():
    body, _, der = l.partition("|")
    der = [d for d in der.strip().split(",") if d]
    name, *vs = body.split()
    out.append(f"#[derive({', '.join(['Debug', 'Clone', 'PartialEq', 'Serialize', 'Deserialize'] + der)})]\n#[serde(untagged)]\npub enum {name} {{")
    for v in vs: out.append(f"    {v.lstrip('*')},")
    out.append("}\n")
    for v in vs:
        if v.startswith("*"):
            m = re.match(r"\*(\w+)\((.*)\)$", v)
            out.append(f"impl From<{m[2]}> for {name} {{\n    fn from(x: {m[2]}) -> Self {{\n        Self::{m[1]}(x)\n    }}\n}}\n")
for l in REQS.strip().splitlines():
    n, m, p, r = l.split()
    out.append(f"#[derive(Debug)]\npub enum {n}Request {{}}\nimpl crate::Request for {n}Request {{\n    type Params = {p};\n    type Result = {r};\n    const METHOD: crate::LspRequestMethod = crate::LspRequestMethod::new(\"{m}\");\n    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;\n}}")
for l in NOTS.strip().splitlines():
    n, m, p = l.split()
    out.append(f"#[derive(Debug)]\npub enum {n}Notification {{}}\nimpl crate::Notification for {n}Notification {{\n    type Params = {p};\n    const METHOD: crate::LspNotificationMethod = crate::LspNotificationMethod::new(\"{m}\");\n    const MESSAGE_DIRECTION: crate::MessageDirection = crate::MessageDirection::Both;\n}}")
open("src/generated.rs", "w").write("\n".join(out) + "\n")

//! Which handler a message reaches and what becomes of its params and result: every method of the
//! protocol (C06) and custom methods in every combination of registrations (C24).

use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response, Result};
use tower_lsp::lsp_types::request::*;
use tower_lsp::lsp_types::*;
use tower_lsp::{ClientSocket, ExitedError, LanguageServer, LspService};

use crate::backend::Task;
use crate::check;
use crate::engine::{pick, step, Group};
use crate::life::request;

/// What the handlers saw, and what the next ones return.
#[derive(Default)]
struct Log {
    hits: Vec<(String, Value)>,
    next: Option<std::result::Result<Value, Error>>,
}

/// Implements every method of the trait; notes the call and returns what it was told to.
#[derive(Clone, Default)]
struct Rec(Arc<Mutex<Log>>);

impl Rec {
    fn hit(&self, handler: &str, params: Value) -> std::result::Result<Value, Error> {
        let mut l = self.0.lock().unwrap();
        l.hits.push((handler.to_string(), params));
        l.next.clone().unwrap_or(Ok(Value::Null))
    }
    fn hits(&self) -> Vec<(String, Value)> {
        std::mem::take(&mut self.0.lock().unwrap().hits)
    }
    fn set(&self, next: std::result::Result<Value, Error>) {
        self.0.lock().unwrap().next = Some(next);
    }
}

/// Implements nothing that is not required.
struct Bare;

#[tower_lsp::async_trait]
impl LanguageServer for Bare {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        Ok(InitializeResult::default())
    }
    async fn shutdown(&self) -> Result<()> {
        Ok(())
    }
}

#[derive(Clone)]
struct Row {
    handler: &'static str,
    method: &'static str,
    request: bool,
    params: Vec<Value>,
    results: Vec<Value>,
    /// What the params or result are once they went through their type.
    parse: fn(&Value) -> Option<Value>,
    result: fn(&Value) -> Option<Value>,
}

fn through<T: serde::Serialize + serde::de::DeserializeOwned>(v: &Value) -> Option<Value> {
    serde_json::from_value::<T>(v.clone()).ok().map(|t| serde_json::to_value(t).unwrap())
}

macro_rules! table {
    (
        requests { $( $h:ident $name:literal ($p:ty) -> $r:ty = $ps:expr, $rs:expr; )* }
        notifications { $( $nh:ident $nname:literal ($np:ty) = $nps:expr; )* }
    ) => {
        #[tower_lsp::async_trait]
        impl LanguageServer for Rec {
            async fn shutdown(&self) -> Result<()> {
                self.hit("shutdown", Value::Null).map(drop)
            }
            $(async fn $h(&self, params: $p) -> Result<$r> {
                let v = self.hit(stringify!($h), serde_json::to_value(params).unwrap())?;
                Ok(serde_json::from_value(v).expect("harness: result sample"))
            })*
            $(async fn $nh(&self, params: $np) {
                let _ = self.hit(stringify!($nh), serde_json::to_value(params).unwrap());
            })*
        }

        fn rows() -> Vec<Row> {
            vec![
                $(Row {
                    handler: stringify!($h), method: $name, request: true,
                    params: list($ps), results: list($rs),
                    parse: through::<$p>, result: through::<$r>,
                },)*
                $(Row {
                    handler: stringify!($nh), method: $nname, request: false,
                    params: list($nps), results: vec![Value::Null],
                    parse: through::<$np>, result: through::<Value>,
                },)*
            ]
        }
    };
}

fn list(v: Value) -> Vec<Value> {
    match v {
        Value::Array(a) => a,
        _ => unreachable!("harness: samples"),
    }
}

fn pos(n: u32) -> Value {
    json!({"line": n, "character": n + 1})
}

fn range(n: u32) -> Value {
    json!({"start": pos(n), "end": pos(n + 3)})
}

fn doc() -> Value {
    json!({"uri": "file:///a%20b/c.rs"})
}

fn at() -> Value {
    json!({"textDocument": doc(), "position": pos(4)})
}

/// Params with the document (and position) and these members.
fn with(base: Value, more: Value) -> Value {
    let mut b = base;
    for (k, v) in more.as_object().unwrap() {
        b[k] = v.clone();
    }
    b
}

fn in_doc(more: Value) -> Value {
    with(json!({"textDocument": doc()}), more)
}

fn edit() -> Value {
    json!({"range": range(1), "newText": "n\n"})
}

fn workspace_edit() -> Value {
    json!({"changes": {"file:///e": [edit()]}})
}

fn location() -> Value {
    json!({"uri": "file:///l", "range": range(9)})
}

fn link() -> Value {
    json!({
        "originSelectionRange": range(0), "targetUri": "file:///t", "targetRange": range(1),
        "targetSelectionRange": range(2),
    })
}

fn ch_item() -> Value {
    json!({
        "name": "f", "kind": 12, "tags": [1], "detail": "d", "uri": "file:///i", "range": range(1),
        "selectionRange": range(2), "data": {"x": [1]},
    })
}

fn th_item() -> Value {
    json!({
        "name": "T", "kind": 5, "tags": 1, "detail": "d", "uri": "file:///i", "range": range(1),
        "selectionRange": range(2), "data": "x",
    })
}

fn symbol_info() -> Value {
    json!({"name": "s", "kind": 12, "location": location(), "containerName": "c"})
}

fn completion_item() -> Value {
    json!({"label": "l", "kind": 3, "detail": "d", "insertText": "i", "data": {"n": null}})
}

fn diagnostic() -> Value {
    json!({"range": range(1), "severity": 1, "code": "E1", "source": "s", "message": "m"})
}

fn tokens() -> Value {
    json!({"resultId": "r", "data": [1, 2, 3, 4, 5]})
}

fn files(k: &str) -> Value {
    match k {
        "rename" => json!([{"files": [{"oldUri": "file:///o", "newUri": "file:///n"}]}, {"files": []}]),
        _ => json!([{"files": [{"uri": "file:///o"}, {"uri": "file:///p"}]}, {"files": []}]),
    }
}

fn color() -> Value {
    json!({"red": 0.5, "green": 0.25, "blue": 1.0, "alpha": 0.0})
}

fn goto_results() -> Value {
    json!([null, location(), [location(), location()], [link()]])
}

fn ref_results() -> Value {
    json!([null, [], [location()]])
}

fn edits() -> Value {
    json!([null, [], [edit(), edit()]])
}

table! {
    requests {
        initialize "initialize" (InitializeParams) -> InitializeResult =
            json!([{"capabilities": {}}, {
                "processId": 7, "rootUri": "file:///r", "initializationOptions": {"a": [1]},
                "capabilities": {"workspace": {"applyEdit": true}, "experimental": {"x": 1}},
                "trace": "verbose", "clientInfo": {"name": "c", "version": "1"}, "locale": "de",
                "workspaceFolders": [{"uri": "file:///w", "name": "w"}],
            }]),
            json!([{"capabilities": {}}, {
                "capabilities": {"hoverProvider": true, "textDocumentSync": 2, "experimental": [1]},
                "serverInfo": {"name": "s", "version": "2"},
            }]);
        will_save_wait_until "textDocument/willSaveWaitUntil" (WillSaveTextDocumentParams) -> Option<Vec<TextEdit>> =
            json!([in_doc(json!({"reason": 1})), in_doc(json!({"reason": 3}))]), edits();
        goto_declaration "textDocument/declaration" (GotoDeclarationParams) -> Option<GotoDeclarationResponse> =
            json!([at()]), goto_results();
        goto_definition "textDocument/definition" (GotoDefinitionParams) -> Option<GotoDefinitionResponse> =
            json!([at()]), goto_results();
        goto_type_definition "textDocument/typeDefinition" (GotoTypeDefinitionParams) -> Option<GotoTypeDefinitionResponse> =
            json!([at()]), goto_results();
        goto_implementation "textDocument/implementation" (GotoImplementationParams) -> Option<GotoImplementationResponse> =
            json!([at()]), goto_results();
        references "textDocument/references" (ReferenceParams) -> Option<Vec<Location>> =
            json!([with(at(), json!({"context": {"includeDeclaration": true}}))]), ref_results();
        prepare_call_hierarchy "textDocument/prepareCallHierarchy" (CallHierarchyPrepareParams) -> Option<Vec<CallHierarchyItem>> =
            json!([at()]), json!([null, [ch_item()]]);
        incoming_calls "callHierarchy/incomingCalls" (CallHierarchyIncomingCallsParams) -> Option<Vec<CallHierarchyIncomingCall>> =
            json!([{"item": ch_item()}]), json!([null, [{"from": ch_item(), "fromRanges": [range(1)]}]]);
        outgoing_calls "callHierarchy/outgoingCalls" (CallHierarchyOutgoingCallsParams) -> Option<Vec<CallHierarchyOutgoingCall>> =
            json!([{"item": ch_item()}]), json!([null, [{"to": ch_item(), "fromRanges": [range(1)]}]]);
        prepare_type_hierarchy "textDocument/prepareTypeHierarchy" (TypeHierarchyPrepareParams) -> Option<Vec<TypeHierarchyItem>> =
            json!([at()]), json!([null, [th_item()]]);
        supertypes "typeHierarchy/supertypes" (TypeHierarchySupertypesParams) -> Option<Vec<TypeHierarchyItem>> =
            json!([{"item": th_item()}]), json!([null, [th_item()]]);
        subtypes "typeHierarchy/subtypes" (TypeHierarchySubtypesParams) -> Option<Vec<TypeHierarchyItem>> =
            json!([{"item": th_item()}]), json!([null, [th_item(), th_item()]]);
        document_highlight "textDocument/documentHighlight" (DocumentHighlightParams) -> Option<Vec<DocumentHighlight>> =
            json!([at()]), json!([null, [{"range": range(1), "kind": 2}, {"range": range(2)}]]);
        document_link "textDocument/documentLink" (DocumentLinkParams) -> Option<Vec<DocumentLink>> =
            json!([in_doc(json!({}))]), json!([null, [{"range": range(1), "target": "file:///t", "tooltip": "t", "data": 1}]]);
        document_link_resolve "documentLink/resolve" (DocumentLink) -> DocumentLink =
            json!([{"range": range(1)}, {"range": range(2), "target": "http://x/", "data": [1]}]),
            json!([{"range": range(1)}, {"range": range(3), "target": "http://y/", "tooltip": "é"}]);
        hover "textDocument/hover" (HoverParams) -> Option<Hover> =
            json!([at()]), json!([null, {"contents": "h"}, {"contents": {"kind": "markdown", "value": "*h*"}, "range": range(1)}]);
        code_lens "textDocument/codeLens" (CodeLensParams) -> Option<Vec<CodeLens>> =
            json!([in_doc(json!({}))]), json!([null, [{"range": range(1), "command": {"title": "t", "command": "c"}, "data": 1}]]);
        code_lens_resolve "codeLens/resolve" (CodeLens) -> CodeLens =
            json!([{"range": range(1)}, {"range": range(2), "data": {"d": 1}}]), json!([{"range": range(1), "command": {"title": "t", "command": "c", "arguments": [1]}}]);
        folding_range "textDocument/foldingRange" (FoldingRangeParams) -> Option<Vec<FoldingRange>> =
            json!([in_doc(json!({}))]), json!([null, [{"startLine": 1, "endLine": 4, "kind": "comment"}]]);
        selection_range "textDocument/selectionRange" (SelectionRangeParams) -> Option<Vec<SelectionRange>> =
            json!([in_doc(json!({"positions": [pos(1), pos(2)]}))]), json!([null, [{"range": range(2), "parent": {"range": range(1)}}]]);
        document_symbol "textDocument/documentSymbol" (DocumentSymbolParams) -> Option<DocumentSymbolResponse> =
            json!([in_doc(json!({}))]), json!([null, [symbol_info()], [{"name": "n", "kind": 5, "range": range(1), "selectionRange": range(2), "children": []}]]);
        semantic_tokens_full "textDocument/semanticTokens/full" (SemanticTokensParams) -> Option<SemanticTokensResult> =
            json!([in_doc(json!({}))]), json!([null, tokens()]);
        semantic_tokens_full_delta "textDocument/semanticTokens/full/delta" (SemanticTokensDeltaParams) -> Option<SemanticTokensFullDeltaResult> =
            json!([in_doc(json!({"previousResultId": "p"}))]), json!([null, tokens(), {"resultId": "q", "edits": [{"start": 1, "deleteCount": 5, "data": [1, 2, 3, 4, 5]}]}]);
        semantic_tokens_range "textDocument/semanticTokens/range" (SemanticTokensRangeParams) -> Option<SemanticTokensRangeResult> =
            json!([in_doc(json!({"range": range(1)}))]), json!([null, tokens()]);
        inline_value "textDocument/inlineValue" (InlineValueParams) -> Option<Vec<InlineValue>> =
            json!([in_doc(json!({"range": range(1), "context": {"frameId": -3, "stoppedLocation": range(2)}}))]),
            json!([null, [{"range": range(1), "text": "t"}, {"range": range(2), "variableName": "v", "caseSensitiveLookup": true}]]);
        inlay_hint "textDocument/inlayHint" (InlayHintParams) -> Option<Vec<InlayHint>> =
            json!([in_doc(json!({"range": range(1)}))]), json!([null, [{"position": pos(1), "label": "l", "kind": 1, "paddingLeft": true}]]);
        inlay_hint_resolve "inlayHint/resolve" (InlayHint) -> InlayHint =
            json!([{"position": pos(1), "label": "l"}, {"position": pos(2), "label": [{"value": "v"}], "data": 1}]), json!([{"position": pos(3), "label": "m", "tooltip": "t"}]);
        moniker "textDocument/moniker" (MonikerParams) -> Option<Vec<Moniker>> =
            json!([at()]), json!([null, [{"scheme": "s", "identifier": "i", "unique": "global", "kind": "export"}]]);
        completion "textDocument/completion" (CompletionParams) -> Option<CompletionResponse> =
            json!([at(), with(at(), json!({"context": {"triggerKind": 2, "triggerCharacter": "."}}))]),
            json!([null, [completion_item()], {"isIncomplete": true, "items": [completion_item()]}]);
        completion_resolve "completionItem/resolve" (CompletionItem) -> CompletionItem =
            json!([{"label": "l"}, completion_item()]), json!([{"label": "m"}, completion_item()]);
        diagnostic "textDocument/diagnostic" (DocumentDiagnosticParams) -> DocumentDiagnosticReportResult =
            json!([in_doc(json!({"identifier": null, "previousResultId": null})), in_doc(json!({"identifier": "i", "previousResultId": "p"}))]),
            json!([{"kind": "full", "items": [diagnostic()], "resultId": "r"}, {"kind": "unchanged", "resultId": "r"}]);
        workspace_diagnostic "workspace/diagnostic" (WorkspaceDiagnosticParams) -> WorkspaceDiagnosticReportResult =
            json!([{"identifier": "i", "previousResultIds": [{"uri": "file:///p", "value": "v"}]}, {"previousResultIds": []}]),
            json!([{"items": []}, {"items": [{"kind": "full", "uri": "file:///d", "version": 3, "items": [diagnostic()]}]}]);
        signature_help "textDocument/signatureHelp" (SignatureHelpParams) -> Option<SignatureHelp> =
            json!([at(), with(at(), json!({"context": {"triggerKind": 1, "isRetrigger": false}}))]),
            json!([null, {"signatures": [{"label": "f(x)", "parameters": [{"label": "x"}]}], "activeSignature": 0, "activeParameter": 0}]);
        code_action "textDocument/codeAction" (CodeActionParams) -> Option<CodeActionResponse> =
            json!([in_doc(json!({"range": range(1), "context": {"diagnostics": []}})), in_doc(json!({"range": range(1), "context": {"diagnostics": [diagnostic()], "only": ["quickfix"]}}))]),
            json!([null, [{"title": "t", "command": "c"}, {"title": "a", "kind": "quickfix", "edit": workspace_edit()}]]);
        code_action_resolve "codeAction/resolve" (CodeAction) -> CodeAction =
            json!([{"title": "t"}, {"title": "u", "data": {"d": [1]}}]), json!([{"title": "v", "edit": workspace_edit(), "isPreferred": true}]);
        document_color "textDocument/documentColor" (DocumentColorParams) -> Vec<ColorInformation> =
            json!([in_doc(json!({}))]), json!([[], [{"range": range(1), "color": color()}]]);
        color_presentation "textDocument/colorPresentation" (ColorPresentationParams) -> Vec<ColorPresentation> =
            json!([in_doc(json!({"color": color(), "range": range(1)}))]), json!([[], [{"label": "l", "textEdit": edit()}]]);
        formatting "textDocument/formatting" (DocumentFormattingParams) -> Option<Vec<TextEdit>> =
            json!([in_doc(json!({"options": {"tabSize": 4, "insertSpaces": true, "x": "y", "n": 3}}))]), edits();
        range_formatting "textDocument/rangeFormatting" (DocumentRangeFormattingParams) -> Option<Vec<TextEdit>> =
            json!([in_doc(json!({"range": range(1), "options": {"tabSize": 4, "insertSpaces": false}}))]), edits();
        on_type_formatting "textDocument/onTypeFormatting" (DocumentOnTypeFormattingParams) -> Option<Vec<TextEdit>> =
            json!([with(at(), json!({"ch": "}", "options": {"tabSize": 2, "insertSpaces": true}}))]), edits();
        rename "textDocument/rename" (RenameParams) -> Option<WorkspaceEdit> =
            json!([with(at(), json!({"newName": "n"}))]), json!([null, {}, workspace_edit()]);
        prepare_rename "textDocument/prepareRename" (TextDocumentPositionParams) -> Option<PrepareRenameResponse> =
            json!([at()]), json!([null, range(1), {"range": range(1), "placeholder": "p"}, {"defaultBehavior": true}]);
        linked_editing_range "textDocument/linkedEditingRange" (LinkedEditingRangeParams) -> Option<LinkedEditingRanges> =
            json!([at()]), json!([null, {"ranges": [range(1)], "wordPattern": "w+"}]);
        symbol "workspace/symbol" (WorkspaceSymbolParams) -> Option<Vec<SymbolInformation>> =
            json!([{"query": ""}, {"query": "é\""}]), json!([null, [], [symbol_info()]]);
        symbol_resolve "workspaceSymbol/resolve" (WorkspaceSymbol) -> WorkspaceSymbol =
            json!([{"name": "n", "kind": 5, "location": {"uri": "file:///s"}}, {"name": "n", "kind": 5, "location": location(), "data": 1}]),
            json!([{"name": "n", "kind": 5, "location": location(), "containerName": "c"}]);
        will_create_files "workspace/willCreateFiles" (CreateFilesParams) -> Option<WorkspaceEdit> =
            files("create"), json!([null, workspace_edit()]);
        will_rename_files "workspace/willRenameFiles" (RenameFilesParams) -> Option<WorkspaceEdit> =
            files("rename"), json!([null, workspace_edit()]);
        will_delete_files "workspace/willDeleteFiles" (DeleteFilesParams) -> Option<WorkspaceEdit> =
            files("delete"), json!([null, workspace_edit()]);
        execute_command "workspace/executeCommand" (ExecuteCommandParams) -> Option<Value> =
            json!([{"command": "c"}, {"command": "", "arguments": [null, 1, {"a": "b"}]}]), json!([null, 1, "r", [null], {"jsonrpc": "2.0"}]);
    }
    notifications {
        initialized "initialized" (InitializedParams) = json!([{}]);
        did_open "textDocument/didOpen" (DidOpenTextDocumentParams) =
            json!([{"textDocument": {"uri": "file:///o", "languageId": "rust", "version": -1, "text": "é\r\n"}}]);
        did_change "textDocument/didChange" (DidChangeTextDocumentParams) =
            json!([{"textDocument": {"uri": "file:///o", "version": 2}, "contentChanges": [{"range": range(1), "rangeLength": 3, "text": "t"}, {"text": ""}]}]);
        will_save "textDocument/willSave" (WillSaveTextDocumentParams) = json!([in_doc(json!({"reason": 2}))]);
        did_save "textDocument/didSave" (DidSaveTextDocumentParams) = json!([in_doc(json!({})), in_doc(json!({"text": "t"}))]);
        did_close "textDocument/didClose" (DidCloseTextDocumentParams) = json!([in_doc(json!({}))]);
        did_change_configuration "workspace/didChangeConfiguration" (DidChangeConfigurationParams) =
            json!([{"settings": null}, {"settings": {"a": [1, "b"]}}]);
        did_change_workspace_folders "workspace/didChangeWorkspaceFolders" (DidChangeWorkspaceFoldersParams) =
            json!([{"event": {"added": [{"uri": "file:///a", "name": "a"}], "removed": []}}]);
        did_create_files "workspace/didCreateFiles" (CreateFilesParams) = files("create");
        did_rename_files "workspace/didRenameFiles" (RenameFilesParams) = files("rename");
        did_delete_files "workspace/didDeleteFiles" (DeleteFilesParams) = files("delete");
        did_change_watched_files "workspace/didChangeWatchedFiles" (DidChangeWatchedFilesParams) =
            json!([{"changes": [{"uri": "file:///w", "type": 1}, {"uri": "file:///x", "type": 3}]}]);
    }
}

/// A service with any backend; messages are sent one at a time and run to completion.
struct Bench<S: LanguageServer> {
    svc: LspService<S>,
    _socket: ClientSocket,
}

impl<S: LanguageServer> Bench<S> {
    fn new((svc, _socket): (LspService<S>, ClientSocket)) -> Self {
        Bench { svc, _socket }
    }

    /// None if it does not complete.
    fn send(&mut self, req: &Request) -> Option<std::result::Result<Option<Response>, ExitedError>> {
        let mut t = Task::new(self.svc.call(req.clone()));
        while t.ready() {
            if let Some(r) = t.poll() {
                return Some(r);
            }
        }
        None
    }

    fn initialize(&mut self, tags: &'static [&'static str]) {
        let init = request("initialize", Some(Id::Number(900)), Some(json!({"capabilities": {}})));
        let r = self.send(&init);
        check!(
            matches!(&r, Some(Ok(Some(r))) if r.is_ok()),
            tags, "initialize", "initialize was answered with {r:?}"
        );
    }
}

/// Why a message must have this effect.
#[derive(Clone, Debug)]
enum Expect {
    /// The handler runs with the params; the result is what it returned.
    Run(Value, std::result::Result<Value, Error>),
    Reject(i64, Option<String>),
    Ignore,
}

fn sends<S: LanguageServer>(
    bench: &mut Bench<S>, rec: Option<&Rec>, handler: &str, req: &Request, want: &Expect,
    tags: &'static [&'static str],
) {
    let id = req.id().cloned();
    if let (Some(rec), Expect::Run(_, r)) = (rec, want) {
        rec.set(r.clone());
    }
    let got = bench.send(req);
    let hits = rec.map(|r| r.hits()).unwrap_or_default();
    step(&format!("{req} -> {got:?} {hits:?}"));
    let got = match got {
        None => return check!(false, tags, "stuck", "{req} does not complete"),
        Some(Err(_)) => return check!(false, tags, "refused", "{req} was refused"),
        Some(Ok(r)) => r,
    };
    let answer = |body: std::result::Result<Value, Error>| id.clone().map(|id| Response::from_parts(id, body));
    match want {
        Expect::Run(params, outcome) => {
            if rec.is_some() {
                let expected = vec![(handler.to_string(), params.clone())];
                check!(
                    hits == expected, tags, "handler",
                    "{req} should run {handler} once with {params}, but ran {hits:?}"
                );
            }
            let want = answer(outcome.clone());
            check!(got == want, tags, "answer", "{req} was answered {got:?}, not {want:?}");
        }
        Expect::Reject(code, name) => {
            check!(hits.is_empty(), tags, "handler", "{req} is invalid but ran {hits:?}");
            let ok = match &got {
                Some(r) => {
                    Some(r.id()) == id.as_ref()
                        && r.error().is_some_and(|e| {
                            e.code.code() == *code
                                && name.as_ref().is_none_or(|n| {
                                    e.data.as_ref() == Some(&json!(n)) || e.message.contains(n.as_str())
                                })
                        })
                }
                None => false,
            };
            check!(ok, tags, "answer", "{req} was answered {got:?}, not error {code} ({name:?})");
        }
        Expect::Ignore => {
            check!(hits.is_empty(), tags, "handler", "{req} is to be ignored but ran {hits:?}");
            check!(got.is_none(), tags, "answer", "{req} was answered {got:?}");
        }
    }
}

/// Every way to spoil one part of a value.
fn mutations(v: &Value) -> Vec<Value> {
    let mut out: Vec<Value> =
        vec![Value::Null, json!(5), json!(-1.5), json!("x"), json!(true), json!([]), json!([1]), json!({})];
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let mut w = m.clone();
                w.remove(k);
                out.push(Value::Object(w));
                for y in mutations(x) {
                    let mut w = m.clone();
                    w.insert(k.clone(), y);
                    out.push(Value::Object(w));
                }
            }
            let mut w = m.clone();
            w.insert("unknown".into(), json!([1]));
            out.push(Value::Object(w));
            for t in [json!("tok"), json!(7)] {
                let mut w = m.clone();
                w.insert("workDoneToken".into(), t.clone());
                w.insert("partialResultToken".into(), t);
                out.push(Value::Object(w));
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let mut w = a.clone();
                w.remove(i);
                out.push(Value::Array(w));
                for y in mutations(x) {
                    let mut w = a.clone();
                    w[i] = y;
                    out.push(Value::Array(w));
                }
            }
        }
        _ => {}
    }
    out.retain(|w| w != v);
    out
}

#[derive(Clone)]
struct Case {
    req: Request,
    want: Expect,
}

fn failures() -> Vec<Error> {
    vec![
        Error::internal_error(),
        Error { code: ErrorCode::ServerError(-32099), message: "é".into(), data: Some(json!({"a": [null]})) },
        Error { code: ErrorCode::ServerError(0), message: "".into(), data: Some(Value::Null) },
        Error::content_modified(),
        Error::method_not_found(),
        Error::request_cancelled(),
    ]
}

/// Everything that is sent for one method.
fn cases(row: &Row) -> Vec<Case> {
    let ids = [Id::Number(5), Id::String("s".into()), Id::Null, Id::Number(-1)];
    let id = row.request.then(|| ids[0].clone());
    let mut v = vec![];
    let mut push = |id: Option<Id>, params: Option<Value>, want| {
        v.push(Case { req: request(row.method, id, params), want })
    };
    let results: Vec<_> = row.results.iter().map(|r| {
        (row.result)(r).unwrap_or_else(|| panic!("harness: result sample of {}: {r}", row.method))
    }).collect();
    for p in &row.params {
        let seen = (row.parse)(p).unwrap_or_else(|| panic!("harness: params sample of {}: {p}", row.method));
        if !row.request {
            push(None, Some(p.clone()), Expect::Run(seen.clone(), Ok(Value::Null)));
            // A request for a notification.
            for id in &ids {
                push(Some(id.clone()), Some(p.clone()), Expect::Reject(-32600, None));
            }
            continue;
        }
        for id in &ids {
            for r in &results {
                push(Some(id.clone()), Some(p.clone()), Expect::Run(seen.clone(), Ok(r.clone())));
            }
            for e in failures() {
                push(Some(id.clone()), Some(p.clone()), Expect::Run(seen.clone(), Err(e)));
            }
        }
        // A notification for a request.
        push(None, Some(p.clone()), Expect::Ignore);
    }
    let bad = |id: &Option<Id>| if id.is_some() { Expect::Reject(-32602, None) } else { Expect::Ignore };
    push(id.clone(), None, bad(&id));
    for p in &row.params {
        for m in mutations(p) {
            let want = match (row.parse)(&m) {
                Some(seen) => Expect::Run(seen, Ok(if row.request { results[0].clone() } else { Value::Null })),
                None => bad(&id),
            };
            push(id.clone(), Some(m), want);
        }
    }
    v
}

fn group(name: &str, n: usize, text: &str, run: impl Fn(usize) + Send + Sync + 'static) -> Group {
    let text = text.to_string();
    Group {
        also: &[],
        name: name.into(),
        scenarios: n,
        bound: None,
        isolate: false,
        data: None,
        describe: Box::new(move |i| format!("{text} [{i}]")),
        run: Box::new(run),
    }
}

const T: &[&str] = &["C06"];

/// Sends the messages of one case twice (ids can be used again once answered), with this backend.
fn with_backend(kind: usize, f: &dyn Fn(&mut dyn FnMut(&str, &Request, &Expect)), init: bool) {
    fn go<S: LanguageServer>(
        rec: Rec, s: S, init: bool, f: &dyn Fn(&mut dyn FnMut(&str, &Request, &Expect)),
    ) {
        let mut b = Bench::new(LspService::new(|_| s));
        if init {
            rec.set(Ok(json!({"capabilities": {}})));
            b.initialize(T);
            rec.hits();
        }
        f(&mut |h, req, want| sends(&mut b, Some(&rec), h, req, want, T));
    }
    let rec = Rec::default();
    let r = rec.clone();
    match kind {
        0 => go(r, rec, init, f),
        1 => go(r, Box::new(rec), init, f),
        2 => go(r, Arc::new(rec), init, f),
        3 => go::<Box<dyn LanguageServer>>(r, Box::new(rec), init, f),
        4 => go::<Arc<dyn LanguageServer>>(r, Arc::new(rec), init, f),
        _ => go(r, Arc::new(Box::new(rec)), init, f),
    }
}

/// Names that differ from every method by a little.
fn near_names() -> Vec<String> {
    let rows = rows();
    let known: BTreeSet<&str> =
        rows.iter().map(|r| r.method).chain(["shutdown", "exit", "$/cancelRequest"]).collect();
    let mut v = BTreeSet::new();
    for k in &known {
        v.insert(k[1..].to_string());
        v.insert(k[..k.len() - 1].to_string());
        v.insert(format!("{k}s"));
        v.insert(format!("{k} "));
        v.insert(format!(" {k}"));
        v.insert(format!("{k}/"));
        v.insert(format!("/{k}"));
        v.insert(format!("$/{k}"));
        v.insert(format!("{k}\0"));
        v.insert(k.to_uppercase());
        v.insert(k.to_lowercase());
        v.insert(k.replace('/', "."));
        if let Some((a, b)) = k.rsplit_once('/') {
            v.insert(b.to_string());
            v.insert(a.to_string());
            v.insert(format!("{b}/{a}"));
        }
        let mut c: Vec<char> = k.chars().collect();
        let n = c.len();
        c.swap(n - 1, n - 2);
        v.insert(c.into_iter().collect());
    }
    for r in &rows {
        v.insert(r.handler.to_string());
    }
    v.extend(["", "é", "rpc.discover", "window/workDoneProgress/cancel", "$/setTrace", "$/progress", "$/"].map(String::from));
    v.into_iter().filter(|n| !known.contains(n.as_str())).collect()
}

/// C06.
pub fn methods(d: u32) -> Vec<Group> {
    let rows = rows();
    let n = rows.len();
    let kinds = if d == 0 { 1 } else { 6 };
    let all: Vec<Vec<Case>> = rows.iter().map(cases).collect();
    let mut v = vec![];
    let (rs, cs) = (rows.clone(), all.clone());
    v.push(group(
        &format!("methods with {kinds} kinds of backends"), n,
        "every method with every sample of params and results, every error and every spoiled part of the params",
        move |i| {
            let kind = pick("backend", kinds);
            let case = &cs[i][pick("case", cs[i].len())];
            let init = rs[i].method != "initialize";
            with_backend(kind, &|send| {
                send(rs[i].handler, &case.req, &case.want);
                // The server serves on, and the id can be used again.
                if init {
                    send(rs[i].handler, &case.req, &case.want);
                }
            }, init);
        },
    ));
    let rs = rows.clone();
    let cs = all.clone();
    v.push(group("pairs of methods", n, "one method after another", move |i| {
        let j = pick("second", rs.len());
        let first = pick("first case", 2);
        if rs[i].method == "initialize" || rs[j].method == "initialize" {
            return;
        }
        let (a, b) = (&cs[i][first.min(cs[i].len() - 1)], &cs[j][0]);
        with_backend(0, &|send| {
            send(rs[i].handler, &a.req, &a.want);
            send(rs[j].handler, &b.req, &b.want);
            send(rs[i].handler, &a.req, &a.want);
        }, true);
    }));
    v.push(group("shutdown", 7, "shutdown with each result", move |i| {
        let want = match i {
            0 => Ok(Value::Null),
            _ => Err(failures()[i - 1].clone()),
        };
        let id = [Id::Number(5), Id::String("s".into()), Id::Null][pick("id", 3)].clone();
        with_backend(pick("backend", kinds), &|send| {
            let req = request("shutdown", Some(id.clone()), None);
            send("shutdown", &req, &Expect::Run(Value::Null, want.clone()));
        }, true);
    }));
    let rs = rows.clone();
    let cs = all.clone();
    v.push(group("not implemented", n, "every method of a server that implements none", move |i| {
        let row = &rs[i];
        if matches!(row.method, "initialize") {
            return;
        }
        fn go<S: LanguageServer>(s: S, row: &Row, cs: &[Case]) {
            let mut b = Bench::new(LspService::new(|_| s));
            b.initialize(T);
            for c in cs {
                let want = match &c.want {
                    Expect::Run(..) if row.request => Expect::Reject(-32601, None),
                    w => w.clone(),
                };
                sends(&mut b, None, row.handler, &c.req, &want, T);
            }
        }
        match pick("backend", 4) {
            0 => go(Bare, row, &cs[i]),
            1 => go(Box::new(Bare), row, &cs[i]),
            2 => go(Arc::new(Bare), row, &cs[i]),
            _ => go::<Box<dyn LanguageServer>>(Box::new(Bare), row, &cs[i]),
        }
    }));
    let names = near_names();
    v.push(group("unknown methods", names.len(), "a name that is no method", move |i| {
        let name = &names[i];
        let params = [None, Some(Value::Null), Some(json!({})), Some(at())][pick("params", 4)].clone();
        let id = [None, Some(Id::Number(5)), Some(Id::String("s".into())), Some(Id::Null)][pick("id", 4)].clone();
        let want = if id.is_some() { Expect::Reject(-32601, Some(name.clone())) } else { Expect::Ignore };
        with_backend(0, &|send| {
            let req = request(name, id.clone(), params.clone());
            send("", &req, &want);
            send("", &req, &want);
        }, true);
    }));
    v.push(group("cancellation notices", 1, "$/cancelRequest that is not one", move |_| {
        let params = [None, Some(json!({"id": 5})), Some(json!({"id": []})), Some(json!({"id": "s"}))][pick("params", 4)].clone();
        let as_request = pick("request", 2) == 1;
        let want = if as_request { Expect::Reject(-32600, None) } else { Expect::Ignore };
        with_backend(0, &|send| {
            let req = request("$/cancelRequest", as_request.then_some(Id::Number(8)), params.clone());
            send("", &req, &want);
        }, true);
    }));
    v
}

// ---------------------------------------------------------------------------------------------

const U: &[&str] = &["C24"];

/// Cannot be converted to JSON.
struct Unserializable;

impl serde::Serialize for Unserializable {
    fn serialize<S: serde::Serializer>(&self, _: S) -> std::result::Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sig {
    /// Requests: without params, with a list of strings, with anything; bad and failing ones.
    R0,
    RV,
    RJ,
    RU,
    RM,
    RE,
    /// A request that never completes.
    RP,
    N0,
    NV,
    NJ,
}

const SIGS: [Sig; 10] = [Sig::R0, Sig::RV, Sig::RJ, Sig::RU, Sig::RM, Sig::RE, Sig::RP, Sig::N0, Sig::NV, Sig::NJ];

impl Sig {
    fn request(self) -> bool {
        !matches!(self, Sig::N0 | Sig::NV | Sig::NJ)
    }
    /// What the handler sees, if it runs.
    fn params(self, p: &Option<Value>) -> Option<Value> {
        match self {
            Sig::R0 | Sig::N0 | Sig::RU | Sig::RM | Sig::RE | Sig::RP => p.is_none().then_some(Value::Null),
            Sig::RV | Sig::NV => through::<Vec<String>>(p.as_ref()?),
            Sig::RJ | Sig::NJ => p.clone(),
        }
    }
}

fn register(
    b: tower_lsp::LspServiceBuilder<Rec>, sig: Sig, name: &'static str, i: usize,
) -> tower_lsp::LspServiceBuilder<Rec> {
    let label = format!("custom {i}");
    let hit = move |s: &Rec, p: Value| s.hit(&label, p);
    match sig {
        Sig::R0 => b.custom_method(name, move |s: &Rec| {
            let _ = hit(s, Value::Null);
            async move { Ok::<Value, Error>(json!({ "i": i })) }
        }),
        Sig::RV => b.custom_method(name, move |s: &Rec, p: Vec<String>| {
            let _ = hit(s, json!(p));
            async move { Ok::<(usize, Vec<String>), Error>((i, p)) }
        }),
        Sig::RJ => b.custom_method(name, move |s: &Rec, p: Value| {
            let _ = hit(s, p.clone());
            async move { Ok::<(usize, Value), Error>((i, p)) }
        }),
        Sig::RU => b.custom_method(name, move |s: &Rec| {
            let _ = hit(s, Value::Null);
            async move { Ok::<Unserializable, Error>(Unserializable) }
        }),
        Sig::RM => b.custom_method(name, move |s: &Rec| {
            let _ = hit(s, Value::Null);
            // Maps whose keys are not strings are not JSON.
            async move { Ok::<Vec<std::collections::BTreeMap<(u8, u8), u8>>, Error>(vec![[((1, 2), 3)].into()]) }
        }),
        Sig::RE => b.custom_method(name, move |s: &Rec| {
            let _ = hit(s, Value::Null);
            async move { Err::<Value, Error>(custom_error(i)) }
        }),
        Sig::RP => b.custom_method(name, move |s: &Rec| {
            let _ = hit(s, Value::Null);
            std::future::pending::<Result<Value>>()
        }),
        Sig::N0 => b.custom_method(name, move |s: &Rec| {
            let _ = hit(s, Value::Null);
            async move {}
        }),
        Sig::NV => b.custom_method(name, move |s: &Rec, p: Vec<String>| {
            let _ = hit(s, json!(p));
            async move {}
        }),
        Sig::NJ => b.custom_method(name, move |s: &Rec, p: Value| {
            let _ = hit(s, p);
            async move {}
        }),
    }
}

fn custom_error(i: usize) -> Error {
    Error { code: ErrorCode::ServerError(100 + i as i64), message: "c".into(), data: Some(json!([i])) }
}

const NAMES: [&str; 15] = [
    "c/a", "c/b", "C/a", "c/a/", "c", "", "é", "$/c", "textDocument/hover", "textDocument/didOpen", "initialize",
    "initialized", "shutdown", "exit", "$/cancelRequest",
];

const BUILT_IN: [&str; 7] = [
    "textDocument/hover", "textDocument/didOpen", "initialize", "initialized", "shutdown", "exit", "$/cancelRequest",
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stage {
    Uninit,
    Inited,
    Shut,
    Exited,
}

/// Sends everything to a server with these registrations.
fn custom(regs: &[(Sig, &'static str)], stage: Stage) {
    step(&format!("{regs:?} {stage:?}"));
    let rec = Rec::default();
    let r = rec.clone();
    let mut b = LspService::build(move |_| r);
    for (i, (sig, name)) in regs.iter().enumerate() {
        b = register(b, *sig, name, i);
    }
    let mut bench = Bench::new(b.finish());
    let expect = |bench: &mut Bench<Rec>, handler: &str, req: &Request, want: Expect| {
        sends(bench, Some(&rec), handler, req, &want, U)
    };
    let init = |bench: &mut Bench<Rec>| {
        let p = json!({"capabilities": {}});
        let req = request("initialize", Some(Id::Number(900)), Some(p.clone()));
        let seen = through::<InitializeParams>(&p).unwrap();
        expect(bench, "initialize", &req, Expect::Run(seen, Ok(json!({"capabilities": {}}))));
    };
    if stage != Stage::Uninit {
        init(&mut bench);
    }
    if matches!(stage, Stage::Shut | Stage::Exited) {
        let req = request("shutdown", Some(Id::Number(901)), None);
        expect(&mut bench, "shutdown", &req, Expect::Run(Value::Null, Ok(Value::Null)));
    }
    if stage == Stage::Exited {
        let got = bench.send(&request("exit", None, None));
        let hits = rec.hits();
        check!(
            got == Some(Ok(None)) && hits.is_empty(),
            U, "exit", "exit had the result {got:?} and ran {hits:?}"
        );
    }
    let params = [None, Some(Value::Null), Some(json!([])), Some(json!(["x", "y"])), Some(json!({"a": 1})), Some(json!("z"))];
    let mut next = 0;
    let others = ["c/", "c/A", " c/a", "c/a ", "c/c", "d"];
    for name in NAMES.iter().chain(&others) {
        if BUILT_IN.contains(name) {
            continue;
        }
        let reg = regs.iter().position(|(_, n)| n == name);
        for p in &params {
            for as_request in [true, false] {
                next += 1;
                let id = as_request.then_some(Id::Number(next));
                let req = request(name, id.clone(), p.clone());
                if stage == Stage::Exited {
                    let got = bench.send(&req);
                    let hits = rec.hits();
                    check!(
                        matches!(got, Some(Err(_))) && hits.is_empty(),
                        U, "exited", "{req} after exit had the result {got:?} and ran {hits:?}"
                    );
                    continue;
                }
                let Some(i) = reg else {
                    let want = if as_request { Expect::Reject(-32601, Some(name.to_string())) } else { Expect::Ignore };
                    expect(&mut bench, "", &req, want);
                    continue;
                };
                let sig = regs[i].0;
                let seen = sig.params(p);
                // Which of several reasons to refuse a message counts is not specified.
                if stage != Stage::Inited && (sig.request() != as_request || seen.is_none()) {
                    continue;
                }
                let label = format!("custom {i}");
                let want = match (sig.request(), as_request) {
                    (true, false) => Expect::Ignore,
                    (false, true) => Expect::Reject(-32600, None),
                    _ if stage == Stage::Uninit && as_request => Expect::Reject(-32002, None),
                    _ if stage == Stage::Shut && as_request => Expect::Reject(-32600, None),
                    _ if stage != Stage::Inited => Expect::Ignore,
                    _ => match seen {
                        None if as_request => Expect::Reject(-32602, None),
                        None => Expect::Ignore,
                        Some(v) => Expect::Run(v.clone(), match sig {
                            Sig::R0 => Ok(json!({ "i": i })),
                            Sig::RV | Sig::RJ => Ok(json!([i, v])),
                            Sig::RE => Err(custom_error(i)),
                            _ => Ok(Value::Null),
                        }),
                    },
                };
                match (&want, sig) {
                    (Expect::Run(..), Sig::RU | Sig::RM) => {
                        let got = bench.send(&req);
                        let hits = rec.hits();
                        check!(hits == [(label.clone(), Value::Null)], U, "handler", "{req} ran {hits:?}");
                        let ok = matches!(&got, Some(Ok(Some(r)))
                            if Some(r.id()) == id.as_ref() && r.error().is_some_and(|e| e.code.code() == -32603));
                        check!(ok, U, "answer", "{req} whose result is not JSON was answered {got:?}");
                    }
                    (Expect::Run(..), Sig::RP) => {
                        // It is cancelled like any other request.
                        let mut t = Task::new(bench.svc.call(req.clone()));
                        let first = t.poll();
                        let hits = rec.hits();
                        check!(first.is_none() && hits.len() == 1, U, "pending", "{req}: {first:?} {hits:?}");
                        let cancel = request("$/cancelRequest", None, Some(json!({"id": next})));
                        expect(&mut bench, "", &cancel, Expect::Ignore);
                        let got = if t.ready() { t.poll() } else { None };
                        let ok = matches!(&got, Some(Ok(Some(r)))
                            if Some(r.id()) == id.as_ref() && r.error().is_some_and(|e| e.code.code() == -32800));
                        check!(ok, U, "cancel", "{req} was cancelled with the result {got:?}");
                    }
                    _ => expect(&mut bench, &label, &req, want),
                }
            }
        }
    }
    // Built-in methods are as they were.
    if stage == Stage::Uninit {
        init(&mut bench);
    }
    if matches!(stage, Stage::Uninit | Stage::Inited) {
        let p = at();
        let seen = through::<HoverParams>(&p).unwrap();
        let req = request("textDocument/hover", Some(Id::String("h".into())), Some(p));
        expect(&mut bench, "hover", &req, Expect::Run(seen, Ok(json!({"contents": "h"}))));
        let p = json!({"textDocument": {"uri": "file:///o", "languageId": "l", "version": 1, "text": ""}});
        expect(&mut bench, "did_open", &request("textDocument/didOpen", None, Some(p.clone())), Expect::Run(p, Ok(Value::Null)));
        expect(&mut bench, "initialized", &request("initialized", None, Some(json!({}))), Expect::Run(json!({}), Ok(Value::Null)));
        // Not custom/…: these have params a custom method without any would refuse.
        expect(&mut bench, "", &request("$/cancelRequest", None, Some(json!({"id": 1}))), Expect::Ignore);
        expect(&mut bench, "", &request("initialize", Some(Id::Number(1)), Some(json!({"capabilities": {}}))), Expect::Reject(-32600, None));
        expect(&mut bench, "shutdown", &request("shutdown", Some(Id::Number(1)), None), Expect::Run(Value::Null, Ok(Value::Null)));
    }
    if stage != Stage::Exited {
        let got = bench.send(&request("exit", None, None));
        let hits = rec.hits();
        check!(got == Some(Ok(None)) && hits.is_empty(), U, "exit", "exit had the result {got:?} and ran {hits:?}");
        let got = bench.send(&request("c/a", None, None));
        check!(matches!(got, Some(Err(_))), U, "exited", "after exit: {got:?}");
    }
}

/// C24.
pub fn customs(d: u32) -> Vec<Group> {
    const STAGES: [Stage; 4] = [Stage::Uninit, Stage::Inited, Stage::Shut, Stage::Exited];
    let n = NAMES.len() * SIGS.len();
    let nth = |i: usize| (SIGS[i / NAMES.len()], NAMES[i % NAMES.len()]);
    let mut v = vec![];
    v.push(group("one custom method", n, "a custom method", move |i| {
        custom(&[nth(i)], STAGES[pick("stage", 4)]);
    }));
    if d > 0 {
        v.push(group("two custom methods", n, "two custom methods", move |i| {
            custom(&[nth(i), nth(pick("second", n))], STAGES[pick("stage", if d > 1 { 4 } else { 2 })]);
        }));
    }
    v.push(group("two of one name", NAMES.len(), "two or three registrations of one name", move |i| {
        let a = SIGS[pick("first", SIGS.len())];
        let b = SIGS[pick("second", SIGS.len())];
        let k = pick("third", if d > 0 { SIGS.len() + 1 } else { 1 });
        let mut regs = vec![(a, NAMES[i]), (b, NAMES[i])];
        if k > 0 {
            regs.push((SIGS[k - 1], NAMES[i]));
        }
        custom(&regs, STAGES[pick("stage", 4)]);
    }));
    if d > 1 {
        v.push(group("three custom methods", n, "three custom methods", move |i| {
            custom(&[nth(i), nth(pick("second", n)), nth(pick("third", n))], Stage::Inited);
        }));
    }
    v
}

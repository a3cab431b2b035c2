//! The typed interface to the client: every method of the handle, every kind of answer (C21), and
//! progress streams, however they are built and driven (C22).

use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

use futures::{Sink, Stream};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{
    Bounded, Cancellable, Client, ClientSocket, LanguageServer, LspService, NotCancellable, OngoingProgress, Progress,
    Unbounded,
};

use crate::backend::{noop_cx, CNot, CReq, Task};
use crate::check;
use crate::engine::{choose, pick, step, Group};
use crate::life::request;

struct Quiet;

#[tower_lsp::async_trait]
impl LanguageServer for Quiet {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        Ok(InitializeResult::default())
    }
    async fn shutdown(&self) -> Result<()> {
        Ok(())
    }
}

fn initialized() -> (LspService<Quiet>, ClientSocket, Client) {
    let mut client = None;
    let (mut svc, socket) = LspService::new(|c| {
        client = Some(c);
        Quiet
    });
    let mut t = Task::new(svc.call(request("initialize", Some(Id::Number(1)), Some(json!({"capabilities": {}})))));
    while t.ready() {
        t.poll();
    }
    (svc, socket, client.unwrap())
}

fn receive(socket: &mut ClientSocket) -> Option<Request> {
    match noop_cx(|cx| Pin::new(&mut *socket).poll_next(cx)) {
        Poll::Ready(r) => r,
        Poll::Pending => None,
    }
}

fn answer(socket: &mut ClientSocket, r: Response) -> bool {
    noop_cx(|cx| {
        matches!(Pin::new(&mut *socket).poll_ready(cx), Poll::Ready(Ok(())))
            && Pin::new(&mut *socket).start_send(r).is_ok()
            && matches!(Pin::new(&mut *socket).poll_flush(cx), Poll::Ready(Ok(())))
    })
}

type Outcome = std::result::Result<Value, Error>;
type Call = Pin<Box<dyn Future<Output = Outcome>>>;

/// One use of the API: what it must send, and how it must take each answer.
struct Use {
    what: String,
    method: &'static str,
    params: Value,
    /// For requests: answers with the values they become.
    good: Option<Vec<(Value, Value)>>,
    call: Box<dyn Fn(Client) -> Call + Send + Sync>,
}

const T: &[&str] = &["C21"];

/// Answers that are no valid result, among these.
fn candidates() -> Vec<Value> {
    vec![
        Value::Null, json!(true), json!(0), json!(-1.5), json!("x"), json!([]), json!([1]), json!({}),
        json!({"title": 1}), json!({"success": null}), json!({"applied": 1}), json!([{"uri": 1}]), json!([null]),
    ]
}

fn ok<T: serde::Serialize>(v: T) -> Value {
    serde_json::to_value(v).unwrap()
}

fn notification<F, Fut>(what: String, method: &'static str, params: Value, f: F) -> Use
where
    F: Fn(Client) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = ()> + 'static,
{
    Use {
        what, method, params, good: None,
        call: Box::new(move |c| {
            let fut = f(c);
            Box::pin(async move {
                fut.await;
                Ok(Value::Null)
            })
        }),
    }
}

fn asks<F, Fut, R>(what: String, method: &'static str, params: Value, good: Vec<(Value, Value)>, f: F) -> Use
where
    F: Fn(Client) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = Result<R>> + 'static,
    R: serde::Serialize,
{
    Use {
        what, method, params, good: Some(good),
        call: Box::new(move |c| {
            let fut = f(c);
            Box::pin(async move { fut.await.map(ok) })
        }),
    }
}

fn same(v: Vec<Value>) -> Vec<(Value, Value)> {
    v.into_iter().map(|v| (v.clone(), v)).collect()
}

fn url(s: &str) -> Url {
    s.parse().unwrap()
}

const TEXTS: [&str; 5] = ["", "m", "é\u{1F600}\u{2028}", "\"\\\n\0", "Content-Length: 5\r\n\r\n{}"];

fn uses() -> Vec<Use> {
    let mut v = vec![];
    let regs = vec![
        (vec![], json!([])),
        (
            vec![Registration { id: "i".into(), method: "m".into(), register_options: None }],
            json!([{"id": "i", "method": "m"}]),
        ),
        (
            vec![
                Registration { id: "".into(), method: "textDocument/hover".into(), register_options: Some(json!({"a": [1]})) },
                Registration { id: "j".into(), method: "n".into(), register_options: None },
            ],
            json!([{"id": "", "method": "textDocument/hover", "registerOptions": {"a": [1]}}, {"id": "j", "method": "n"}]),
        ),
    ];
    let null = || same(vec![Value::Null]);
    for (r, j) in regs {
        v.push(asks(
            format!("register_capability {j}"), "client/registerCapability", json!({ "registrations": j }), null(),
            move |c| { let r = r.clone(); async move { c.register_capability(r).await } },
        ));
    }
    let unregs = vec![
        (vec![], json!([])),
        (
            vec![
                Unregistration { id: "i".into(), method: "m".into() },
                Unregistration { id: "é".into(), method: "".into() },
            ],
            json!([{"id": "i", "method": "m"}, {"id": "é", "method": ""}]),
        ),
    ];
    for (r, j) in unregs {
        v.push(asks(
            // The name of the member is misspelled in the protocol.
            format!("unregister_capability {j}"), "client/unregisterCapability", json!({ "unregisterations": j }), null(),
            move |c| { let r = r.clone(); async move { c.unregister_capability(r).await } },
        ));
    }
    let types = [(MessageType::ERROR, 1), (MessageType::WARNING, 2), (MessageType::INFO, 3), (MessageType::LOG, 4)];
    for (t, n) in types {
        for m in TEXTS {
            let p = json!({"type": n, "message": m});
            v.push(notification(
                format!("show_message {p}"), "window/showMessage", p.clone(),
                move |c| async move { c.show_message(t, m).await },
            ));
            v.push(notification(
                format!("log_message {p}"), "window/logMessage", p.clone(),
                move |c| async move { c.log_message(t, m.to_string()).await },
            ));
            let actions = vec![
                (None, Value::Null),
                (Some(vec![]), json!([])),
                (
                    Some(vec![
                        MessageActionItem { title: "a".into(), properties: Default::default() },
                        MessageActionItem { title: m.into(), properties: Default::default() },
                    ]),
                    json!([{"title": "a"}, {"title": m}]),
                ),
            ];
            for (a, j) in actions {
                let mut p = p.clone();
                if a.is_some() {
                    p["actions"] = j;
                }
                v.push(asks(
                    format!("show_message_request {p}"), "window/showMessageRequest", p,
                    same(vec![Value::Null, json!({"title": "a"}), json!({"title": m, "x": true})]),
                    move |c| { let a = a.clone(); async move { c.show_message_request(t, m, a).await } },
                ));
            }
        }
    }
    v.push(notification(
        "log_message of a number".into(), "window/logMessage", json!({"type": 4, "message": "17"}),
        |c| async move { c.log_message(MessageType::LOG, 17).await },
    ));
    let answers = || vec![(json!({"success": true}), json!(true)), (json!({"success": false}), json!(false))];
    v.push(asks(
        "show_document".into(), "window/showDocument", json!({"uri": "file:///d"}), answers(),
        |c| async move {
            c.show_document(ShowDocumentParams { uri: url("file:///d"), external: None, take_focus: None, selection: None })
                .await
        },
    ));
    v.push(asks(
        "show_document with everything".into(), "window/showDocument",
        json!({
            "uri": "http://x/y", "external": true, "takeFocus": false,
            "selection": {"start": {"line": 1, "character": 2}, "end": {"line": 3, "character": 4}},
        }),
        answers(),
        |c| async move {
            c.show_document(ShowDocumentParams {
                uri: url("http://x/y"), external: Some(true), take_focus: Some(false),
                selection: Some(Range::new(Position::new(1, 2), Position::new(3, 4))),
            }).await
        },
    ));
    let data = [
        json!(null), json!([]), json!([1, null]), json!({}), json!({"a": {"b": []}}), json!("s"), json!(""), json!(1),
        json!(-2.5), json!(u64::MAX), json!(true), json!(false), json!([[1]]),
    ];
    for d in data {
        let p = match &d {
            Value::Null | Value::Array(_) | Value::Object(_) => d.clone(),
            other => json!([other]),
        };
        v.push(notification(
            format!("telemetry_event {d}"), "telemetry/event", p,
            move |c| { let d = d.clone(); async move { c.telemetry_event(d).await } },
        ));
    }
    v.push(notification(
        "telemetry_event of a tuple".into(), "telemetry/event", json!([1, "x"]),
        |c| async move { c.telemetry_event((1, "x")).await },
    ));
    v.push(notification(
        "telemetry_event of a char".into(), "telemetry/event", json!(["c"]),
        |c| async move { c.telemetry_event('c').await },
    ));
    v.push(notification(
        "telemetry_event of nothing".into(), "telemetry/event", json!(null),
        |c| async move { c.telemetry_event(None::<u8>).await },
    ));
    let p = Value::Null;
    v.push(asks("code_lens_refresh".into(), "workspace/codeLens/refresh", p.clone(), null(), |c| async move { c.code_lens_refresh().await }));
    v.push(asks("semantic_tokens_refresh".into(), "workspace/semanticTokens/refresh", p.clone(), null(), |c| async move { c.semantic_tokens_refresh().await }));
    v.push(asks("inline_value_refresh".into(), "workspace/inlineValue/refresh", p.clone(), null(), |c| async move { c.inline_value_refresh().await }));
    v.push(asks("inlay_hint_refresh".into(), "workspace/inlayHint/refresh", p.clone(), null(), |c| async move { c.inlay_hint_refresh().await }));
    v.push(asks("workspace_diagnostic_refresh".into(), "workspace/diagnostic/refresh", p.clone(), null(), |c| async move { c.workspace_diagnostic_refresh().await }));
    let range = json!({"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 1}});
    let diag = || {
        let mut d = Diagnostic::new_simple(Range::new(Position::new(0, 0), Position::new(0, 1)), "é".into());
        d.severity = Some(DiagnosticSeverity::WARNING);
        d.source = Some("s".into());
        d
    };
    let dj = json!({"range": range, "severity": 2, "source": "s", "message": "é"});
    for n in 0..3usize {
        for version in [None, Some(0), Some(-1), Some(i32::MAX)] {
            let mut p = json!({"uri": "file:///a%20b", "diagnostics": vec![dj.clone(); n]});
            if let Some(x) = version {
                p["version"] = json!(x);
            }
            v.push(notification(
                format!("publish_diagnostics {n} {version:?}"), "textDocument/publishDiagnostics", p,
                move |c| async move {
                    c.publish_diagnostics(url("file:///a%20b"), vec![diag(); n], version).await
                },
            ));
        }
    }
    let items = vec![
        (vec![], json!([])),
        (
            vec![
                ConfigurationItem { scope_uri: None, section: None },
                ConfigurationItem { scope_uri: Some(url("file:///s")), section: Some("a.b".into()) },
                ConfigurationItem { scope_uri: None, section: Some("".into()) },
            ],
            json!([{}, {"scopeUri": "file:///s", "section": "a.b"}, {"section": ""}]),
        ),
    ];
    for (i, j) in items {
        v.push(asks(
            format!("configuration {j}"), "workspace/configuration", json!({ "items": j }),
            same(vec![json!([]), json!([null]), json!([1, {"a": []}, "x"])]),
            move |c| { let i = i.clone(); async move { c.configuration(i).await } },
        ));
    }
    v.push(asks(
        "workspace_folders".into(), "workspace/workspaceFolders", p,
        same(vec![Value::Null, json!([]), json!([{"uri": "file:///w", "name": "n"}, {"uri": "file:///x", "name": ""}])]),
        |c| async move { c.workspace_folders().await },
    ));
    let edits = vec![
        (WorkspaceEdit::default(), json!({})),
        (
            WorkspaceEdit::new([(url("file:///e"), vec![TextEdit::new(Range::new(Position::new(0, 0), Position::new(0, 1)), "n".into())])].into()),
            json!({"changes": {"file:///e": [{"range": range, "newText": "n"}]}}),
        ),
    ];
    for (e, j) in edits {
        v.push(asks(
            format!("apply_edit {j}"), "workspace/applyEdit", json!({ "edit": j }),
            same(vec![json!({"applied": true}), json!({"applied": false, "failureReason": "f", "failedChange": 3})]),
            move |c| { let e = e.clone(); async move { c.apply_edit(e).await } },
        ));
    }
    for d in [json!(null), json!(1), json!("x"), json!([null, {"jsonrpc": "2.0"}]), json!({"id": 1, "method": "m"})] {
        let (a, b) = (d.clone(), d.clone());
        v.push(notification(
            format!("send_notification {d}"), "c/not", d.clone(),
            move |c| { let d = a.clone(); async move { c.send_notification::<CNot>(d).await } },
        ));
        v.push(asks(
            format!("send_request {d}"), "c/req", d.clone(),
            same(vec![Value::Null, json!(0), json!([1]), json!({"result": {"error": null}}), json!("x"), json!(false)]),
            move |c| { let d = b.clone(); async move { c.send_request::<CReq>(d).await } },
        ));
    }
    v
}

fn client_errors() -> Vec<Error> {
    vec![
        Error::internal_error(),
        Error::method_not_found(),
        Error::parse_error(),
        Error::request_cancelled(),
        Error { code: ErrorCode::ServerError(-32002), message: "é".into(), data: None },
        Error { code: ErrorCode::ServerError(0), message: "".into(), data: Some(Value::Null) },
        Error { code: ErrorCode::ServerError(i64::MIN), message: "m".into(), data: Some(json!({"a": [1]})) },
    ]
}

/// The members that are not there count as null.
fn params_equal(sent: Option<&Value>, want: &Value) -> bool {
    sent.unwrap_or(&Value::Null) == want
}

fn run_use(u: &Use, before: u32) {
    let (_svc, mut socket, client) = initialized();
    for _ in 0..before {
        client.next_request_id();
    }
    let n_good = u.good.as_ref().map_or(0, |g| g.len());
    let bad: Vec<Value> = match &u.good {
        // What is accepted by the type of the result is not bad.
        Some(g) => candidates().into_iter().filter(|c| !g.iter().any(|(a, _)| a == c) && !accepts(u.method, c)).collect(),
        None => vec![],
    };
    let errors = if u.good.is_some() { client_errors() } else { vec![] };
    let k = pick("answer", (n_good + bad.len() + errors.len()).max(1));
    // The message may be taken while the call is polled, or only after it was polled again.
    let late = choose("poll again", 2) == 1;
    let mut t = Task::new((u.call)(client.clone()));
    let mut done = t.poll();
    if late && done.is_none() {
        done = t.poll();
    }
    let msg = receive(&mut socket);
    step(&format!("{} sends {:?}", u.what, msg));
    let Some(msg) = msg else {
        return check!(false, T, "no-message", "{} sends nothing", u.what);
    };
    check!(
        msg.method() == u.method && params_equal(msg.params(), &u.params),
        T, "message", "{} sends {msg}, not {} with {}", u.what, u.method, u.params
    );
    check!(
        msg.id().is_some() == u.good.is_some(),
        T, "kind", "{} sends {msg}", u.what
    );
    let want: Option<Outcome> = match (&u.good, msg.id()) {
        (Some(g), Some(id)) => {
            check!(done.is_none(), T, "early", "{} completed before it was answered", u.what);
            let (r, want) = if k < g.len() {
                (Response::from_ok(id.clone(), g[k].0.clone()), Some(Ok(g[k].1.clone())))
            } else if k < g.len() + bad.len() {
                (Response::from_ok(id.clone(), bad[k - g.len()].clone()), None)
            } else {
                let e = errors[k - g.len() - bad.len()].clone();
                (Response::from_error(id.clone(), e.clone()), Some(Err(e)))
            };
            step(&format!("answer {r:?}"));
            check!(answer(&mut socket, r), T, "answer", "the answer to {} was not accepted", u.what);
            want
        }
        _ => Some(Ok(Value::Null)),
    };
    while done.is_none() && t.ready() {
        done = t.poll();
    }
    step(&format!("outcome {done:?}"));
    match (&done, &want) {
        (None, _) => check!(false, T, "stuck", "{} does not complete", u.what),
        (Some(d), Some(w)) => check!(d == w, T, "outcome", "{} completed with {d:?}, not {w:?}", u.what),
        (Some(d), None) => check!(
            matches!(d, Err(e) if e.code == ErrorCode::ParseError),
            T, "outcome", "{} was answered with the wrong type but completed with {d:?}", u.what
        ),
    }
    let more = receive(&mut socket);
    check!(more.is_none(), T, "messages", "{} also sends {more:?}", u.what);
}

/// Whether the type of the result of a method accepts a value.
fn accepts(method: &str, v: &Value) -> bool {
    fn is<T: serde::de::DeserializeOwned>(v: &Value) -> bool {
        serde_json::from_value::<T>(v.clone()).is_ok()
    }
    match method {
        "window/showMessageRequest" => is::<Option<MessageActionItem>>(v),
        "window/showDocument" => is::<ShowDocumentResult>(v),
        "workspace/configuration" => is::<Vec<Value>>(v),
        "workspace/workspaceFolders" => is::<Option<Vec<WorkspaceFolder>>>(v),
        "workspace/applyEdit" => is::<ApplyWorkspaceEditResponse>(v),
        "c/req" => true,
        _ => v.is_null(),
    }
}

fn group(name: &str, n: usize, text: &str, run: impl Fn(usize) + Send + Sync + 'static) -> Group {
    let text = text.to_string();
    Group {
        also: &[],
        name: name.into(),
        scenarios: n,
        bound: None,
        isolate: false,
        data: None,
        describe: Box::new(move |i| format!("{text} [{i}]")),
        run: Box::new(run),
    }
}

/// C21.
pub fn client(d: u32) -> Vec<Group> {
    let us = Rc::new(uses()).len();
    let all = std::sync::Arc::new(uses());
    let mut v = vec![];
    let a = all.clone();
    v.push(group("client methods", us, "every use of the client handle with every kind of answer", move |i| {
        run_use(&a[i], 0);
    }));
    if d > 0 {
        let a = all.clone();
        v.push(group("client methods, later", us, "the same after other requests", move |i| {
            run_use(&a[i], [1, 255, 1000][pick("before", 3)]);
        }));
    }
    // Two requests at once, answered in either order, with results that would suit the other.
    let a = all;
    let asks: Vec<usize> = (0..us).filter(|i| a[*i].good.is_some()).collect();
    // One use of each method is enough here.
    let mut asks_once: Vec<usize> = vec![];
    for i in asks {
        if d > 0 || !asks_once.iter().any(|j| a[*j].method == a[i].method) {
            asks_once.push(i);
        }
    }
    v.push(group("pairs of client requests", asks_once.len(), "two requests at once", move |i| {
        let u = [&a[asks_once[i]], &a[asks_once[pick("second", asks_once.len())]]];
        let (_svc, mut socket, client) = initialized();
        let mut ids = vec![];
        let mut tasks: Vec<Task<Outcome>> = u.iter().map(|u| Task::new((u.call)(client.clone()))).collect();
        for i in 0..2 {
            tasks[i].poll();
            let m = receive(&mut socket);
            step(&format!("{} sends {m:?}", u[i].what));
            match m.and_then(|m| m.id().cloned()) {
                Some(id) => ids.push(id),
                None => return check!(false, T, "no-message", "{} sends no request", u[i].what),
            }
        }
        let first = pick("answered first", 2);
        let fail = pick("error", 2) == 1;
        for i in [first, 1 - first] {
            let (r, want) = if fail && i == first {
                (Err(Error::content_modified()), Err(Error::content_modified()))
            } else {
                let (r, want) = u[i].good.as_ref().unwrap().last().unwrap().clone();
                (Ok(r), Ok(want))
            };
            check!(answer(&mut socket, Response::from_parts(ids[i].clone(), r)), T, "answer", "not accepted");
            let mut done = None;
            while done.is_none() && tasks[i].ready() {
                done = tasks[i].poll();
            }
            check!(done.as_ref() == Some(&want), T, "outcome", "{} completed with {done:?}, not {want:?}", u[i].what);
        }
    }));
    v
}

// ---------------------------------------------------------------------------------------------

const P: &[&str] = &["C22"];

enum Building {
    Un(Progress<Unbounded, NotCancellable>),
    Uc(Progress<Unbounded, Cancellable>),
    Bn(Progress<Bounded, NotCancellable>),
    Bc(Progress<Bounded, Cancellable>),
}

enum Going {
    Un(OngoingProgress<Unbounded, NotCancellable>),
    Uc(OngoingProgress<Unbounded, Cancellable>),
    Bn(OngoingProgress<Bounded, NotCancellable>),
    Bc(OngoingProgress<Bounded, Cancellable>),
}

#[derive(Clone, Debug)]
enum Build {
    Percentage(u32),
    Cancel,
    Message(&'static str),
}

#[derive(Clone, Debug)]
enum Step {
    /// report(), with these arguments where the stream has them.
    Report(Option<&'static str>, u32, Option<bool>),
    Unbounded,
    Finish(Option<&'static str>),
}

impl Building {
    fn apply(self, b: &Build) -> Building {
        match (self, b) {
            (Building::Un(p), Build::Percentage(n)) => Building::Bn(p.with_percentage(*n)),
            (Building::Uc(p), Build::Percentage(n)) => Building::Bc(p.with_percentage(*n)),
            (Building::Un(p), Build::Cancel) => Building::Uc(p.with_cancel_button()),
            (Building::Bn(p), Build::Cancel) => Building::Bc(p.with_cancel_button()),
            (Building::Un(p), Build::Message(m)) => Building::Un(p.with_message(*m)),
            (Building::Uc(p), Build::Message(m)) => Building::Uc(p.with_message(m.to_string())),
            (Building::Bn(p), Build::Message(m)) => Building::Bn(p.with_message(*m)),
            (Building::Bc(p), Build::Message(m)) => Building::Bc(p.with_message(*m)),
            _ => unreachable!("harness: no such builder"),
        }
    }
    async fn begin(self) -> Going {
        match self {
            Building::Un(p) => Going::Un(p.begin().await),
            Building::Uc(p) => Going::Uc(p.begin().await),
            Building::Bn(p) => Going::Bn(p.begin().await),
            Building::Bc(p) => Going::Bc(p.begin().await),
        }
    }
}

impl Going {
    async fn apply(self, s: &Step) -> Option<Going> {
        match (&self, s) {
            (Going::Un(p), Step::Report(m, _, _)) => p.report(m.unwrap()).await,
            (Going::Uc(p), Step::Report(None, _, c)) => p.report(c.unwrap()).await,
            (Going::Uc(p), Step::Report(Some(m), _, c)) => p.report_with_message(*m, *c).await,
            (Going::Bn(p), Step::Report(None, n, _)) => p.report(*n).await,
            (Going::Bn(p), Step::Report(Some(m), n, _)) => p.report_with_message(*m, *n).await,
            (Going::Bc(p), Step::Report(None, n, c)) => p.report(*n, *c).await,
            (Going::Bc(p), Step::Report(Some(m), n, c)) => p.report_with_message(m.to_string(), *n, *c).await,
            (_, Step::Unbounded) => {
                return Some(match self {
                    Going::Bn(p) => Going::Un(p.into_unbounded()),
                    Going::Bc(p) => Going::Uc(p.into_unbounded()),
                    _ => unreachable!("harness: already unbounded"),
                })
            }
            (_, Step::Finish(m)) => {
                match (self, m) {
                    (Going::Un(p), None) => p.finish().await,
                    (Going::Uc(p), None) => p.finish().await,
                    (Going::Bn(p), None) => p.finish().await,
                    (Going::Bc(p), None) => p.finish().await,
                    (Going::Un(p), Some(m)) => p.finish_with_message(*m).await,
                    (Going::Uc(p), Some(m)) => p.finish_with_message(*m).await,
                    (Going::Bn(p), Some(m)) => p.finish_with_message(m.to_string()).await,
                    (Going::Bc(p), Some(m)) => p.finish_with_message(*m).await,
                }
                return None;
            }
        }
        Some(self)
    }
    fn token(&self) -> &ProgressToken {
        match self {
            Going::Un(p) => p.token(),
            Going::Uc(p) => p.token(),
            Going::Bn(p) => p.token(),
            Going::Bc(p) => p.token(),
        }
    }
}

/// A whole stream, and what the client is to receive.
#[derive(Clone, Debug)]
struct Plan {
    token: ProgressToken,
    title: &'static str,
    build: Vec<Build>,
    steps: Vec<Step>,
    want: Vec<Value>,
}

const PERCENT: [u32; 4] = [0, 100, 57, u32::MAX];

/// Draws a stream: all builder calls and all steps up to a number.
fn draw(token: ProgressToken, title: &'static str, builds: usize, reports: usize, rich: bool) -> Plan {
    let mut plan = Plan { token, title, build: vec![], steps: vec![], want: vec![] };
    let (mut bounded, mut cancellable, mut message) = (None, false, None);
    let texts: &[&'static str] = if rich { &["m", "", "é\u{1F600}\"\n"] } else { &["m"] };
    let percent = if rich { &PERCENT[..] } else { &PERCENT[1..3] };
    for _ in 0..builds {
        let mut c = vec![None];
        if bounded.is_none() {
            c.extend(percent.iter().map(|n| Some(Build::Percentage(*n))));
        }
        if !cancellable {
            c.push(Some(Build::Cancel));
        }
        c.extend(texts.iter().map(|m| Some(Build::Message(m))));
        // A second message replaces the first.
        if message.is_some() {
            c.push(Some(Build::Message("second")));
        }
        let Some(b) = c[pick("builder", c.len())].clone() else { break };
        match &b {
            Build::Percentage(n) => bounded = Some(*n),
            Build::Cancel => cancellable = true,
            Build::Message(m) => message = Some(*m),
        }
        plan.build.push(b);
    }
    let mut begin = json!({"kind": "begin", "title": title, "cancellable": cancellable});
    if let Some(n) = bounded {
        begin["percentage"] = json!(n);
    }
    if let Some(m) = message {
        begin["message"] = json!(m);
    }
    plan.want.push(begin);
    let mut bounded = bounded.is_some();
    let btns = [None, Some(true), Some(false)];
    for _ in 0..reports {
        let mut c: Vec<Option<Step>> = vec![None];
        match (bounded, cancellable) {
            (false, false) => c.extend(texts.iter().map(|m| Some(Step::Report(Some(m), 0, None)))),
            (false, true) => {
                c.extend([true, false].map(|b| Some(Step::Report(None, 0, Some(b)))));
                for m in texts {
                    c.extend(btns.map(|b| Some(Step::Report(Some(m), 0, b))));
                }
            }
            (true, false) => {
                for n in percent {
                    c.push(Some(Step::Report(None, *n, None)));
                    c.extend(texts.iter().map(|m| Some(Step::Report(Some(m), *n, None))));
                }
            }
            (true, true) => {
                for n in percent {
                    c.extend(btns.map(|b| Some(Step::Report(None, *n, b))));
                    for m in texts {
                        c.extend(btns.map(|b| Some(Step::Report(Some(m), *n, b))));
                    }
                }
            }
        }
        if bounded {
            c.push(Some(Step::Unbounded));
        }
        let Some(s) = c[pick("report", c.len())].clone() else { break };
        match &s {
            Step::Report(m, n, b) => {
                let mut r = json!({"kind": "report"});
                if let Some(m) = m {
                    r["message"] = json!(m);
                }
                if bounded {
                    r["percentage"] = json!(n);
                }
                if let (Some(b), true) = (b, cancellable) {
                    r["cancellable"] = json!(b);
                }
                plan.want.push(r);
            }
            Step::Unbounded => bounded = false,
            Step::Finish(_) => {}
        }
        plan.steps.push(s);
    }
    let ends: &[Option<Option<&'static str>>] = &[Some(None), Some(Some("end")), Some(Some("")), None];
    if let Some(m) = ends[pick("end", if rich { 4 } else { 2 })] {
        let mut e = json!({"kind": "end"});
        if let Some(m) = m {
            e["message"] = json!(m);
        }
        plan.want.push(e);
        plan.steps.push(Step::Finish(m));
    }
    plan
}

type Tokens = Rc<RefCell<Vec<ProgressToken>>>;

async fn drive(client: Client, plan: Plan, tokens: Tokens) {
    let mut b = Building::Un(client.progress(plan.token.clone(), plan.title));
    for x in &plan.build {
        b = b.apply(x);
    }
    let mut g = b.begin().await;
    tokens.borrow_mut().push(g.token().clone());
    for s in &plan.steps {
        match g.apply(s).await {
            Some(n) => g = n,
            None => return,
        }
        tokens.borrow_mut().push(g.token().clone());
    }
}

fn token_value(t: &ProgressToken) -> Value {
    match t {
        NumberOrString::Number(n) => json!(n),
        NumberOrString::String(s) => json!(s),
    }
}

/// Runs the streams, interleaved in every way, and compares what arrives.
fn run_plans(plans: Vec<Plan>, free: bool) {
    for p in &plans {
        step(&format!("{p:?}"));
    }
    let (_svc, mut socket, client) = initialized();
    let tokens: Vec<Tokens> = plans.iter().map(|_| Tokens::default()).collect();
    let mut tasks: Vec<Task<()>> = plans
        .iter()
        .zip(&tokens)
        .map(|(p, t)| Task::new(drive(client.clone(), p.clone(), t.clone())))
        .collect();
    let mut got: Vec<Vec<Value>> = plans.iter().map(|_| vec![]).collect();
    let mut arrived = |socket: &mut ClientSocket| {
        let Some(m) = receive(socket) else { return false };
        step(&format!("receive {m}"));
        let p = m.params().cloned().unwrap_or_default();
        check!(
            m.method() == "$/progress" && m.id().is_none() && p.as_object().is_some_and(|o| o.len() == 2),
            P, "message", "the client receives {m}"
        );
        match plans.iter().position(|x| token_value(&x.token) == p["token"]) {
            Some(i) => got[i].push(p["value"].clone()),
            None => check!(false, P, "token", "the client receives {m}, whose token is unknown"),
        }
        true
    };
    loop {
        let mut ready: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].ready()).collect();
        if ready.is_empty() {
            if arrived(&mut socket) {
                continue;
            }
            break;
        }
        let n = ready.len();
        // Receiving before every task ran is a choice.
        let k = if free { pick("run", n + 1) } else { 0 };
        if k == n {
            if !arrived(&mut socket) {
                // Nothing was there: the same as running the first.
                let i = ready.remove(0);
                tasks[i].poll();
            }
        } else {
            tasks[ready[k]].poll();
        }
    }
    for (i, t) in tasks.iter().enumerate() {
        check!(!t.live(), P, "stuck", "stream {i} does not complete");
        check!(got[i] == plans[i].want, P, "stream", "stream {i} arrived as {:?}, not {:?}", got[i], plans[i].want);
        let ok = tokens[i].borrow().iter().all(|t| *t == plans[i].token);
        check!(ok, P, "token", "stream {i} has the tokens {:?}", tokens[i].borrow());
    }
}

/// C22.
pub fn progress(d: u32) -> Vec<Group> {
    let tokens: Vec<ProgressToken> = vec![
        NumberOrString::Number(0),
        NumberOrString::Number(i32::MIN),
        NumberOrString::String("".into()),
        NumberOrString::String("0".into()),
        NumberOrString::String("é\"\n".into()),
    ];
    let titles = ["t", "", "é\u{1F600}\"\n", "Content-Length: 2\r\n\r\n{}"];
    let mut v = vec![];
    let ts = tokens.clone();
    v.push(group("progress values", ts.len() * titles.len(), "every builder chain and one report, with every kind of text", move |i| {
        let p = draw(ts[i / titles.len()].clone(), titles[i % titles.len()], if d > 0 { 3 } else { 2 }, 1, true);
        run_plans(vec![p], false);
    }));
    let n = [2, 3, 4, 5][d.min(3) as usize];
    v.push(group(&format!("progress sequences of {n}"), 1, "every builder chain and every sequence of reports", move |_| {
        let p = draw(NumberOrString::Number(1), "t", 4, n, false);
        run_plans(vec![p], false);
    }));
    let (b, n) = [(0, 1), (0, 2), (1, 1), (1, 2)][d.min(3) as usize];
    v.push(group(&format!("two progress streams of {n}"), 1, "two streams interleaved in every way", move |_| {
        let a = draw(NumberOrString::Number(1), "a", b, n, false);
        let b = draw(NumberOrString::String("1".into()), "b", b, n, false);
        run_plans(vec![a, b], true);
    }));
    v
}

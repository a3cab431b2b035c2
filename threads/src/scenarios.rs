//! What is run by several threads, and how each execution is judged.

use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use futures::channel::mpsc;
use futures::{FutureExt, SinkExt, StreamExt};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, Id, Request, Response, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, LanguageServer, LspService};

use crate::sched::*;

/// A gate that a handler waits at. Its state is plain data: it adds no scheduling points that are
/// not those of wakers.
#[derive(Default)]
struct GateState {
    open: bool,
    waker: Option<Waker>,
}
static GATES: Racy<Option<BTreeMap<u32, GateState>>> = Racy::new(None);

fn gate<R>(n: u32, f: impl FnOnce(&mut GateState) -> R) -> R {
    GATES.with(|g| f(g.get_or_insert_with(BTreeMap::new).entry(n).or_default()))
}

struct Gate(u32);
impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let waker = cx.waker().clone();
        let (open, old) = gate(self.0, |g| (g.open, g.waker.replace(waker)));
        drop(old);
        if open {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

fn open(n: u32) {
    let waker = gate(n, |g| {
        g.open = true;
        g.waker.take()
    });
    if let Some(w) = waker {
        w.wake();
    }
}

/// Logs when it is polled first, polled again, finished and dropped before that.
struct Watch<F> {
    name: String,
    polls: u32,
    done: bool,
    inner: Pin<Box<F>>,
}
impl<F: Future> Future for Watch<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.polls += 1;
        log(format!("{} {}", self.name, if self.polls == 1 { "starts" } else { "continues" }));
        match self.inner.as_mut().poll(cx) {
            Poll::Ready(r) => {
                self.done = true;
                log(format!("{} finishes", self.name));
                Poll::Ready(r)
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
impl<F> Drop for Watch<F> {
    fn drop(&mut self) {
        if !self.done && self.polls > 0 {
            log(format!("{} dropped", self.name));
        }
    }
}
fn watch<F: Future>(name: String, f: F) -> Watch<F> {
    Watch { name, polls: 0, done: false, inner: Box::pin(f) }
}

struct Mock {
    client: Client,
}

/// What the n-th initialize does: a gate to wait at first, and whether it succeeds.
static INITS: Racy<Vec<(Option<u32>, bool)>> = Racy::new(Vec::new());
static INIT_NO: Racy<usize> = Racy::new(0);

#[tower_lsp::async_trait]
impl LanguageServer for Mock {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        let n = INIT_NO.with(|n| {
            *n += 1;
            *n
        });
        let (g, ok) = INITS.with(|i| i.get(n - 1).copied().unwrap_or((None, true)));
        watch(format!("initialize#{n}"), async move {
            if let Some(g) = g {
                Gate(g).await;
            }
            if ok {
                Ok(InitializeResult::default())
            } else {
                Err(Error::content_modified())
            }
        })
        .await
    }
    async fn shutdown(&self) -> Result<()> {
        watch("shutdown".into(), async { Ok(()) }).await
    }
}

impl Mock {
    /// `[name, gate]`: logs under the name and waits at the gate, if any; results in the name.
    async fn run(&self, (name, g): (String, Option<u32>)) -> Result<String> {
        let result = name.clone();
        watch(name, async move {
            if let Some(g) = g {
                Gate(g).await;
            }
            Ok(result)
        })
        .await
    }
    async fn tell(&self, (name,): (String,)) {
        watch(name, async {}).await
    }
    async fn ask(&self, v: Value) -> Result<Value> {
        self.client.send_request::<Ask>(v).await
    }
}

enum Ask {}
impl request::Request for Ask {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "ask";
}
enum Note {}
impl notification::Notification for Note {
    type Params = Value;
    const METHOD: &'static str = "note";
}

fn server() -> (LspService<Mock>, ClientSocket, Client) {
    GATES.with(|g| *g = None);
    INIT_NO.with(|n| *n = 0);
    INITS.with(|i| i.clear());
    let mut handle = None;
    let (service, socket) = LspService::build(|client| {
        handle = Some(client.clone());
        Mock { client }
    })
    .custom_method("run", Mock::run)
    .custom_method("tell", Mock::tell)
    .custom_method("ask", Mock::ask)
    .finish();
    (service, socket, handle.unwrap())
}

fn initialized() -> (LspService<Mock>, ClientSocket, Client) {
    let (mut service, socket, client) = server();
    let res = block_now(service.call(initialize(1000)));
    assert!(res.unwrap().unwrap().is_ok());
    INIT_NO.with(|n| *n = 0);
    (service, socket, client)
}

fn block_now<F: Future>(f: F) -> F::Output {
    poll_once(&mut Box::pin(f)).expect("ready at once")
}

fn initialize(id: i64) -> Request {
    Request::build("initialize").params(json!({"capabilities": {}})).id(id).finish()
}
fn run(name: &str, g: Option<u32>, id: i64) -> Request {
    Request::build("run").params(json!([[name, g]])[0].clone()).id(id).finish()
}
fn cancel(id: i64) -> Request {
    Request::build("$/cancelRequest").params(json!({ "id": id })).finish()
}
fn exit() -> Request {
    Request::build("exit").finish()
}
fn shutdown(id: i64) -> Request {
    Request::build("shutdown").id(id).finish()
}

/// A short name for what a call of the service ended with.
fn outcome(r: std::result::Result<Option<Response>, tower_lsp::ExitedError>) -> String {
    match r {
        Err(_) => "exited".into(),
        Ok(None) => "none".into(),
        Ok(Some(r)) => match (r.result(), r.error()) {
            (Some(v), _) => format!("ok {v}"),
            (_, Some(e)) => format!("error {}", e.code.code()),
            _ => unreachable!(),
        },
    }
}

/// Calls the service and runs the call to its end.
fn call(service: &mut LspService<Mock>, name: &str, req: Request) -> String {
    log(format!("{name}: call"));
    let ready = futures::future::poll_fn(|cx| service.poll_ready(cx)).now_or_never();
    let r = match ready {
        Some(Err(_)) => "exited".to_string(),
        _ => outcome(block_on(service.call(req))),
    };
    log(format!("{name}: {r}"));
    r
}

/// Calls the service and polls the call once; the rest of it stays behind.
fn begin(service: &mut LspService<Mock>, name: &str, req: Request) -> BoxFut {
    log(format!("{name}: call"));
    let mut fut: BoxFut = service.call(req);
    if let Some(r) = poll_once(&mut fut) {
        log(format!("{name}: {}", outcome(r)));
        fut = Box::pin(futures::future::pending());
    }
    fut
}

type BoxFut = Pin<Box<dyn Future<Output = std::result::Result<Option<Response>, tower_lsp::ExitedError>> + Send>>;

/// The record of an execution, for judging it.
struct Record(Vec<(i32, String)>);
impl Record {
    fn get() -> Self {
        Record(events())
    }
    fn at(&self, event: &str) -> Option<usize> {
        self.0.iter().position(|e| e.1 == event)
    }
    /// When and with what an operation ended.
    fn end(&self, name: &str) -> Option<(usize, &str)> {
        let prefix = format!("{name}: ");
        self.0.iter().enumerate().filter_map(|(i, e)| Some((i, e.1.strip_prefix(&prefix)?))).find(|e| e.1 != "call")
    }
    fn called(&self, name: &str) -> Option<usize> {
        self.at(&format!("{name}: call"))
    }
    fn result(&self, name: &str) -> &str {
        self.end(name).map_or("no result", |e| e.1)
    }
    fn before(&self, a: Option<usize>, b: Option<usize>) -> bool {
        matches!((a, b), (Some(a), Some(b)) if a < b)
    }
}

macro_rules! ensure {
    ($cond:expr, $($msg:tt)*) => { if !$cond { return Err(format!($($msg)*)); } }
}

/// A value handed from the threads to the judge.
struct Slot<T>(Arc<Racy<Option<T>>>);
impl<T> Clone for Slot<T> {
    fn clone(&self) -> Self {
        Slot(self.0.clone())
    }
}
impl<T> Slot<T> {
    fn new(t: Option<T>) -> Self {
        Slot(Arc::new(Racy::new(t)))
    }
    fn put(&self, t: T) {
        self.0.with(|s| *s = Some(t));
    }
    fn take(&self) -> T {
        self.0.with(|s| s.take()).expect("a value")
    }
    fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        self.0.with(|s| f(s.as_mut().expect("a value")))
    }
}

type Thread = Box<dyn FnOnce() + Send>;

fn scenario(name: impl Into<String>, props: &'static [&'static str], build: impl Fn() -> Run + 'static) -> Scenario {
    Scenario { name: name.into(), props, build: Arc::new(build) }
}

pub fn all() -> Vec<Scenario> {
    let mut v = vec![];
    ids(&mut v);
    init(&mut v);
    cancels(&mut v);
    exits(&mut v);
    shutdowns(&mut v);
    answers(&mut v);
    messages(&mut v);
    gates(&mut v);
    serves(&mut v);
    v
}

// ---------------------------------------------------------------- request ids

fn ids(v: &mut Vec<Scenario>) {
    // Each letter is what a thread does: d = draws an id, r = sends a typed request.
    for plan in [["dd", "dd", ""], ["dr", "rd", ""], ["rr", "r", ""], ["d", "d", "d"], ["r", "d", "r"], ["dd", "d", "dr"]] {
        v.push(scenario(format!("ids {plan:?}"), &["C18"], move || {
            let (service, socket, client) = initialized();
            let drawn = Slot::new(Some(Vec::<Id>::new()));
            let futs = Slot::new(Some(Vec::<Pin<Box<dyn Future<Output = Result<Value>> + Send>>>::new()));
            let mut threads: Vec<Thread> = vec![];
            for (t, ops) in plan.iter().enumerate().filter(|p| !p.1.is_empty()) {
                let (client, drawn, futs, ops) = (client.clone(), drawn.clone(), futs.clone(), ops.to_string());
                threads.push(Box::new(move || {
                    for op in ops.chars() {
                        if op == 'd' {
                            let id = client.next_request_id();
                            log(format!("drew {id}"));
                            drawn.with(|d| d.push(id));
                        } else {
                            let client = client.clone();
                            let mut fut: Pin<Box<dyn Future<Output = Result<Value>> + Send>> =
                                Box::pin(async move { client.send_request::<Ask>(json!(t)).await });
                            let _ = poll_once(&mut fut);
                            futs.with(|f| f.push(fut));
                        }
                    }
                }));
            }
            let expected: usize = plan.iter().map(|p| p.len()).sum();
            Run {
                threads,
                check: Box::new(move || {
                    let _keep = service;
                    let mut ids = drawn.take();
                    let mut socket = socket;
                    while let Some(Some(m)) = socket.next().now_or_never() {
                        log(format!("sent {m}"));
                        ids.push(m.id().cloned().ok_or("a request without an id")?);
                    }
                    ensure!(ids.len() == expected, "{} of {expected} ids are there", ids.len());
                    for (i, id) in ids.iter().enumerate() {
                        ensure!(!ids[..i].contains(id), "the id {id} is used twice");
                    }
                    Ok(())
                }),
            }
        }));
    }
}

// ---------------------------------------------------------------- initialize

fn init(v: &mut Vec<Scenario>) {
    for how in ["ok", "err", "drop"] {
        for polled in [true, false] {
            for script in ["i", "p", "e", "ie", "ip", "ep", "pi", "ii", "sp"] {
                v.push(scenario(
                    format!("initialize {how}, polled {polled}, while {script}"),
                    &["C07", "C08", "C09", "C10", "C11"],
                    move || init_run(how, polled, script),
                ));
            }
        }
    }
}

fn init_run(how: &'static str, polled: bool, script: &'static str) -> Run {
    let (mut service, _socket, client) = server();
    INITS.with(|i| i.extend([(polled.then_some(1), how != "err"), (None, true)]));
    let mut first = service.call(initialize(1));
    if polled {
        assert!(poll_once(&mut first).is_none());
        gate(1, |g| g.open = true);
    }
    let slot = Slot::new(Some(service));
    let back = slot.clone();
    let a: Thread = Box::new(move || {
        log("first: call");
        if how == "drop" {
            drop(first);
            log("first: dropped");
        } else {
            let r = outcome(block_on(first));
            log(format!("first: {r}"));
        }
    });
    let b: Thread = Box::new(move || {
        let mut service = slot.take();
        for (k, op) in script.chars().enumerate() {
            let name = format!("{op}{k}");
            let req = match op {
                'i' => initialize(10 + k as i64),
                'p' => run(&format!("probe{k}"), None, 20 + k as i64),
                's' => shutdown(30 + k as i64),
                _ => exit(),
            };
            call(&mut service, &name, req);
        }
        slot.put(service);
    });
    Run {
        threads: vec![a, b],
        check: Box::new(move || {
            let _client = client;
            let mut service = back.take();
            let r = Record::get();
            let first_ok = r.result("first").starts_with("ok");
            let mut exited = false;
            let mut second_ok = false;
            let mut down = false;
            for (k, op) in script.chars().enumerate() {
                let name = format!("{op}{k}");
                let res = r.result(&name);
                let after = r.before(r.end("first").map(|e| e.0), r.called(&name));
                if exited {
                    ensure!(res == "exited", "{name} after exit results in {res}");
                    continue;
                }
                match op {
                    'i' => {
                        let free = !first_ok && !second_ok && !down;
                        ensure!(res == "error -32600" || (free && res.starts_with("ok")), "{name} results in {res}");
                        ensure!(!(after && free) || res.starts_with("ok"), "{name}, after a failed attempt, results in {res}");
                        second_ok |= res.starts_with("ok");
                    }
                    'p' => {
                        let sure = (after && first_ok) || second_ok;
                        let never = !first_ok && !second_ok;
                        if down {
                            ensure!(res == "error -32600", "{name} after shutdown results in {res}");
                        } else {
                            ensure!(res == "error -32002" || res.starts_with("ok"), "{name} results in {res}");
                            ensure!(!sure || res.starts_with("ok"), "{name} on an initialized server results in {res}");
                            ensure!(!never || res == "error -32002", "{name} on an uninitialized server results in {res}");
                            let started = r.at(&format!("probe{k} starts")).is_some();
                            ensure!(started == res.starts_with("ok"), "{name} results in {res}, its handler ran: {started}");
                        }
                    }
                    's' => {
                        let sure = (after && first_ok) || second_ok;
                        ensure!(res == "error -32002" || (first_ok && res.starts_with("ok")), "{name} results in {res}");
                        ensure!(!sure || res.starts_with("ok"), "{name} on an initialized server results in {res}");
                        down |= res.starts_with("ok");
                    }
                    _ => exited = true,
                }
            }
            match (how, r.result("first")) {
                ("ok", s) => ensure!(s.starts_with("ok") || (exited && s == "error -32800"), "the first initialize results in {s}"),
                ("err", s) => ensure!(s == "error -32801" || (exited && s == "error -32800"), "the first initialize results in {s}"),
                (_, s) => ensure!(s == "dropped", "the first initialize results in {s}"),
            }
            ensure!(!(first_ok && second_ok), "two initialize requests succeeded");
            let ran = (1..9).filter(|n| r.at(&format!("initialize#{n} starts")).is_some()).count();
            let expect_ran = 1 + second_ok as usize;
            ensure!(ran <= expect_ran, "initialize ran {ran} times");
            let mut count = 0;
            for k in 0..3 {
                count += r.0.iter().filter(|e| e.1 == format!("probe{k} starts")).count();
            }
            ensure!(count <= script.len(), "handlers ran too often");
            // The state the server is left in.
            let last = call(&mut service, "last probe", run("last", None, 50));
            if exited {
                ensure!(last == "exited", "after exit, a request results in {last}");
                let last = outcome(block_on(service.call(initialize(51))));
                ensure!(last == "exited", "after exit, initialize results in {last}");
            } else if down {
                ensure!(last == "error -32600", "after shutdown, a request results in {last}");
            } else if first_ok || second_ok {
                ensure!(last == "ok \"last\"", "after initialization, a request results in {last}");
                let last = call(&mut service, "last initialize", initialize(51));
                ensure!(last == "error -32600", "after initialization, initialize results in {last}");
            } else {
                ensure!(last == "error -32002", "without initialization, a request results in {last}");
                let last = call(&mut service, "last initialize", initialize(51));
                ensure!(last.starts_with("ok"), "after failed attempts, initialize results in {last}");
                let last = call(&mut service, "last probe again", run("last", None, 52));
                ensure!(last == "ok \"last\"", "after initialization, a request results in {last}");
            }
            Ok(())
        }),
    }
}

// ---------------------------------------------------------------- cancellation

fn cancels(v: &mut Vec<Scenario>) {
    // The request may be waiting at a gate that is open, opened by a third thread, or never opened.
    // c = cancel it, C = cancel another id, r = a request with the same id which finishes at once,
    // g = one that stays in progress, o = one with another id.
    for how in ["open", "opened", "closed"] {
        for script in ["c", "C", "r", "cr", "cc", "cg", "cgr", "cgc", "ro", "gC", "co"] {
            if how == "closed" && !script.contains('c') {
                continue;
            }
            if how == "opened" && script.len() > 2 {
                continue; // Covered by `open`, and expensive with three threads.
            }
            for polled in [true, false] {
                v.push(scenario(
                    format!("request {how}, polled {polled}, while {script}"),
                    &["C11", "C12", "C13"],
                    move || cancel_run(how, polled, script),
                ));
            }
        }
    }
}

fn cancel_run(how: &'static str, polled: bool, script: &'static str) -> Run {
    let (mut service, _socket, client) = initialized();
    let mut first = service.call(run("first", Some(1), 1));
    if polled {
        assert!(poll_once(&mut first).is_none());
    }
    if how == "open" {
        gate(1, |g| g.open = true);
    }
    let slot = Slot::new(Some((service, Vec::<BoxFut>::new())));
    let back = slot.clone();
    let a: Thread = Box::new(move || {
        log("first: call");
        let r = outcome(block_on(first));
        log(format!("first: {r}"));
    });
    let b: Thread = Box::new(move || {
        let (mut service, mut kept) = slot.take();
        for (k, op) in script.chars().enumerate() {
            let name = format!("{op}{k}");
            match op {
                'c' => drop(call(&mut service, &name, cancel(1))),
                'C' => drop(call(&mut service, &name, cancel(2))),
                'r' => drop(call(&mut service, &name, run(&name, None, 1))),
                'o' => drop(call(&mut service, &name, run(&name, None, 2))),
                _ => kept.push(begin(&mut service, &name, run(&name, Some(9), 1))),
            }
        }
        slot.put((service, kept));
    });
    let mut threads = vec![a, b];
    if how == "opened" {
        threads.push(Box::new(|| open(1)));
    }
    Run {
        threads,
        check: Box::new(move || {
            let _client = client;
            let (mut service, mut kept) = back.take();
            let r = Record::get();
            let cancelled_first = r.result("first") == "error -32800";
            let may = script.starts_with('c') || (script.contains('c') && !script.contains('g'));
            ensure!(
                r.result("first") == "ok \"first\"" || (may && cancelled_first),
                "the first request results in {}",
                r.result("first")
            );
            if how == "closed" {
                ensure!(cancelled_first, "the first request results in {}", r.result("first"));
            }
            let first_end = r.end("first").map(|e| e.0);
            let mut cancel_end = None; // When the first request was certainly over due to cancellation.
            let mut holder: Option<String> = None; // The later request with this id that is in progress.
            for (k, op) in script.chars().enumerate() {
                let name = format!("{op}{k}");
                let res = r.result(&name);
                let called = r.called(&name);
                let ran = r.at(&format!("{name} starts")).is_some();
                match op {
                    'c' | 'C' => {
                        ensure!(res == "none", "{name} results in {res}");
                        if op == 'c' && cancel_end.is_none() {
                            cancel_end = r.end(&name).map(|e| e.0);
                        } else if op == 'c' && holder.is_some() {
                            // It was in progress: it has to be cancelled.
                            let fut = kept.last_mut().unwrap();
                            let res = poll_once(fut).map(outcome);
                            ensure!(
                                res.as_deref() == Some("error -32800"),
                                "the second request with the id was cancelled, but results in {res:?}"
                            );
                            holder = None;
                        }
                    }
                    'o' => ensure!(res == format!("ok {:?}", name), "{name} with another id results in {res}"),
                    'r' | 'g' => {
                        let free = r.before(cancel_end, called) || r.before(first_end, called);
                        if holder.is_some() {
                            ensure!(res == "error -32600" && !ran, "{name} with the id of a request in progress results in {res}, its handler ran: {ran}");
                            continue;
                        }
                        let accepted = ran && (op == 'g' || res == format!("ok {:?}", name));
                        let refused = res == "error -32600" && !ran;
                        ensure!(accepted || refused, "{name} results in {res}, its handler ran: {ran}");
                        ensure!(!free || accepted, "{name} with an id that is free results in {res}");
                        // Before it was answered and without cancellation, its id is taken until its handler is done.
                        let finished = r.at("first finishes");
                        let taken = cancel_end.map_or(true, |c| called.unwrap() < c) && !r.before(finished, r.end(&name).map(|e| e.0).or(r.at(&format!("{name} starts"))));
                        ensure!(!taken || refused, "{name} with the id of the first request in progress results in {res}");
                        if op == 'g' && accepted {
                            holder = Some(name.clone());
                        }
                    }
                    _ => unreachable!(),
                }
            }
            if let Some(name) = holder {
                // It is still in progress and protected by its id.
                let res = call(&mut service, "last duplicate", run("duplicate", None, 1));
                ensure!(res == "error -32600", "while {name} is in progress, a duplicate results in {res}");
                call(&mut service, "last cancel", cancel(1));
                let res = poll_once(kept.last_mut().unwrap()).map(outcome);
                ensure!(res.as_deref() == Some("error -32800"), "{name} was cancelled, but results in {res:?}");
            }
            if cancelled_first {
                ensure!(r.at("first finishes").is_none() || r.at("first finishes") < cancel_end, "the handler finishes after its cancellation");
            }
            let res = call(&mut service, "last", run("last", None, 1));
            ensure!(res == "ok \"last\"", "at the end, a request with the id results in {res}");
            Ok(())
        }),
    }
}

// ---------------------------------------------------------------- exit

fn exits(v: &mut Vec<Scenario>) {
    // What happens on other threads while exit is processed: h = a handler finishing, w = a handler
    // waiting for ever, q = a client request, n = a client notification, R = the transport receiving,
    // A = the transport receiving and answering.
    for others in ["h", "w", "q", "n", "R", "hq", "wq", "qR", "nR", "qA", "wR", "nnR", "qqR"] {
        v.push(scenario(format!("exit while {others}"), &["C10", "C11", "C15", "C19", "C20"], move || exit_run(others)));
    }
    for others in ["q", "qA"] {
        v.push(scenario(format!("the client hangs up while {others}"), &["C16", "C19"], move || close_run(others)));
    }
}

fn ask(client: &Client, name: String) {
    log(format!("{name}: call"));
    let r = match block_on(client.send_request::<Ask>(json!(name))) {
        Ok(v) => format!("ok {v}"),
        Err(e) => format!("error {}", e.code.code()),
    };
    log(format!("{name}: {r}"));
}

/// Receives messages until the stream ends and answers requests with their own params.
async fn transport<S, K>(mut requests: S, mut responses: Option<K>, limit: usize)
where
    S: futures::Stream<Item = Request> + Unpin,
    K: futures::Sink<Response> + Unpin,
{
    let mut n = 0;
    while n < limit {
        let Some(m) = requests.next().await else {
            log("the stream ends");
            break;
        };
        n += 1;
        log(format!("received {} {}", m.method(), m.params().cloned().unwrap_or_default()));
        if let (Some(id), Some(k)) = (m.id().cloned(), responses.as_mut()) {
            let ok = k.send(Response::from_ok(id, m.params().cloned().unwrap())).await.is_ok();
            log(format!("answered {}: {ok}", m.params().unwrap()));
        }
    }
}

fn exit_run(others: &'static str) -> Run {
    let (mut service, socket, client) = initialized();
    let (requests, responses) = socket.split();
    let mut socket = Some((requests, responses));
    let mut threads: Vec<Thread> = vec![];
    let mut receiving = false;
    for (k, op) in others.chars().enumerate() {
        let name = format!("{op}{k}");
        match op {
            'h' | 'w' => {
                let mut fut = service.call(run(&name, Some(k as u32), k as i64));
                assert!(poll_once(&mut fut).is_none());
                if op == 'h' {
                    gate(k as u32, |g| g.open = true);
                }
                threads.push(Box::new(move || {
                    log(format!("{name}: call"));
                    let r = outcome(block_on(fut));
                    log(format!("{name}: {r}"));
                }));
            }
            'q' => {
                let client = client.clone();
                threads.push(Box::new(move || ask(&client, name)));
            }
            'n' => {
                let client = client.clone();
                threads.push(Box::new(move || {
                    log(format!("{name}: call"));
                    block_on(client.send_notification::<Note>(json!(name)));
                    log(format!("{name}: none"));
                }));
            }
            _ => {
                receiving = true;
                let (requests, responses) = socket.take().unwrap();
                let responses = (op == 'A').then_some(responses);
                threads.push(Box::new(move || block_on(transport(requests, responses, 99))));
            }
        }
    }
    let slot = Slot::new(Some(service));
    let back = slot.clone();
    threads.push(Box::new(move || {
        let mut service = slot.take();
        log("exit: call");
        let r = outcome(block_on(service.call(exit())));
        log(format!("exit: {r}"));
        slot.put(service);
    }));
    Run {
        threads,
        check: Box::new(move || {
            let mut service = back.take();
            let r = Record::get();
            ensure!(r.result("exit") == "none", "exit results in {}", r.result("exit"));
            let exit_end = r.end("exit").map(|e| e.0);
            for (k, op) in others.chars().enumerate() {
                let name = format!("{op}{k}");
                let res = r.result(&name);
                match op {
                    'h' => {
                        ensure!(res == format!("ok {name:?}") || res == "error -32800", "{name} results in {res}");
                        let called = r.called(&name);
                        ensure!(!r.before(exit_end, called) || res == "error -32800", "{name}, continued after exit, results in {res}");
                        ensure!(!r.before(exit_end, called) || r.at(&format!("{name} continues")).is_none(), "{name} runs on after exit");
                    }
                    'w' => ensure!(res == "error -32800", "{name} results in {res}"),
                    'q' => {
                        let answered = r.at(&format!("answered {}: true", json!(name))).is_some();
                        ensure!(
                            res == "error -32603" || res == "error -32002" || (answered && res == format!("ok {}", json!(name))),
                            "{name} results in {res}"
                        );
                        if r.before(exit_end, r.called(&name)) {
                            ensure!(res == "error -32002", "{name}, after exit, results in {res}");
                        }
                    }
                    'n' => ensure!(res == "none", "{name} results in {res}"),
                    _ => {}
                }
                let received = format!("received {} {}", if op == 'q' { "ask" } else { "note" }, json!(name));
                let times = r.0.iter().filter(|e| e.1 == received).count();
                ensure!(times <= 1, "the client receives {name} {times} times");
                if times == 1 {
                    ensure!(!r.before(exit_end, r.called(&name)), "{name} is delivered though it was sent after exit");
                }
            }
            ensure!(!receiving || r.at("the stream ends").is_some(), "the stream of messages does not end");
            let last = call(&mut service, "last", run("last", None, 50));
            ensure!(last == "exited", "after exit, a request results in {last}");
            let last = outcome(block_on(service.call(initialize(51))));
            ensure!(last == "exited", "after exit, initialize results in {last}");
            if let Some((mut requests, mut responses)) = socket {
                let end = requests.next().now_or_never();
                ensure!(matches!(end, Some(None)), "the stream of messages does not end");
                ensure!(responses.send(Response::from_ok(1.into(), Value::Null)).now_or_never().map_or(true, |r| r.is_err()), "responses are accepted after exit");
            }
            let late = client.send_request::<Ask>(Value::Null).now_or_never();
            ensure!(matches!(late, Some(Err(_))), "after exit, a client request results in {late:?}");
            Ok(())
        }),
    }
}

/// The sink of responses is closed: no more answers are going to arrive.
fn close_run(others: &'static str) -> Run {
    let (service, socket, client) = initialized();
    let (requests, mut responses) = socket.split();
    let mut requests = Some(requests);
    let mut threads: Vec<Thread> = vec![];
    let (tx, mut rx) = mpsc::channel::<Response>(8);
    let mut answering = false;
    for (k, op) in others.chars().enumerate() {
        let name = format!("{op}{k}");
        if op == 'q' {
            let client = client.clone();
            threads.push(Box::new(move || ask(&client, name)));
        } else {
            answering = true;
            let (requests, mut tx) = (requests.take().unwrap(), tx.clone());
            threads.push(Box::new(move || {
                let mut requests = requests;
                block_on(async {
                    if let Some(m) = requests.next().await {
                        let _ = tx.try_send(Response::from_ok(m.id().cloned().unwrap(), m.params().cloned().unwrap()));
                        drop(tx);
                    }
                });
                log("transport done");
                keep(requests);
            }));
        }
    }
    drop(tx);
    threads.push(Box::new(move || {
        block_on(async {
            // Either one answer or, without a transport, none comes before the end of input.
            if answering {
                if let Some(r) = rx.next().await {
                    let _ = responses.send(r).await;
                    log("answered");
                }
            }
            log("close: call");
            let _ = responses.close().await;
            log("close: none");
        });
    }));
    Run {
        threads,
        check: Box::new(move || {
            let _keep = (service, client, requests);
            let r = Record::get();
            for (k, op) in others.chars().enumerate() {
                let name = format!("{op}{k}");
                if op == 'q' {
                    let res = r.result(&name);
                    if answering {
                        ensure!(res == format!("ok {}", json!(name)), "{name} was answered but results in {res}");
                    } else {
                        ensure!(res.starts_with("error"), "{name} results in {res}");
                    }
                }
            }
            Ok(())
        }),
    }
}

// ---------------------------------------------------------------- shutdown

fn shutdowns(v: &mut Vec<Scenario>) {
    for polled in [true, false] {
        for cancelled in [false, true] {
            v.push(scenario(
                format!("a request, polled {polled}, ends while shutdown, cancelled {cancelled}"),
                &["C09", "C11", "C12"],
                move || {
                    let (mut service, _socket, client) = initialized();
                    let mut first = service.call(run("first", Some(1), 1));
                    if polled {
                        assert!(poll_once(&mut first).is_none());
                    }
                    gate(1, |g| g.open = true);
                    let slot = Slot::new(Some(service));
                    let back = slot.clone();
                    Run {
                        threads: vec![
                            Box::new(move || {
                                log("first: call");
                                let r = outcome(block_on(first));
                                log(format!("first: {r}"));
                            }),
                            Box::new(move || {
                                let mut service = slot.take();
                                call(&mut service, "shutdown", shutdown(2));
                                if cancelled {
                                    call(&mut service, "cancel", cancel(1));
                                }
                                call(&mut service, "probe", run("probe", None, 3));
                                slot.put(service);
                            }),
                        ],
                        check: Box::new(move || {
                            let _keep = (back.take(), client);
                            let r = Record::get();
                            let res = r.result("first");
                            ensure!(res == "ok \"first\"" || (cancelled && res == "error -32800"), "the request in progress results in {res}");
                            ensure!(r.result("shutdown") == "ok null", "shutdown results in {}", r.result("shutdown"));
                            ensure!(r.result("probe") == "error -32600", "a request after shutdown results in {}", r.result("probe"));
                            ensure!(r.at("probe starts").is_none(), "a handler runs after shutdown");
                            Ok(())
                        }),
                    }
                },
            ));
        }
    }
}

// ---------------------------------------------------------------- answers of the client

fn answers(v: &mut Vec<Scenario>) {
    // Requests by different threads, answered in the order received, in the opposite order, or with
    // stray responses in between.
    for (senders, order) in [("1", "fifo"), ("1", "stray"), ("2", "fifo"), ("11", "fifo"), ("11", "lifo"), ("11", "stray"), ("21", "fifo")] {
        v.push(scenario(format!("answers {order} to {senders}"), &["C19", "C23", "C15"], move || {
            let (service, socket, client) = initialized();
            let mut threads: Vec<Thread> = vec![];
            let mut total = 0;
            for (t, n) in senders.chars().enumerate() {
                let n = n.to_digit(10).unwrap();
                total += n as usize;
                let client = client.clone();
                threads.push(Box::new(move || {
                    for i in 0..n {
                        ask(&client, format!("q{t}{i}"));
                    }
                }));
            }
            threads.push(Box::new(move || {
                let (mut requests, mut responses) = socket.split();
                block_on(async {
                    let mut held = vec![];
                    for _ in 0..total {
                        let m = requests.next().await.unwrap();
                        log(format!("received {}", m.params().unwrap()));
                        let (_, id, params) = m.into_parts();
                        let res = Response::from_ok(id.clone().unwrap(), params.unwrap());
                        if order == "stray" {
                            let n = match id.unwrap() {
                                Id::Number(n) => n,
                                _ => panic!("not a number"),
                            };
                            for stray in [Id::Null, Id::String(n.to_string()), Id::Number(n + 77)] {
                                responses.send(Response::from_ok(stray, json!("stray"))).await.unwrap();
                            }
                            responses.send(res.clone()).await.unwrap();
                            responses.send(Response::from_ok(res.id().clone(), json!("twice"))).await.unwrap();
                        } else if order == "lifo" {
                            held.push(res);
                        } else {
                            responses.send(res).await.unwrap();
                        }
                    }
                    while let Some(res) = held.pop() {
                        responses.send(res).await.unwrap();
                    }
                });
                keep((requests, responses));
            }));
            Run {
                threads,
                check: Box::new(move || {
                    let _keep = (service, client);
                    let r = Record::get();
                    for (t, n) in senders.chars().enumerate() {
                        for i in 0..n.to_digit(10).unwrap() {
                            let name = format!("q{t}{i}");
                            ensure!(r.result(&name) == format!("ok {}", json!(name)), "{name} results in {}", r.result(&name));
                        }
                    }
                    Ok(())
                }),
            }
        }));
    }
    // Two requests with one id, made by the user: each gets one of the two responses.
    v.push(scenario("two requests with one id", &["C19"], || {
        let (service, socket, client) = initialized();
        let mut threads: Vec<Thread> = vec![];
        for t in 0..2 {
            let mut client = client.clone();
            threads.push(Box::new(move || {
                let fut = client.call(Request::build("ask").params(json!([t])).id(5).finish());
                let r = block_on(fut).unwrap().unwrap();
                log(format!("{t}: {}", r.result().unwrap()));
            }));
        }
        threads.push(Box::new(move || {
            let (mut requests, mut responses) = socket.split();
            block_on(async {
                for i in 0..2 {
                    requests.next().await.unwrap();
                    responses.send(Response::from_ok(5.into(), json!(i))).await.unwrap();
                }
            });
            keep((requests, responses));
        }));
        Run {
            threads,
            check: Box::new(move || {
                let _keep = (service, client);
                let r = Record::get();
                let mut got = [r.result("0"), r.result("1")];
                got.sort();
                ensure!(got == ["0", "1"], "the responses are given to {got:?}");
                Ok(())
            }),
        }
    }));
    // A request whose caller goes away while it is answered.
    for order in ["drop", "drop first"] {
        v.push(scenario(format!("an abandoned request, {order}"), &["C19", "C23"], move || {
            let (service, socket, client) = initialized();
            let c = client.clone();
            let mut fut = Box::pin(async move { c.send_request::<Ask>(json!("gone")).await });
            assert!(poll_once(&mut fut).is_none());
            let fut: Pin<Box<dyn Future<Output = Result<Value>> + Send>> = fut;
            let other = client.clone();
            Run {
                threads: vec![
                    Box::new(move || {
                        drop(fut);
                        if order == "drop first" {
                            ask(&other, "stays".into());
                        }
                    }),
                    Box::new(move || {
                        let (mut requests, mut responses) = socket.split();
                        block_on(async {
                            for _ in 0..if order == "drop first" { 2 } else { 1 } {
                                let m = requests.next().await.unwrap();
                                let (_, id, params) = m.into_parts();
                                responses.send(Response::from_ok(id.unwrap(), params.unwrap())).await.unwrap();
                            }
                        });
                        keep((requests, responses));
                    }),
                ],
                check: Box::new(move || {
                    let _keep = (service, client);
                    let r = Record::get();
                    if order == "drop first" {
                        ensure!(r.result("stays") == "ok \"stays\"", "the other request results in {}", r.result("stays"));
                    }
                    Ok(())
                }),
            }
        }));
    }
}

// ---------------------------------------------------------------- messages to the client

fn messages(v: &mut Vec<Scenario>) {
    for plan in ["nn", "n,n", "nn,n", "nn,nn", "nnn,n", "n,n,n", "an,n"] {
        v.push(scenario(format!("messages {plan}"), &["C23", "C15"], move || {
            let (service, socket, client) = initialized();
            let mut threads: Vec<Thread> = vec![];
            let total: usize = plan.matches('n').count();
            let abandoned = plan.matches('a').count();
            for (t, ops) in plan.split(',').enumerate() {
                let client = client.clone();
                threads.push(Box::new(move || {
                    for (i, op) in ops.chars().enumerate() {
                        if op == 'a' {
                            // Sent, polled once and given up.
                            let mut fut = Box::pin(client.send_notification::<Note>(json!("abandoned")));
                            let _ = poll_once(&mut fut);
                        } else {
                            block_on(client.send_notification::<Note>(json!(format!("{t}.{i}"))));
                            log(format!("sent {t}.{i}"));
                        }
                    }
                }));
            }
            let last = Slot::new(None);
            let back = last.clone();
            threads.push(Box::new(move || {
                let mut socket = socket;
                block_on(async {
                    let mut n = 0;
                    while n < total {
                        let m = socket.next().await.expect("a message");
                        let p = m.params().unwrap().as_str().unwrap().to_string();
                        n += (p != "abandoned") as usize;
                        log(format!("received {p}"));
                    }
                });
                last.put(socket);
            }));
            Run {
                threads,
                check: Box::new(move || {
                    let _keep = (service, client);
                    let mut socket = back.take();
                    while let Some(Some(m)) = socket.next().now_or_never() {
                        log(format!("received {}", m.params().unwrap().as_str().unwrap()));
                    }
                    let r = Record::get();
                    let got: Vec<&str> = r.0.iter().filter_map(|e| e.1.strip_prefix("received ")).collect();
                    ensure!(got.iter().filter(|g| **g == "abandoned").count() <= abandoned, "an abandoned message arrives twice");
                    for (t, ops) in plan.split(',').enumerate() {
                        let mine: Vec<&&str> = got.iter().filter(|g| g.starts_with(&format!("{t}."))).collect();
                        let sent: Vec<String> = ops.chars().enumerate().filter(|o| o.1 == 'n').map(|(i, _)| format!("{t}.{i}")).collect();
                        ensure!(mine.iter().map(|m| m.to_string()).collect::<Vec<_>>() == sent, "of the messages {sent:?} of one thread the client receives {mine:?}");
                    }
                    Ok(())
                }),
            }
        }));
    }
}

// ---------------------------------------------------------------- client messages and the lifecycle

fn gates(v: &mut Vec<Scenario>) {
    for how in [true, false] {
        for op in ["n", "q", "s"] {
            v.push(scenario(format!("initialize (success {how}) while the server sends {op}"), &["C20", "C23"], move || {
                let (mut service, socket, client) = server();
                INITS.with(|i| i.push((Some(1), how)));
                let mut first = service.call(initialize(1));
                assert!(poll_once(&mut first).is_none());
                gate(1, |g| g.open = true);
                let sender = client.clone();
                Run {
                    threads: vec![
                        Box::new(move || {
                            let r = outcome(block_on(first));
                            log(format!("first: {r}"));
                        }),
                        Box::new(move || {
                            log("send: call");
                            match op {
                                "n" => block_on(sender.send_notification::<Note>(json!("x"))),
                                "s" => block_on(sender.show_message(MessageType::INFO, "x")),
                                _ => {
                                    let c = sender.clone();
                                    let mut fut = Box::pin(async move { c.send_request::<Ask>(json!("x")).await });
                                    if let Some(r) = poll_once(&mut fut) {
                                        log(format!("send: error {}", r.unwrap_err().code.code()));
                                        return;
                                    }
                                    keep(fut);
                                }
                            }
                            log("send: done");
                        }),
                    ],
                    check: Box::new(move || {
                        let _keep = (service, client);
                        let r = Record::get();
                        let mut socket = socket;
                        let mut n = 0;
                        while let Some(Some(_)) = socket.next().now_or_never() {
                            n += 1;
                        }
                        let after = r.before(r.end("first").map(|e| e.0), r.called("send"));
                        let before = r.before(r.end("send").map(|e| e.0), r.at("initialize#1 finishes"));
                        ensure!(n <= 1, "the message is sent {n} times");
                        if op == "s" {
                            ensure!(n == 1, "showMessage is not sent");
                        } else {
                            ensure!(how || n == 0, "a message is sent though the server is not initialized");
                            ensure!(!(how && after) || n == 1, "the message is not sent though the server is initialized");
                            ensure!(!before || n == 0, "the message is sent before the server is initialized");
                        }
                        if op == "q" {
                            ensure!((r.result("send") == "error -32002") == (n == 0), "the request results in {}, sent: {n}", r.result("send"));
                        }
                        Ok(())
                    }),
                }
            }));
        }
    }
}

// ---------------------------------------------------------------- a whole server

/// Both directions of a connection. The client answers requests as soon as they are written.
#[derive(Default)]
struct Wire {
    input: VecDeque<u8>,
    ended: bool,
    reader: Option<Waker>,
    output: Vec<u8>,
    messages: Vec<Value>,
    answer: bool,
    /// Writes of at most so many bytes, every other one of which has to wait.
    chunk: Option<usize>,
    blocked: bool,
    garbage: Option<String>,
}
static WIRE: Racy<Option<Wire>> = Racy::new(None);

fn wire<R>(f: impl FnOnce(&mut Wire) -> R) -> R {
    WIRE.with(|w| f(w.get_or_insert_with(Wire::default)))
}

fn feed(v: Value) {
    let text = v.to_string();
    let reader = wire(|w| {
        w.input.extend(format!("Content-Length: {}\r\n\r\n{text}", text.len()).bytes());
        w.reader.take()
    });
    reader.map(|r| r.wake());
}

fn hang_up() {
    let reader = wire(|w| {
        w.ended = true;
        w.reader.take()
    });
    reader.map(|r| r.wake());
}

struct Input;
impl futures::io::AsyncRead for Input {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let waker = cx.waker().clone();
        let (n, old) = wire(|w| {
            let n = buf.len().min(w.input.len());
            for (b, i) in buf.iter_mut().zip(w.input.drain(..n)) {
                *b = i;
            }
            if n > 0 || w.ended {
                (Poll::Ready(Ok(n)), None)
            } else {
                (Poll::Pending, w.reader.replace(waker))
            }
        });
        drop(old);
        n
    }
}

struct Output;
impl futures::io::AsyncWrite for Output {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let (n, new) = wire(|w| {
            let mut n = buf.len();
            if let Some(chunk) = w.chunk {
                w.blocked = !w.blocked;
                if w.blocked {
                    return (None, vec![]);
                }
                n = n.min(chunk);
            }
            w.output.extend_from_slice(&buf[..n]);
            let mut new = vec![];
            while let Some(end) = w.output.windows(4).position(|x| x == b"\r\n\r\n") {
                let head = String::from_utf8_lossy(&w.output[..end]).into_owned();
                let len = head.strip_prefix("Content-Length: ").and_then(|l| l.parse::<usize>().ok());
                let Some(len) = len else {
                    w.garbage = Some(head);
                    break;
                };
                if w.output.len() < end + 4 + len {
                    break;
                }
                match serde_json::from_slice::<Value>(&w.output[end + 4..end + 4 + len]) {
                    Ok(v) => new.push(v),
                    Err(e) => w.garbage = Some(e.to_string()),
                }
                w.output.drain(..end + 4 + len);
            }
            w.messages.extend(new.iter().cloned());
            (Some(n), new)
        });
        for v in new {
            log(format!("written {v}"));
            if wire(|w| w.answer) && v.get("method").is_some() && v.get("id").is_some() {
                feed(json!({"jsonrpc": "2.0", "id": v["id"], "result": v["params"]}));
            }
        }
        match n {
            Some(n) => Poll::Ready(Ok(n)),
            None => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        log("output closed");
        Poll::Ready(Ok(()))
    }
}

fn serves(v: &mut Vec<Scenario>) {
    // What other threads do, one word each: n = notify the client, q = ask it, i = the client sends a
    // notification for the server, r = a request, w = a request that waits at a gate, o = the gate is
    // opened, E = the client hangs up, X = the client sends exit.
    for (plan, level, chunk) in [
        ("nE", 4, None),
        ("qE", 4, None),
        ("nnE", 1, None),
        ("nqnE", 4, Some(20)),
        ("n E", 4, None),
        ("q E", 4, None),
        ("n X", 4, None),
        ("q X", 4, None),
        ("q rE", 4, None),
        ("n rE", 1, Some(30)),
        ("n nE", 4, None),
        ("q qE", 4, None),
        ("o wE", 4, None),
        ("o wrE", 1, None),
        ("o wrE", 2, None),
        ("no wE", 4, None),
        ("n o wE", 4, None),
        ("qo wE", 4, None),
        ("o wX", 4, None),
        ("o wcE", 4, None),
        ("irE q", 4, None),
        ("iirE", 1, None),
    ] {
        v.push(scenario(
            format!("serving at level {level}, output {chunk:?}, while {plan}"),
            &["C11", "C12", "C15", "C16", "C19", "C23"],
            move || serve_run(plan, level, chunk),
        ));
    }
}

fn serve_run(plan: &'static str, level: usize, chunk: Option<usize>) -> Run {
    let (service, socket, client) = initialized();
    wire(|w| {
        *w = Wire { answer: true, chunk, ..Wire::default() };
    });
    let mut threads: Vec<Thread> = vec![Box::new(move || {
        block_on(tower_lsp::Server::new(Input, Output, socket).concurrency_level(level).serve(service));
        log("serve returns");
    })];
    let words: Vec<&str> = plan.split(' ').collect();
    let ended = words.iter().any(|w| w.contains('E') || w.contains('X'));
    for (t, word) in words.clone().into_iter().enumerate() {
        let client = client.clone();
        threads.push(Box::new(move || {
            for (i, op) in word.chars().enumerate() {
                let name = format!("{op}{t}{i}");
                match op {
                    'n' => {
                        log(format!("{name}: call"));
                        block_on(client.send_notification::<Note>(json!(name)));
                        log(format!("{name}: none"));
                    }
                    'q' => ask(&client, name),
                    'o' => open(7),
                    'c' => feed(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": 1}})),
                    'i' => feed(json!({"jsonrpc": "2.0", "method": "tell", "params": [name]})),
                    'r' => feed(json!({"jsonrpc": "2.0", "method": "run", "id": 2, "params": [name, null]})),
                    'w' => feed(json!({"jsonrpc": "2.0", "method": "run", "id": 1, "params": [name, 7]})),
                    'X' => {
                        log("end");
                        feed(json!({"jsonrpc": "2.0", "method": "exit"}))
                    }
                    _ => {
                        log("end");
                        hang_up()
                    }
                }
            }
        }));
    }
    Run {
        threads,
        check: Box::new(move || {
            let _client = client;
            let r = Record::get();
            let (messages, garbage, rest) = wire(|w| (w.messages.clone(), w.garbage.clone(), w.output.len()));
            ensure!(garbage.is_none() && rest == 0, "the output is no sequence of messages: {garbage:?}, {rest} bytes left");
            ensure!(!ended || r.at("serve returns").is_some(), "serve() does not return");
            let end = r.at("end");
            let exit = plan.contains('X');
            let mut expected = 0;
            for (t, word) in words.iter().enumerate() {
                let mut seen = vec![];
                for (i, op) in word.chars().enumerate() {
                    let name = format!("{op}{t}{i}");
                    let place: Vec<usize> = messages.iter().enumerate().filter(|m| m.1["params"] == json!(name)).map(|m| m.0).collect();
                    let before = r.before(r.end(&name).map(|e| e.0), end);
                    match op {
                        'n' | 'q' => {
                            ensure!(place.len() <= 1, "the client receives {name} {} times", place.len());
                            expected += place.len();
                            // What is sent while the connection ends may be lost, what was sent before must not.
                            ensure!(!before || exit || place.len() == 1, "{name}, sent before the end of input, is not delivered");
                            seen.extend(place.clone());
                            let res = r.result(&name);
                            if op == 'n' {
                                ensure!(res == "none", "{name} results in {res}");
                            } else {
                                let ok = format!("ok {}", json!(name));
                                ensure!(res == ok || res.starts_with("error"), "{name} results in {res}");
                                ensure!(res != ok || place.len() == 1, "{name} was not sent but results in {res}");
                                // Nothing keeps it from being answered but the end of the connection.
                                ensure!(res == ok || !r.before(r.end(&name).map(|e| e.0), end), "{name}, before the end, results in {res}");
                            }
                        }
                        'r' | 'w' => {
                            let id = if op == 'r' { 2 } else { 1 };
                            let answers: Vec<&Value> = messages.iter().filter(|m| m["id"] == json!(id) && m.get("method").is_none()).collect();
                            ensure!(answers.len() == 1, "request {name} has {} responses", answers.len());
                            expected += 1;
                            let ok = answers[0]["result"] == json!(name);
                            let cancelled = answers[0]["error"]["code"] == json!(-32800);
                            ensure!(ok || (cancelled && (exit || plan.contains('c')) && op == 'w'), "request {name} is answered with {}", answers[0]);
                        }
                        'i' => {
                            let n = r.0.iter().filter(|e| e.1 == format!("{name} finishes")).count();
                            ensure!(n == 1, "notification {name} is handled {n} times");
                        }
                        _ => {}
                    }
                }
                ensure!(seen.windows(2).all(|w| w[0] < w[1]), "the messages of thread {t} are out of order: {seen:?}");
            }
            ensure!(messages.len() == expected, "the client receives {} messages instead of {expected}: {messages:?}", messages.len());
            Ok(())
        }),
    }
}

//! The scripted language server all service-level and transport-level scenarios run.

use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, ErrorCode, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, LanguageServer};

/// A waker that records whether it was woken.
pub struct Flag(pub AtomicBool);

impl Flag {
    pub fn new() -> Arc<Self> {
        Arc::new(Flag(AtomicBool::new(false)))
    }
    pub fn get(&self) -> bool {
        self.0.load(SeqCst)
    }
    pub fn take(&self) -> bool {
        self.0.swap(false, SeqCst)
    }
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

pub fn noop_cx<R>(f: impl FnOnce(&mut Context) -> R) -> R {
    let w = Waker::from(Flag::new());
    f(&mut Context::from_waker(&w))
}

/// A future polled only when it was woken (or never polled).
pub struct Task<T> {
    pub fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    pub flag: Arc<Flag>,
    pub polled: bool,
}

impl<T> Task<T> {
    pub fn new(fut: impl Future<Output = T> + 'static) -> Self {
        Task { fut: Some(Box::pin(fut)), flag: Flag::new(), polled: false }
    }
    pub fn live(&self) -> bool {
        self.fut.is_some()
    }
    pub fn ready(&self) -> bool {
        self.live() && (!self.polled || self.flag.get())
    }
    pub fn poll(&mut self) -> Option<T> {
        self.polled = true;
        self.flag.take();
        let w = Waker::from(self.flag.clone());
        let r = self.fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w));
        match r {
            Poll::Ready(v) => {
                self.fut = None; // Dropped as soon as it is done, as executors do.
                Some(v)
            }
            Poll::Pending => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Start(u32),
    /// The handler continued after an await point of its script.
    Step(u32, usize),
    /// The handler began waiting at a gate.
    AtGate(u32),
    /// A request to the client resolved: the value or error code.
    ReqDone(u32, usize, std::result::Result<Value, i64>),
    /// A notification to the client was accepted.
    Sent(u32, usize),
    Finish(u32),
    Drop(u32),
    /// Anything a scenario wants to record, in order with the rest.
    Mark(String),
}

pub const SHUTDOWN: u32 = 9600;

#[derive(Default)]
pub struct Inner {
    pub log: Vec<Ev>,
    gates: HashMap<u32, (usize, Option<Waker>)>,
    /// Handlers waiting at a gate, in the order they arrived there.
    pub at_gate: Vec<u32>,
    pub running: usize,
    pub max_running: usize,
    /// Number of handlers without a key in their params that ran, and their script, per kind.
    pub unkeyed: HashMap<u32, u32>,
    pub scripts: HashMap<u32, String>,
}

#[derive(Clone, Default)]
pub struct Shared(pub Arc<Mutex<Inner>>);

impl Shared {
    pub fn log(&self, e: Ev) {
        self.0.lock().unwrap().log.push(e);
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().log.len()
    }
    pub fn since(&self, n: usize) -> Vec<Ev> {
        self.0.lock().unwrap().log[n..].to_vec()
    }
    pub fn open(&self, k: u32) {
        let w = {
            let mut i = self.0.lock().unwrap();
            if let Some(p) = i.at_gate.iter().position(|x| *x == k) {
                i.at_gate.remove(p);
            }
            let g = i.gates.entry(k).or_default();
            g.0 += 1;
            g.1.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn at_gate(&self) -> Vec<u32> {
        self.0.lock().unwrap().at_gate.clone()
    }
    pub fn running(&self) -> usize {
        self.0.lock().unwrap().running
    }
}

struct Gate(Shared, u32, bool);

impl Future for Gate {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        let k = self.1;
        let me = self.0.clone();
        let mut i = me.0.lock().unwrap();
        let g = i.gates.entry(k).or_default();
        if g.0 > 0 {
            g.0 -= 1;
            return Poll::Ready(());
        }
        g.1 = Some(cx.waker().clone());
        if !self.2 {
            self.2 = true;
            i.at_gate.push(k);
            i.log.push(Ev::AtGate(k));
        }
        Poll::Pending
    }
}

impl Drop for Gate {
    fn drop(&mut self) {
        let mut i = self.0 .0.lock().unwrap();
        let k = self.1;
        i.at_gate.retain(|x| *x != k);
    }
}

pub struct Yield(pub bool);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

struct Run {
    shared: Shared,
    k: u32,
    done: bool,
}

impl Run {
    fn new(shared: &Shared, k: u32) -> Self {
        let mut i = shared.0.lock().unwrap();
        i.log.push(Ev::Start(k));
        i.running += 1;
        i.max_running = i.max_running.max(i.running);
        drop(i);
        Run { shared: shared.clone(), k, done: false }
    }
    fn finish(&mut self) {
        self.done = true;
        let mut i = self.shared.0.lock().unwrap();
        i.log.push(Ev::Finish(self.k));
        i.running -= 1;
    }
}

impl Drop for Run {
    fn drop(&mut self) {
        if !self.done {
            let mut i = self.shared.0.lock().unwrap();
            i.log.push(Ev::Drop(self.k));
            i.running -= 1;
        }
    }
}

pub enum CReq {}
impl request::Request for CReq {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "c/req";
}

pub enum CNot {}
impl notification::Notification for CNot {
    type Params = Value;
    const METHOD: &'static str = "c/not";
}

#[derive(Clone)]
pub struct Backend {
    pub shared: Shared,
    pub client: Client,
}

pub const CODE: i64 = 4000;

pub fn ok_value(k: u32) -> Value {
    json!({ "k": k })
}

pub fn result(k: u32, ops: &str) -> Value {
    if ops.contains('B') {
        return json!({ "k": k, "pad": format!("é{}", "p".repeat(k as usize)) });
    }
    ok_value(k)
}

/// A text for the client whose size depends on the key.
pub fn sized(k: u32, i: usize) -> String {
    format!("{}é{}", text(k, i), "z".repeat(k as usize))
}

pub fn err_value(k: u32) -> Error {
    Error {
        code: ErrorCode::ServerError(CODE + k as i64),
        message: format!("e{k}").into(),
        data: Some(json!({ "k": k })),
    }
}

/// The text of the message a handler sends to the client at a script position.
pub fn text(k: u32, i: usize) -> String {
    format!("{k}.{i}")
}

impl Backend {
    pub fn new(shared: &Shared, client: Client) -> Self {
        Backend { shared: shared.clone(), client }
    }

    fn unkeyed(&self, base: u32) -> (u32, String) {
        let mut i = self.shared.0.lock().unwrap();
        let n = i.unkeyed.entry(base).or_default();
        *n += 1;
        let k = base + *n;
        (k, i.scripts.get(&base).cloned().unwrap_or_default())
    }

    pub async fn run(&self, params: &Value, base: u32) -> Result<Value> {
        let (k, ops) = match params.get("k").and_then(|k| k.as_u64()) {
            Some(k) => (k as u32, params.get("s").and_then(|s| s.as_str()).unwrap_or("").to_string()),
            None => self.unkeyed(base),
        };
        let mut run = Run::new(&self.shared, k);
        for (i, op) in ops.chars().enumerate() {
            match op {
                'g' => {
                    Gate(self.shared.clone(), k, false).await;
                    self.shared.log(Ev::Step(k, i));
                }
                'y' => {
                    Yield(false).await;
                    self.shared.log(Ev::Step(k, i));
                }
                'l' => {
                    self.client.log_message(MessageType::LOG, text(k, i)).await;
                    self.shared.log(Ev::Sent(k, i));
                }
                'L' => {
                    // A message whose body spans many bytes, some of them multi-byte characters.
                    let t = format!("{}{}", text(k, i), "é\u{1F600}x".repeat(60));
                    self.client.log_message(MessageType::LOG, t).await;
                    self.shared.log(Ev::Sent(k, i));
                }
                'x' => {
                    // A message whose size depends on the key.
                    self.client.log_message(MessageType::LOG, sized(k, i)).await;
                    self.shared.log(Ev::Sent(k, i));
                }
                'B' => {} // A result whose size depends on the key.
                'p' => {
                    self.client.send_notification::<CNot>(json!(text(k, i))).await;
                    self.shared.log(Ev::Sent(k, i));
                }
                'r' => {
                    let r = self.client.send_request::<CReq>(json!(text(k, i))).await;
                    self.shared.log(Ev::ReqDone(k, i, r.map_err(|e| e.code.code())));
                }
                'm' => {
                    // Available in every state before exit.
                    let r = self
                        .client
                        .show_message_request(MessageType::INFO, text(k, i), None)
                        .await;
                    let r = r.map(|v| json!(v.map(|i| i.title))).map_err(|e| e.code.code());
                    self.shared.log(Ev::ReqDone(k, i, r));
                }
                'e' => {
                    run.finish();
                    return Err(err_value(k));
                }
                other => unreachable!("harness: op {other}"),
            }
        }
        run.finish();
        Ok(result(k, &ops))
    }

    pub async fn t_req(&self, params: Script) -> Result<Value> {
        self.run(&json!({"k": params.k, "s": params.s}), 7000).await
    }

    pub async fn t_not(&self, params: Script) {
        let _ = self.run(&json!({"k": params.k, "s": params.s}), 7000).await;
    }
}

/// Params of the custom methods.
#[derive(serde::Deserialize)]
pub struct Script {
    k: u32,
    #[serde(default)]
    s: String,
}

#[tower_lsp::async_trait]
impl LanguageServer for Backend {
    async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
        let opts = params.initialization_options.unwrap_or_default();
        let v = self.run(&opts, 9000).await?;
        Ok(InitializeResult {
            server_info: Some(ServerInfo { name: v.to_string(), version: None }),
            ..InitializeResult::default()
        })
    }
    async fn initialized(&self, _: InitializedParams) {
        let _ = self.run(&Value::Null, 9300).await;
    }
    async fn shutdown(&self) -> Result<()> {
        self.run(&Value::Null, SHUTDOWN).await.map(drop)
    }
    async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
        let arg = params.arguments.into_iter().next().unwrap_or_default();
        self.run(&arg, 7000).await.map(Some)
    }
    async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
        let _ = self.run(&params.settings, 7000).await;
    }
}

/// Result the client sees for a request whose handler ran with key `k` and script `ops`.
pub fn expected(method: &str, k: u32, ops: &str) -> std::result::Result<Value, Value> {
    if ops.contains('e') {
        return Err(serde_json::to_value(err_value(k)).unwrap());
    }
    Ok(match method {
        "initialize" => json!({"capabilities":{}, "serverInfo":{"name": ok_value(k).to_string()}}),
        "shutdown" => Value::Null,
        _ => result(k, ops),
    })
}

/// JSON params that make the handler of `method` run the script.
pub fn params(method: &str, k: u32, ops: &str) -> Option<Value> {
    let s = json!({"k": k, "s": ops});
    match method {
        "initialize" => Some(json!({"capabilities": {}, "initializationOptions": s})),
        "shutdown" | "exit" => None,
        "initialized" => Some(json!({})),
        "workspace/executeCommand" => Some(json!({"command": "c", "arguments": [s]})),
        "workspace/didChangeConfiguration" => Some(json!({ "settings": s })),
        _ => Some(s),
    }
}

//! Client-handle exploration: tasks that send to the client, the stream of messages, and responses.

use std::cell::RefCell;
use std::collections::HashMap;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

use futures::{Sink, Stream};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::lsp_types::MessageType;
use tower_lsp::{Client, ClientSocket, ExitedError, LspService};

use crate::backend::{self, noop_cx, Backend, CNot, CReq, Flag, Shared, Task};
use crate::check;
use crate::engine::{pick, report, step, Group};
use crate::life::{build, request};

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Sent,
    Value(Value),
    Err(i64, Value),
    Refused,
    Id(Id),
}

#[derive(Clone, Debug)]
enum Log {
    Begin(usize, usize),
    /// The id a raw request was given.
    Raw(usize, usize, Id),
    End(usize, usize, Out),
}

type Logs = Rc<RefCell<Vec<Log>>>;

fn text(t: usize, i: usize) -> String {
    format!("{t}.{i}")
}

fn outcome(r: Result<Value, Error>) -> Out {
    match r {
        Ok(v) => Out::Value(v),
        Err(e) => Out::Err(e.code.code(), serde_json::to_value(e).unwrap()),
    }
}

async fn script(t: usize, ops: &'static str, mut client: Client, logs: Logs) {
    for (i, op) in ops.chars().enumerate() {
        logs.borrow_mut().push(Log::Begin(t, i));
        let out = match op {
            'n' => {
                client.log_message(MessageType::LOG, text(t, i)).await;
                Out::Sent
            }
            's' => {
                client.show_message(MessageType::LOG, text(t, i)).await;
                Out::Sent
            }
            't' => {
                client.telemetry_event(json!([text(t, i)])).await;
                Out::Sent
            }
            'p' => {
                client.send_notification::<CNot>(json!(text(t, i))).await;
                Out::Sent
            }
            'r' => outcome(client.send_request::<CReq>(json!(text(t, i))).await),
            'm' => outcome(
                client
                    .show_message_request(MessageType::LOG, text(t, i), None)
                    .await
                    .map(|v| json!(v)),
            ),
            'd' => Out::Id(client.next_request_id()),
            'R' | 'f' | 'F' => {
                let id = match op {
                    'R' => client.next_request_id(),
                    'f' => Id::Number(77),
                    _ => Id::String("77".into()),
                };
                logs.borrow_mut().push(Log::Raw(t, i, id.clone()));
                let req = Request::build("raw/req").params(json!(text(t, i))).id(id).finish();
                match client.call(req).await {
                    Ok(Some(r)) => outcome(r.into_parts().1),
                    Ok(None) => Out::Sent,
                    Err(_) => Out::Refused,
                }
            }
            'N' => {
                let req = Request::build("raw/not").params(json!(text(t, i))).finish();
                match client.call(req).await {
                    Ok(_) => Out::Sent,
                    Err(_) => Out::Refused,
                }
            }
            _ => unreachable!("harness: op"),
        };
        logs.borrow_mut().push(Log::End(t, i, out));
    }
}

fn is_request(op: char) -> bool {
    matches!(op, 'r' | 'm' | 'R' | 'f' | 'F')
}

/// Sent regardless of the lifecycle (before exit).
fn unchecked(op: char) -> bool {
    !matches!(op, 'p' | 'r')
}

fn message(op: char, t: usize, i: usize) -> (&'static str, Value) {
    let x = text(t, i);
    match op {
        'n' => ("window/logMessage", json!({"type": 4, "message": x})),
        's' => ("window/showMessage", json!({"type": 4, "message": x})),
        't' => ("telemetry/event", json!([x])),
        'p' => ("c/not", json!(x)),
        'r' => ("c/req", json!(x)),
        'm' => ("window/showMessageRequest", json!({"type": 4, "message": x})),
        'N' => ("raw/not", json!(x)),
        _ => ("raw/req", json!(x)),
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub name: &'static str,
    pub tasks: Vec<&'static str>,
    pub depth: usize,
    /// Steps of the lifecycle taken before exploration, and those offered during it.
    pub life: usize,
    pub life_max: usize,
    pub drops: usize,
    /// Responses nobody asked for that may be delivered.
    pub bogus: usize,
    pub split: bool,
    /// All tasks share one clone of the handle (otherwise each has its own).
    pub spurious: bool,
    /// Exit may be sent in any state, instead of in order.
    pub early_exit: bool,
    /// The socket may be closed by the transport (end of input).
    pub close: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            name: "",
            tasks: vec![],
            depth: 6,
            life: 2,
            life_max: 2,
            drops: 0,
            bogus: 0,
            split: true,
            spurious: false,
            early_exit: false,
            close: false,
        }
    }
}

enum Socket {
    Whole(ClientSocket),
    Split(tower_lsp_stream::Stream, tower_lsp_stream::Sink),
}

/// The halves of the socket are not nameable through the public API.
mod tower_lsp_stream {
    use super::*;
    pub type Stream = Pin<Box<dyn futures::Stream<Item = Request>>>;
    pub type Sink = Pin<Box<dyn futures::Sink<Response, Error = ExitedError>>>;
}

impl Socket {
    fn poll_next(&mut self, cx: &mut Context) -> Poll<Option<Request>> {
        match self {
            Socket::Whole(s) => Pin::new(s).poll_next(cx),
            Socket::Split(s, _) => s.as_mut().poll_next(cx),
        }
    }
    fn send(&mut self, r: Response) -> Result<(), ()> {
        noop_cx(|cx| {
            let s: Pin<&mut dyn Sink<Response, Error = ExitedError>> = match self {
                Socket::Whole(s) => Pin::<&mut ClientSocket>::new(s),
                Socket::Split(_, s) => s.as_mut(),
            };
            let mut s = s;
            match s.as_mut().poll_ready(cx) {
                Poll::Ready(Ok(())) => {}
                Poll::Ready(Err(_)) => return Err(()),
                Poll::Pending => {
                    report(&["C19", "C15"], "sink-pending", "the response sink is not ready");
                    return Err(());
                }
            }
            s.as_mut().start_send(r).map_err(drop)?;
            match s.as_mut().poll_flush(cx) {
                Poll::Ready(r) => r.map_err(drop),
                Poll::Pending => {
                    report(&["C19", "C15"], "sink-pending", "the response sink does not flush");
                    Err(())
                }
            }
        })
    }
    fn close(&mut self) {
        noop_cx(|cx| {
            let _ = match self {
                Socket::Whole(s) => Pin::new(s).poll_close(cx),
                Socket::Split(_, s) => s.as_mut().poll_close(cx),
            };
        })
    }
}

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
enum Life {
    Uninit,
    Initing,
    Inited,
    Shut,
    Exited,
}

#[derive(Default)]
struct Op {
    begun: bool,
    allowed: bool,
    received: bool,
    id: Option<Id>,
    /// What the response delivered to this request must make it resolve to.
    reply: Option<Out>,
    ended: Option<Out>,
    abandoned: bool,
    /// The op was in progress when the connection ended.
    cut: bool,
}

struct World<'a> {
    cfg: &'a Cfg,
    svc: LspService<Backend>,
    socket: Socket,
    shared: Shared,
    init: Option<Task<Result<Option<Response>, ExitedError>>>,
    logs: Logs,
    seen: usize,
    tasks: Vec<Task<()>>,
    ops: Vec<Vec<Op>>,
    /// Raw requests in the order their waiters were registered, per id.
    order: HashMap<Id, Vec<(usize, usize)>>,
    rx_flag: std::sync::Arc<Flag>,
    rx_started: bool,
    rx_done: bool,
    received: Vec<(usize, usize, Option<Id>)>,
    unanswered: Vec<(usize, usize, Id)>,
    answered: Vec<Id>,
    ids: Vec<Id>,
    life: Life,
    drops: usize,
    bogus: usize,
    closed: bool,
    replies: i64,
}

impl<'a> World<'a> {
    fn new(cfg: &'a Cfg) -> Self {
        let shared = Shared::default();
        let (svc, socket) = build(&shared);
        let client = svc.inner().client.clone();
        let logs: Logs = Default::default();
        let tasks = cfg
            .tasks
            .iter()
            .enumerate()
            .map(|(t, ops)| Task::new(script(t, ops, client.clone(), logs.clone())))
            .collect();
        drop(client);
        let socket = if cfg.split {
            let (a, b) = socket.split();
            Socket::Split(Box::pin(a), Box::pin(b))
        } else {
            Socket::Whole(socket)
        };
        World {
            cfg,
            svc,
            socket,
            shared,
            init: None,
            logs,
            seen: 0,
            tasks,
            ops: cfg.tasks.iter().map(|o| o.chars().map(|_| Op::default()).collect()).collect(),
            order: HashMap::new(),
            rx_flag: Flag::new(),
            rx_started: false,
            rx_done: false,
            received: vec![],
            unanswered: vec![],
            answered: vec![],
            ids: vec![],
            life: Life::Uninit,
            drops: cfg.drops,
            bogus: cfg.bogus,
            closed: false,
            replies: 0,
        }
    }

    fn op(&self, t: usize, i: usize) -> char {
        self.cfg.tasks[t].as_bytes()[i] as char
    }

    fn lifecycle(&mut self) {
        let next = match self.life {
            Life::Uninit => Life::Initing,
            Life::Initing => Life::Inited,
            Life::Inited => Life::Shut,
            _ => Life::Exited,
        };
        self.set_life(next);
    }

    fn set_life(&mut self, next: Life) {
        step(&format!("life {next:?}"));
        let send = |w: &mut Self, m: &str, id: Option<Id>, p: Option<Value>| {
            let _ = noop_cx(|cx| w.svc.poll_ready(cx));
            Task::new(w.svc.call(request(m, id, p)))
        };
        match next {
            Life::Initing => {
                let p = backend::params("initialize", 1, "g");
                let mut t = send(self, "initialize", Some(Id::Number(500)), p);
                t.poll();
                self.init = Some(t);
            }
            Life::Inited => {
                self.shared.open(1);
                let r = self.init.as_mut().unwrap().poll();
                check!(matches!(&r, Some(Ok(Some(r))) if r.is_ok()), &["C20", "C07"], "init", "initialize: {r:?}");
                self.init = None;
            }
            Life::Shut => {
                let mut t = send(self, "shutdown", Some(Id::Number(501)), None);
                let r = t.poll();
                check!(matches!(&r, Some(Ok(Some(r))) if r.is_ok()), &["C20", "C09"], "shutdown", "shutdown: {r:?}");
            }
            Life::Exited => {
                let mut t = send(self, "exit", None, None);
                t.poll();
                self.cut();
            }
            Life::Uninit => unreachable!(),
        }
        self.life = next;
        self.absorb();
    }

    fn cut(&mut self) {
        for t in &mut self.ops {
            for o in t {
                if o.begun && o.ended.is_none() {
                    o.cut = true;
                }
            }
        }
    }

    /// Takes in what the tasks logged since the last action.
    fn absorb(&mut self) {
        let new: Vec<Log> = self.logs.borrow()[self.seen..].to_vec();
        self.seen += new.len();
        for l in new {
            step(&format!("{l:?}"));
            match l {
                Log::Begin(t, i) => {
                    let op = self.op(t, i);
                    let allowed = self.life < Life::Exited
                        && (unchecked(op) || self.life >= Life::Inited);
                    let closed = self.closed;
                    let o = &mut self.ops[t][i];
                    o.begun = true;
                    o.allowed = allowed;
                    o.cut = closed;
                }
                Log::Raw(t, i, id) => {
                    self.ops[t][i].id = Some(id.clone());
                    if self.op(t, i) == 'R' {
                        self.fresh(id.clone());
                    }
                    self.order.entry(id).or_default().push((t, i));
                }
                Log::End(t, i, out) => self.end(t, i, out),
            }
        }
    }

    fn fresh(&mut self, id: Id) {
        check!(
            matches!(id, Id::Number(_)) && !self.ids.contains(&id),
            &["C18"],
            "id-reused",
            "id {id:?} was handed out before ({:?})",
            self.ids
        );
        self.ids.push(id);
    }

    fn end(&mut self, t: usize, i: usize, out: Out) {
        let op = self.op(t, i);
        let (life, closed) = (self.life, self.closed);
        let o = &mut self.ops[t][i];
        o.ended = Some(out.clone());
        let (allowed, cut, reply) = (o.allowed, o.cut, o.reply.clone());
        if let Out::Id(id) = out {
            return self.fresh(id);
        }
        if !is_request(op) {
            if op == 'N' {
                check!(
                    (out == Out::Sent) || life == Life::Exited || cut,
                    &["C23"],
                    "send-failed",
                    "sending {t}.{i} failed: {out:?}"
                );
            }
            return;
        }
        if !allowed {
            if life < Life::Exited {
                check!(
                    matches!(out, Out::Err(-32002, _)),
                    &["C20"],
                    "not-refused",
                    "client request {t}.{i} in state {life:?} ends with {out:?}"
                );
            } else {
                let ok = match op {
                    'r' => matches!(out, Out::Err(-32002, _)),
                    _ => matches!(out, Out::Err(..) | Out::Refused),
                };
                check!(ok, &["C10", "C20"], "served-after-exit", "client request {t}.{i} after exit ends with {out:?}");
            }
            return;
        }
        match reply {
            Some(want) => check!(
                out == want,
                &["C19"],
                "wrong-reply",
                "client request {t}.{i} resolves to {out:?} instead of {want:?}"
            ),
            None if cut || closed || life == Life::Exited => check!(
                matches!(out, Out::Err(..) | Out::Refused),
                &["C10", "C16", "C19"],
                "cut-ok",
                "client request {t}.{i} resolves to {out:?} though no response arrived"
            ),
            None => report(
                if life < Life::Inited { &["C19", "C20"] } else { &["C19", "C20"] },
                "no-reply",
                format!("client request {t}.{i} resolves to {out:?} before any response arrived"),
            ),
        }
    }

    fn recv(&mut self) {
        self.rx_started = true;
        self.rx_flag.take();
        let w = Waker::from(self.rx_flag.clone());
        let r = self.socket.poll_next(&mut Context::from_waker(&w));
        match r {
            Poll::Pending => {
                step("recv pending");
                check!(
                    self.life != Life::Exited,
                    &["C10"],
                    "stream-open",
                    "the stream of client messages is still open after exit"
                );
            }
            Poll::Ready(None) => {
                step("recv end");
                self.rx_done = true;
                check!(
                    self.life == Life::Exited,
                    &["C23", "C15"],
                    "stream-ended",
                    "the stream of client messages ended although the server has not exited"
                );
            }
            Poll::Ready(Some(req)) => {
                self.rx_flag.0.store(true, std::sync::atomic::Ordering::SeqCst); // poll again
                step(&format!("recv {req}"));
                check!(
                    self.life != Life::Exited,
                    &["C10", "C20"],
                    "message-after-exit",
                    "the stream yields {req} after exit"
                );
                self.accept(req);
            }
        }
    }

    fn accept(&mut self, req: Request) {
        let shown = req.to_string();
        let (method, id, params) = req.into_parts();
        let p = params.unwrap_or_default();
        let key = p
            .as_str()
            .or_else(|| p.get("message").and_then(|m| m.as_str()))
            .or_else(|| p.get(0).and_then(|m| m.as_str()))
            .unwrap_or("");
        let mut it = key.split('.').map(|x| x.parse::<usize>());
        let (Some(Ok(t)), Some(Ok(i))) = (it.next(), it.next()) else {
            return report(&["C23"], "garbled", format!("the client receives {shown}"));
        };
        let op = self.op(t, i);
        let (m, want) = message(op, t, i);
        check!(
            m == method && p == want && id.is_some() == is_request(op),
            &["C21", "C23"],
            "modified",
            "the client receives {shown} for {t}.{i}"
        );
        let o = &mut self.ops[t][i];
        check!(o.begun, &["C23"], "unsent", "{shown} arrives before it was sent");
        check!(o.allowed, &["C20"], "leaked", "{shown} arrives although it was sent in a state that forbids it");
        check!(!o.received, &["C23"], "duplicate", "{shown} arrives twice");
        o.received = true;
        if let Some(known) = &o.id {
            check!(Some(known) == id.as_ref(), &["C23", "C19"], "id-changed", "{shown}: id was {known:?}");
        }
        for (t2, i2, _) in &self.received {
            check!(
                *t2 != t || *i2 < i,
                &["C23"],
                "reordered",
                "{t}.{i} arrives after {t2}.{i2}"
            );
        }
        self.received.push((t, i, id.clone()));
        if let Some(id) = id {
            if self.ops[t][i].id.is_none() {
                self.fresh(id.clone());
                self.order.entry(id.clone()).or_default().push((t, i));
                self.ops[t][i].id = Some(id.clone());
            }
            self.unanswered.push((t, i, id));
        }
    }

    /// Answers the id of the j-th request the client received.
    fn reply(&mut self, j: usize) {
        let (_, _, id) = self.unanswered.remove(j);
        self.replies += 1;
        let n = self.replies;
        let (resp, out) = if n % 2 == 0 {
            let e = Error { code: ErrorCode::ServerError(100 + n), message: "no".into(), data: Some(json!(n)) };
            (Response::from_error(id.clone(), e.clone()), Out::Err(100 + n, serde_json::to_value(e).unwrap()))
        } else {
            let v = json!({ "title": format!("v{n}") });
            (Response::from_ok(id.clone(), v.clone()), Out::Value(v))
        };
        step(&format!("reply {id:?} {n}"));
        self.answered.push(id.clone());
        let (t, i) = self.order.get_mut(&id).unwrap().remove(0);
        let r = self.socket.send(resp);
        if self.life != Life::Exited {
            self.ops[t][i].reply = Some(out);
            check!(r.is_ok(), &["C19", "C15"], "reply-refused", "a response is refused before exit");
        }
        self.absorb();
    }

    fn stray(&mut self, j: usize) {
        let id = match j {
            0 => Id::Null,
            1 => Id::Number(4242),
            2 => match self.unanswered.first() {
                // The same digits as a string.
                Some((_, _, Id::Number(n))) => Id::String(n.to_string()),
                Some((_, _, Id::String(s))) => Id::String(format!(" {s}")),
                _ => Id::String("0".into()),
            },
            _ => match self.answered.last() {
                Some(id) if !self.order.get(id).map_or(false, |v| !v.is_empty()) => id.clone(),
                _ => Id::Number(-1),
            },
        };
        let outstanding = self.order.get(&id).map_or(false, |v| !v.is_empty());
        let id = if outstanding { Id::String(format!("no {id:?}")) } else { id };
        step(&format!("stray {id:?}"));
        let r = self.socket.send(Response::from_ok(id.clone(), json!("stray")));
        if self.life != Life::Exited {
            check!(r.is_ok(), &["C19"], "stray-refused", "a response with id {id:?} is refused");
        }
        self.absorb();
    }

    fn quiesce(&mut self) {
        let mut n = 0;
        loop {
            if let Some(t) = (0..self.tasks.len()).find(|t| self.tasks[*t].ready()) {
                step(&format!("poll {t}"));
                self.tasks[t].poll();
                self.absorb();
            } else if !self.rx_done && (!self.rx_started || self.rx_flag.get()) {
                self.recv();
            } else {
                return;
            }
            n += 1;
            if n > 500 {
                return report(&["*"], "livelock", "tasks keep waking themselves");
            }
        }
    }

    fn drain(&mut self) {
        step("drain");
        for _ in 0..20 {
            self.quiesce();
            if self.unanswered.is_empty() || self.closed || self.life == Life::Exited {
                break;
            }
            self.reply(0);
        }
        self.quiesce();
        let exited = self.life == Life::Exited;
        for (t, task) in self.tasks.iter().enumerate() {
            if task.live() {
                let i = self.ops[t].iter().position(|o| o.begun && o.ended.is_none());
                report(
                    if exited {
                        &["C10", "C16"]
                    } else if self.closed {
                        &["C16", "C10"]
                    } else {
                        &["C15", "C19", "C23"]
                    },
                    "task-stuck",
                    format!("the task in {t}.{i:?} never resumes"),
                );
            }
        }
        for (t, ops) in self.ops.iter().enumerate() {
            for (i, o) in ops.iter().enumerate() {
                if self.op(t, i) != 'd' && o.allowed && o.ended.is_some() && !exited {
                    check!(
                        o.received || o.cut,
                        if self.closed { &["C16", "C23", "C20"] } else { &["C23", "C20"] },
                        "lost",
                        "{t}.{i} was sent but the client never receives it"
                    );
                }
            }
        }
    }

    fn explore(&mut self) {
        for _ in 0..self.cfg.life {
            self.lifecycle();
        }
        for _ in 0..self.cfg.depth {
            #[derive(Clone, Copy)]
            enum A {
                Poll(usize),
                Recv,
                Reply(usize),
                Stray(usize),
                Life,
                Exit,
                Drop(usize),
                Close,
            }
            let mut acts = vec![];
            for (t, task) in self.tasks.iter().enumerate() {
                if task.ready() || (self.cfg.spurious && task.live()) {
                    acts.push(A::Poll(t));
                }
            }
            if !self.rx_done && (!self.rx_started || self.rx_flag.get() || self.cfg.spurious) {
                acts.push(A::Recv);
            }
            for j in 0..self.unanswered.len() {
                if !self.closed {
                    acts.push(A::Reply(j));
                }
            }
            if self.bogus > 0 && !self.closed {
                for j in 0..4 {
                    acts.push(A::Stray(j));
                }
            }
            if (self.life as usize) < self.cfg.life_max {
                acts.push(A::Life);
            }
            if self.cfg.early_exit && self.life != Life::Exited {
                acts.push(A::Exit);
            }
            if self.drops > 0 {
                for (t, task) in self.tasks.iter().enumerate() {
                    if task.live() && task.polled {
                        acts.push(A::Drop(t));
                    }
                }
            }
            if self.cfg.close && !self.closed && self.life != Life::Exited {
                acts.push(A::Close);
            }
            if acts.is_empty() {
                break;
            }
            match acts[pick("act", acts.len())] {
                A::Poll(t) => {
                    step(&format!("poll {t}"));
                    self.tasks[t].poll();
                    self.absorb();
                }
                A::Recv => self.recv(),
                A::Reply(j) => self.reply(j),
                A::Stray(j) => {
                    self.bogus -= 1;
                    self.stray(j);
                }
                A::Life => self.lifecycle(),
                A::Exit => self.set_life(Life::Exited),
                A::Drop(t) => {
                    step(&format!("drop {t}"));
                    self.drops -= 1;
                    self.tasks[t].fut = None;
                    for o in &mut self.ops[t] {
                        if o.begun && o.ended.is_none() {
                            o.abandoned = true;
                        }
                    }
                    self.absorb();
                }
                A::Close => {
                    step("close");
                    self.closed = true;
                    self.cut();
                    self.socket.close();
                    self.absorb();
                }
            }
        }
        self.drain();
    }
}

pub fn group(cfg: Cfg) -> Group {
    let name = format!("{} depth {}", cfg.name, cfg.depth);
    let text = format!(
        "tasks {:?} on one client handle; every sequence of polls, receives, responses{}{}{}{}; depth {}",
        cfg.tasks,
        if cfg.bogus > 0 { ", stray responses" } else { "" },
        if cfg.drops > 0 { ", abandoned tasks" } else { "" },
        if cfg.life_max > cfg.life { ", lifecycle steps" } else { "" },
        if cfg.early_exit { ", exit" } else { "" },
        cfg.depth
    );
    Group {
        also: &[],
        name,
        scenarios: 1,
        bound: None,
        isolate: false,
        data: None,
        describe: Box::new(move |_| text.clone()),
        run: Box::new(move |_| World::new(&cfg).explore()),
    }
}

/// C18, C19, C23.
pub fn messaging(d: u32) -> Vec<Group> {
    let d = [0, 1, 3, 4, 5, 6][d.min(5) as usize];
    let v = vec![
        Cfg { name: "cli-order", tasks: vec!["nnn", "pnp", "nr"], depth: 9 + d, ..Cfg::default() },
        Cfg { name: "cli-whole", tasks: vec!["nrn", "ppN", "Rr"], depth: 8 + d, split: false, ..Cfg::default() },
        Cfg { name: "cli-replies", tasks: vec!["rr", "r", "m"], depth: 9 + d, ..Cfg::default() },
        Cfg { name: "cli-stray", tasks: vec!["rd", "rn", "F"], depth: 7 + d, bogus: 2, ..Cfg::default() },
        Cfg { name: "cli-fifo", tasks: vec!["f", "fr", "f", "F"], depth: 8 + d, bogus: 1, ..Cfg::default() },
        Cfg { name: "cli-ids", tasks: vec!["drR", "Rdr", "rd"], depth: 8 + d, ..Cfg::default() },
        Cfg { name: "cli-drop", tasks: vec!["nrn", "npn", "rr"], depth: 7 + d, drops: 2, ..Cfg::default() },
        Cfg { name: "cli-drop-whole", tasks: vec!["rn", "Rn", "nn"], depth: 7 + d, drops: 2, bogus: 1, split: false, ..Cfg::default() },
        Cfg { name: "cli-spurious", tasks: vec!["nr", "np"], depth: 8 + d, spurious: true, ..Cfg::default() },
        Cfg { name: "cli-burst", tasks: vec!["n", "p", "r", "n", "s"], depth: 9 + d, ..Cfg::default() },
    ];
    v.into_iter().map(group).collect()
}

/// C20 and the client part of C10.
pub fn gating(d: u32) -> Vec<Group> {
    let d = [0, 2, 3, 4, 5, 6][d.min(5) as usize];
    let v = vec![
        Cfg { name: "gate-life", tasks: vec!["pn", "rp", "m"], depth: 8 + d, life: 0, life_max: 4, ..Cfg::default() },
        Cfg { name: "gate-all", tasks: vec!["nstpmr", "rm"], depth: 8 + d, life: 0, life_max: 4, ..Cfg::default() },
        Cfg { name: "gate-early-exit", tasks: vec!["mp", "nr", "RN"], depth: 7 + d, life: 0, life_max: 2, early_exit: true, ..Cfg::default() },
        Cfg { name: "gate-exit", tasks: vec!["rnr", "mn", "nR"], depth: 8 + d, early_exit: true, ..Cfg::default() },
        Cfg { name: "gate-exit-whole", tasks: vec!["rp", "mn", "nf"], depth: 8 + d, early_exit: true, split: false, ..Cfg::default() },
        Cfg { name: "gate-shut", tasks: vec!["rp", "mn", "pr"], depth: 7 + d, life: 3, life_max: 4, ..Cfg::default() },
    ];
    v.into_iter().map(group).collect()
}

/// The end of input: no response can arrive any more (C16).
pub fn closing(d: u32) -> Vec<Group> {
    let d = [0, 2, 3, 4, 5, 6][d.min(5) as usize];
    let v = vec![
        Cfg { name: "close", tasks: vec!["rnr", "mn", "nR"], depth: 8 + d, close: true, ..Cfg::default() },
        Cfg { name: "close-whole", tasks: vec!["rf", "fn", "m"], depth: 7 + d, close: true, split: false, early_exit: true, ..Cfg::default() },
    ];
    v.into_iter().map(group).collect()
}

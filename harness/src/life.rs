//! Service-level exploration: every sequence of calls, polls and handler completions up to a depth,
//! against a reference model of the LSP lifecycle, of request ids and of cancellation.

use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Id, Request, Response};
use tower_lsp::{ClientSocket, ExitedError, LspService};

use crate::backend::{self, noop_cx, Backend, Ev, Shared, Task, SHUTDOWN};
use crate::check;
use crate::engine::{note, pick, report, step, Group};

#[derive(Clone, Debug, PartialEq)]
pub enum Ids {
    Fresh,
    Num(i64),
    Str(&'static str),
    Null,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    /// A request or notification whose handler runs the script.
    Req(&'static str, &'static str, Ids),
    Not(&'static str, &'static str),
    Shutdown,
    Exit,
    Cancel(Ids),
    /// Cancels the latest request that was accepted.
    CancelLast,
    UnknownReq(Ids),
    UnknownNot,
    /// A request whose params have the wrong shape.
    BadReq(&'static str, Ids),
    BadNot(&'static str),
    /// A notification for a request method and the other way around.
    NotForReq(&'static str),
    ReqForNot(&'static str, Ids),
}

#[derive(Clone, Debug, PartialEq)]
enum Disp {
    Exec,
    Reject(i64, &'static [&'static str]),
    Ignore(&'static [&'static str]),
    Exited,
    Exit,
    Cancel(Id),
}

struct Call {
    label: String,
    method: String,
    ops: &'static str,
    id: Option<Id>,
    k: u32,
    disp: Disp,
    task: Task<Result<Option<Response>, ExitedError>>,
    aborted: bool,
    dropped: bool,
    started: bool,
    finished: bool,
    done: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Life {
    Uninit,
    Initing(usize),
    Inited,
    Shut,
    Exited,
}

#[derive(Clone)]
pub struct Cfg {
    pub name: &'static str,
    pub msgs: Vec<Msg>,
    /// Messages sent and completed before exploration starts.
    pub preamble: Vec<Msg>,
    pub depth: usize,
    /// "send" = call and poll at once; "split" = calls and polls are separate actions.
    pub split: bool,
    /// Futures of `initialize` may be dropped before they complete.
    pub drop_init: bool,
    /// Tasks may be polled although nothing woke them.
    pub spurious: bool,
    pub shutdown_ops: &'static str,
    pub max_live: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            name: "",
            msgs: vec![],
            preamble: vec![],
            depth: 5,
            split: false,
            drop_init: false,
            spurious: false,
            shutdown_ops: "g",
            max_live: 4,
        }
    }
}

pub const INIT_OK: Msg = Msg::Req("initialize", "", Ids::Num(900));

struct World<'a> {
    cfg: &'a Cfg,
    svc: LspService<Backend>,
    socket: ClientSocket,
    shared: Shared,
    calls: Vec<Call>,
    life: Life,
    inflight: Vec<(Id, usize)>,
    seen: usize,
    next_id: i64,
    next_k: u32,
    shutdowns: u32,
    initialized: u32,
}

fn id_json(id: &Id) -> Value {
    match id {
        Id::Number(n) => json!(n),
        Id::String(s) => json!(s),
        Id::Null => Value::Null,
    }
}

pub fn build(shared: &Shared) -> (LspService<Backend>, ClientSocket) {
    LspService::build(|c| Backend::new(shared, c))
        .custom_method("t/req", Backend::t_req)
        .custom_method("t/not", Backend::t_not)
        .finish()
}

pub fn request(method: &str, id: Option<Id>, params: Option<Value>) -> Request {
    let mut b = Request::build(method.to_string());
    if let Some(p) = params {
        b = b.params(p);
    }
    if let Some(id) = id {
        b = b.id(id);
    }
    b.finish()
}

impl<'a> World<'a> {
    fn new(cfg: &'a Cfg) -> Self {
        let shared = Shared::default();
        shared.0.lock().unwrap().scripts.insert(SHUTDOWN, cfg.shutdown_ops.into());
        let (svc, socket) = build(&shared);
        World {
            cfg,
            svc,
            socket,
            shared,
            calls: vec![],
            life: Life::Uninit,
            inflight: vec![],
            seen: 0,
            next_id: 1000,
            next_k: 1,
            shutdowns: 0,
            initialized: 0,
        }
    }

    fn id(&mut self, sel: &Ids) -> Id {
        match sel {
            Ids::Fresh => {
                self.next_id += 1;
                Id::Number(self.next_id - 1)
            }
            Ids::Num(n) => Id::Number(*n),
            Ids::Str(s) => Id::String(s.to_string()),
            Ids::Null => Id::Null,
        }
    }

    /// What the model says about a request for a method in the normal or shutdown group.
    fn gate(&self) -> Option<Disp> {
        match self.life {
            Life::Inited => None,
            Life::Uninit | Life::Initing(_) => Some(Disp::Reject(-32002, &["C07"])),
            Life::Shut => Some(Disp::Reject(-32600, &["C09"])),
            Life::Exited => Some(Disp::Exited),
        }
    }

    fn in_flight(&self, id: &Id) -> bool {
        self.inflight.iter().any(|e| e.0 == *id)
    }

    /// Whether the message may be sent now (the properties leave some situations unspecified).
    fn sendable(&self, m: &Msg) -> bool {
        if self.calls.iter().filter(|c| c.task.live()).count() >= self.cfg.max_live
            && *m != Msg::Exit
            && !matches!(m, Msg::Cancel(_) | Msg::CancelLast)
        {
            return false;
        }
        match m {
            Msg::Req("initialize", ..) | Msg::BadReq("initialize", ..) => {
                // Whether a cancelled initialize still counts as being in progress until it has
                // been answered is left open.
                !matches!(self.life, Life::Initing(i) if self.calls[i].aborted)
            }
            Msg::CancelLast => self.calls.iter().any(|c| c.id.is_some() && c.disp == Disp::Exec && !c.dropped),
            _ => true,
        }
    }

    fn call(&mut self, m: &Msg) -> usize {
        let i = self.calls.len();
        let k = self.next_k;
        self.next_k += 1;
        let (method, id, params, ops, disp): (String, Option<Id>, Option<Value>, &'static str, Disp);
        let ignore = |w: &World| -> Disp {
            match w.gate() {
                None => Disp::Ignore(&["C06"]),
                Some(Disp::Reject(_, t)) => Disp::Ignore(t),
                Some(d) => d,
            }
        };
        let mut key = k;
        match m {
            Msg::Req("initialize", o, sel) => {
                let the_id = self.id(sel);
                disp = match self.life {
                    Life::Uninit => {
                        self.life = Life::Initing(i);
                        self.inflight.push((the_id.clone(), i));
                        Disp::Exec
                    }
                    Life::Exited => Disp::Exited,
                    Life::Shut => Disp::Reject(-32600, &["C08", "C09"]),
                    _ => Disp::Reject(-32600, &["C08"]),
                };
                method = "initialize".into();
                id = Some(the_id);
                params = backend::params("initialize", k, o);
                ops = o;
            }
            Msg::Req(name, o, sel) => {
                let the_id = self.id(sel);
                disp = self.gate().unwrap_or_else(|| {
                    if self.in_flight(&the_id) {
                        Disp::Reject(-32600, &["C13"])
                    } else {
                        Disp::Exec
                    }
                });
                if disp == Disp::Exec {
                    self.inflight.push((the_id.clone(), i));
                }
                method = name.to_string();
                id = Some(the_id);
                params = backend::params(name, k, o);
                ops = o;
            }
            Msg::Not(name, o) => {
                disp = match self.gate() {
                    None => Disp::Exec,
                    Some(Disp::Reject(_, t)) => Disp::Ignore(t),
                    Some(d) => d,
                };
                if *name == "initialized" && disp == Disp::Exec {
                    self.initialized += 1;
                    key = 9300 + self.initialized;
                }
                method = name.to_string();
                id = None;
                params = backend::params(name, k, o);
                ops = o;
            }
            Msg::Shutdown => {
                let the_id = self.id(&Ids::Fresh);
                disp = self.gate().unwrap_or(Disp::Exec);
                if disp == Disp::Exec {
                    self.shutdowns += 1;
                    self.life = Life::Shut;
                    self.inflight.push((the_id.clone(), i));
                    key = SHUTDOWN + self.shutdowns;
                }
                method = "shutdown".into();
                id = Some(the_id);
                params = None;
                ops = self.cfg.shutdown_ops;
            }
            Msg::Exit => {
                disp = if self.life == Life::Exited { Disp::Exited } else { Disp::Exit };
                method = "exit".into();
                (id, params, ops) = (None, None, "");
            }
            Msg::Cancel(_) | Msg::CancelLast => {
                let target = match m {
                    Msg::Cancel(sel) => self.id(sel),
                    _ => {
                        let c = self.calls.iter().rev();
                        c.into_iter()
                            .find(|c| c.id.is_some() && c.disp == Disp::Exec && !c.dropped)
                            .unwrap()
                            .id
                            .clone()
                            .unwrap()
                    }
                };
                disp = if self.life == Life::Exited {
                    Disp::Exited
                } else {
                    Disp::Cancel(target.clone())
                };
                method = "$/cancelRequest".into();
                id = None;
                params = Some(json!({ "id": id_json(&target) }));
                ops = "";
            }
            Msg::UnknownReq(sel) => {
                let the_id = self.id(sel);
                disp = if self.life == Life::Exited {
                    Disp::Exited
                } else {
                    Disp::Reject(-32601, &["C06"])
                };
                method = "t/unknown".into();
                id = Some(the_id);
                (params, ops) = (backend::params("t/unknown", k, ""), "");
            }
            Msg::UnknownNot => {
                disp = if self.life == Life::Exited { Disp::Exited } else { Disp::Ignore(&["C06"]) };
                method = "t/unknown".into();
                id = None;
                (params, ops) = (backend::params("t/unknown", k, ""), "");
            }
            Msg::BadReq("initialize", sel) => {
                let the_id = self.id(sel);
                // It fails, so it leaves the server as it was once it has been answered.
                disp = match self.life {
                    Life::Uninit => {
                        self.life = Life::Initing(i);
                        self.inflight.push((the_id.clone(), i));
                        Disp::Reject(-32602, &["C06"])
                    }
                    Life::Exited => Disp::Exited,
                    _ => Disp::Reject(-32600, &["C08"]),
                };
                method = "initialize".into();
                id = Some(the_id);
                (params, ops) = (Some(json!({"capabilities": 1})), "");
            }
            Msg::BadReq(name, sel) => {
                let the_id = self.id(sel);
                disp = self.gate().unwrap_or_else(|| {
                    if self.in_flight(&the_id) {
                        Disp::Reject(-32600, &["C13"])
                    } else {
                        self.inflight.push((the_id.clone(), i));
                        Disp::Reject(-32602, &["C06"])
                    }
                });
                method = name.to_string();
                id = Some(the_id);
                (params, ops) = (if k % 2 == 0 { None } else { Some(json!("bad")) }, "");
            }
            Msg::BadNot(name) => {
                disp = ignore(self);
                method = name.to_string();
                id = None;
                (params, ops) = (if k % 2 == 0 { None } else { Some(json!(1)) }, "");
            }
            Msg::NotForReq(name) => {
                disp = ignore(self);
                method = name.to_string();
                id = None;
                (params, ops) = (backend::params(name, k, ""), "");
            }
            Msg::ReqForNot(name, sel) => {
                let the_id = self.id(sel);
                disp = self.gate().unwrap_or_else(|| {
                    if !self.in_flight(&the_id) {
                        self.inflight.push((the_id.clone(), i));
                    }
                    Disp::Reject(-32600, &["C06"])
                });
                method = name.to_string();
                id = Some(the_id);
                (params, ops) = (backend::params(name, k, ""), "");
            }
        }
        let was_exited = self.life == Life::Exited;
        let ready = noop_cx(|cx| self.svc.poll_ready(cx));
        match ready {
            std::task::Poll::Ready(Err(_)) => {
                check!(was_exited, &["C07", "C10", "C16"], "ready-err", "poll_ready fails before exit")
            }
            std::task::Poll::Ready(Ok(())) => {
                check!(!was_exited, &["C10"], "ready-after-exit", "poll_ready succeeds after exit")
            }
            std::task::Poll::Pending => report(
                if was_exited { &["C10"] } else { &["C08", "C15"] },
                "ready-pending",
                format!("poll_ready is pending in state {:?}", self.life),
            ),
        }
        let label = format!("{method}#{i}{}", id.as_ref().map_or(String::new(), |i| format!("[{i:?}]")));
        step(&format!("call {label} {}", if ops.is_empty() { "" } else { ops }));
        note(|| format!("  model: {disp:?} in {:?}", self.life));
        let fut = self.svc.call(request(&method, id.clone(), params));
        if disp == Disp::Exit {
            self.life = Life::Exited;
            for (_, j) in std::mem::take(&mut self.inflight) {
                self.calls[j].aborted = true;
            }
        }
        self.calls.push(Call {
            label,
            method,
            ops,
            id,
            k: key,
            disp,
            task: Task::new(fut),
            aborted: false,
            dropped: false,
            started: false,
            finished: false,
            done: false,
        });
        self.events();
        i
    }

    /// Checks the handler events since the last action.
    fn events(&mut self) {
        let evs = self.shared.since(self.seen);
        self.seen += evs.len();
        for e in evs {
            step(&format!("{e:?}"));
            let k = match &e {
                Ev::Start(k) | Ev::Step(k, _) | Ev::Finish(k) | Ev::Drop(k) | Ev::AtGate(k) => *k,
                Ev::Sent(k, _) | Ev::ReqDone(k, ..) => *k,
                Ev::Mark(_) => continue,
            };
            let Some(c) = self.calls.iter_mut().find(|c| c.k == k) else {
                report(
                    &["C06", "C07", "C09", "C24"],
                    "foreign-handler",
                    format!("a handler ran that no message asked for (key {k})"),
                );
                continue;
            };
            match e {
                Ev::Start(_) => {
                    match &c.disp {
                        Disp::Exec => {}
                        Disp::Reject(_, t) | Disp::Ignore(t) => report(
                            t,
                            format!("ran-{}", t[0]),
                            format!("the handler of {} ran although the message must be refused", c.label),
                        ),
                        _ => report(
                            &["C10"],
                            "ran-C10",
                            format!("the handler of {} ran after exit", c.label),
                        ),
                    }
                    check!(!c.started, &["C06", "C08", "C09"], "ran-twice", "handler of {} ran twice", c.label);
                    c.started = true;
                    if c.aborted {
                        report(&["C10", "C12"], "start-after-cancel", format!("{} started after it was cancelled", c.label));
                    }
                }
                Ev::Drop(_) => {
                    check!(
                        c.aborted || c.dropped || (c.id.is_none() && self.life == Life::Exited),
                        &["C09", "C11", "C12", "C13"],
                        "dropped",
                        "the handler of {} was dropped although nothing cancelled it",
                        c.label
                    );
                    c.finished = true;
                }
                Ev::AtGate(_) => {}
                _ => {
                    if c.aborted {
                        report(
                            if self.life == Life::Exited { &["C10", "C12"] } else { &["C12"] },
                            "ran-after-cancel",
                            format!("the handler of {} ran further after it was cancelled", c.label),
                        );
                    }
                    if let Ev::Finish(_) = e {
                        c.finished = true;
                    }
                }
            }
        }
    }

    fn poll(&mut self, i: usize) {
        step(&format!("poll #{i}"));
        let r = self.calls[i].task.poll();
        self.events();
        let Some(r) = r else {
            step("pending");
            return;
        };
        self.calls[i].done = true;
        let (label, id, k, ops, disp, aborted, method) = {
            let c = &self.calls[i];
            (c.label.clone(), c.id.clone(), c.k, c.ops, c.disp.clone(), c.aborted, c.method.clone())
        };
        let r = match r {
            Ok(r) => r.map(|r| r.into_parts()),
            Err(_) => {
                step("exited error");
                match disp {
                    Disp::Exited => {}
                    _ if self.life == Life::Exited => report(
                        &["C10", "C11"],
                        "exited-error",
                        format!("{label} was accepted before exit but ends with the exited error"),
                    ),
                    _ => report(&["C11", "C10"], "exited-error-early", format!("{label} ends with the exited error")),
                }
                return;
            }
        };
        step(&format!("-> {:?}", r.as_ref().map(|(i, b)| (i, b.as_ref().map_err(|e| e.code.code())))));
        if let Some((rid, _)) = &r {
            check!(
                id.as_ref() == Some(rid),
                &["C11", "C04"],
                "wrong-id",
                "{label} is answered with id {rid:?}"
            );
        }
        if disp == Disp::Exited {
            report(&["C10"], "served-after-exit", format!("{label} was received after exit but ends with {r:?}"));
            return;
        }
        check!(
            r.is_some() == id.is_some(),
            &["C11"],
            "response-count",
            "{label} ends with {r:?}"
        );
        let code = match &r {
            Some((_, Err(e))) => e.code.code(),
            _ => 0,
        };
        let body = r.clone().map(|(_, b)| b.map_err(|e| serde_json::to_value(e).unwrap()));
        match disp {
            Disp::Exec | Disp::Reject(..) if aborted => {
                if self.calls[i].id.is_some() {
                    // A message that is refused anyway may be refused or answered as cancelled.
                    let refused = matches!(disp, Disp::Reject(want, _) if code == want);
                    check!(
                        code == -32800 || refused,
                        if self.life == Life::Exited { &["C10", "C12", "C16"] } else { &["C12", "C08"] },
                        "cancel-answer",
                        "{label} was cancelled but is answered with {r:?}"
                    );
                }
                let c = &self.calls[i];
                check!(
                    !c.started || c.finished,
                    &["C12", "C10"],
                    "cancel-leak",
                    "{label} was answered as cancelled but its handler is still alive"
                );
                if self.life == Life::Initing(i) {
                    self.life = Life::Uninit;
                }
            }
            // Notifications that were queued when exit arrived may run or not.
            Disp::Exec if id.is_none() && self.life == Life::Exited => {}
            Disp::Exec => {
                let c = &self.calls[i];
                check!(
                    c.started && c.finished,
                    &["C06", "C07", "C11"],
                    "early",
                    "{label} ended before its handler did: {r:?}"
                );
                if let Some(body) = body {
                    let want = backend::expected(&method, k, ops);
                    let tags: &'static [&'static str] = match method.as_str() {
                        "initialize" => &["C06", "C08", "C11"],
                        "shutdown" => &["C06", "C09", "C11"],
                        _ => &["C06", "C07", "C09", "C11", "C12", "C13"],
                    };
                    check!(body == want, tags, "result", "{label} is answered with {body:?} instead of {want:?}");
                }
                self.inflight.retain(|e| e.1 != i);
                if self.life == Life::Initing(i) {
                    self.life = if ops.contains('e') { Life::Uninit } else { Life::Inited };
                }
            }
            Disp::Reject(want, tags) => {
                check!(
                    code == want,
                    tags,
                    format!("reject-{}", tags[0]),
                    "{label} must be answered with {want} but ends with {r:?}"
                );
                if want == -32601 {
                    let data = match &r {
                        Some((_, Err(e))) => e.data.clone(),
                        _ => None,
                    };
                    check!(data == Some(json!(method)), &["C06"], "unknown-data", "{label}: error data {data:?}");
                }
                self.inflight.retain(|e| e.1 != i);
                if self.life == Life::Initing(i) {
                    self.life = Life::Uninit;
                }
            }
            Disp::Cancel(id) => {
                if let Some(p) = self.inflight.iter().position(|e| e.0 == id) {
                    let (_, j) = self.inflight.remove(p);
                    self.calls[j].aborted = true;
                    note(|| format!("  model: cancelled #{j}"));
                }
            }
            Disp::Ignore(_) | Disp::Exit | Disp::Exited => {}
        }
    }

    fn drop_call(&mut self, i: usize) {
        step(&format!("drop #{i}"));
        self.calls[i].dropped = true;
        self.calls[i].task.fut = None;
        self.inflight.retain(|e| e.1 != i);
        if self.life == Life::Initing(i) {
            self.life = Life::Uninit;
        }
        self.events();
    }

    /// Polls what was woken until nothing is.
    fn quiesce(&mut self) {
        let mut n = 0;
        while let Some(i) = (0..self.calls.len()).find(|i| self.calls[*i].task.ready()) {
            self.poll(i);
            n += 1;
            if n > 200 {
                report(&["*"], "livelock", "tasks keep waking themselves");
                return;
            }
        }
    }

    fn drain(&mut self) {
        step("drain");
        self.quiesce();
        for c in &self.calls {
            let waiting = c.started && !c.finished && c.disp == Disp::Exec && !c.aborted;
            if c.task.live() && !waiting {
                let tags: &'static [&'static str] = if c.aborted {
                    if self.life == Life::Exited { &["C10", "C11", "C12"] } else { &["C11", "C12"] }
                } else {
                    &["C11"]
                };
                report(tags, "stuck", format!("{} is not answered although nothing is left to wait for", c.label));
            }
        }
        for _ in 0..4 {
            for k in self.shared.at_gate() {
                step(&format!("open {k}"));
                self.shared.open(k);
            }
            self.quiesce();
        }
        for c in &self.calls {
            check!(
                c.done || c.dropped || c.aborted,
                &["C11"],
                "unanswered",
                "{} is never answered although its handler could finish",
                c.label
            );
        }
        if self.life == Life::Exited {
            let r = noop_cx(|cx| futures::Stream::poll_next(std::pin::Pin::new(&mut self.socket), cx));
            check!(
                matches!(r, std::task::Poll::Ready(None)),
                &["C10"],
                "stream-open",
                "the stream of client messages does not end after exit: {r:?}"
            );
        }
    }

    fn explore(&mut self) {
        for m in &self.cfg.preamble.clone() {
            let i = self.call(m);
            self.poll(i);
        }
        for _ in 0..self.cfg.depth {
            #[derive(Clone, Copy)]
            enum A {
                Poll(usize),
                Send(usize),
                Open(u32),
                Drop(usize),
            }
            let mut acts = vec![];
            for (i, c) in self.calls.iter().enumerate() {
                if c.task.ready() || (self.cfg.spurious && c.task.live()) {
                    acts.push(A::Poll(i));
                }
            }
            for (i, m) in self.cfg.msgs.iter().enumerate() {
                if self.sendable(m) {
                    acts.push(A::Send(i));
                }
            }
            for k in self.shared.at_gate() {
                acts.push(A::Open(k));
            }
            if self.cfg.drop_init {
                for (i, c) in self.calls.iter().enumerate() {
                    if c.method == "initialize" && c.task.live() {
                        acts.push(A::Drop(i));
                    }
                }
            }
            if acts.is_empty() {
                break;
            }
            match acts[pick("act", acts.len())] {
                A::Poll(i) => self.poll(i),
                A::Send(m) => {
                    let m = self.cfg.msgs[m].clone();
                    let i = self.call(&m);
                    if !self.cfg.split {
                        self.poll(i);
                    }
                }
                A::Open(k) => {
                    step(&format!("open {k}"));
                    self.shared.open(k);
                }
                A::Drop(i) => self.drop_call(i),
            }
        }
        self.drain();
    }
}

pub fn group(cfg: Cfg) -> Group {
    let name = format!("{} depth {}", cfg.name, cfg.depth);
    let text = format!(
        "start after {:?}; every sequence of {} {:?}; depth {}",
        cfg.preamble,
        if cfg.split { "calls, polls, gates over" } else { "sends, polls, gates over" },
        cfg.msgs,
        cfg.depth
    );
    Group {
        also: &[],
        name,
        scenarios: 1,
        bound: None,
        isolate: false,
        data: None,
        describe: Box::new(move |_| text.clone()),
        run: Box::new(move |_| World::new(&cfg).explore()),
    }
}

/// Several configurations as the scenarios of one group.
fn together(name: &str, cfgs: Vec<Cfg>) -> Group {
    let all: Vec<Group> = cfgs.into_iter().map(group).collect();
    let all = std::sync::Arc::new(all);
    let texts = all.clone();
    Group {
        also: &[],
        name: name.into(),
        scenarios: all.len(),
        bound: None,
        isolate: false,
        data: None,
        describe: Box::new(move |i| (texts[i].describe)(0)),
        run: Box::new(move |i| (all[i].run)(0)),
    }
}

const C: &str = "t/req";
const N: &str = "t/not";
const B: &str = "workspace/executeCommand";
const BN: &str = "workspace/didChangeConfiguration";

/// Lifecycle scenarios: C07, C08, C09, C10, C11.
pub fn lifecycle(d: u32) -> Vec<Group> {
    let d = d as usize;
    use Ids::*;
    use Msg::*;
    let mut v = vec![];
    for (name, req, not) in [("life-custom", C, N), ("life-builtin", B, BN)] {
        v.push(Cfg {
            name,
            msgs: vec![
                Req("initialize", "g", Fresh),
                Req("initialize", "ge", Fresh),
                Req(req, "", Fresh),
                Not(not, ""),
                Shutdown,
                Exit,
                CancelLast,
            ],
            depth: 6 + d,
            ..Cfg::default()
        });
    }
    v.push(Cfg {
        name: "life-split",
        msgs: vec![Req("initialize", "g", Fresh), Req("initialize", "e", Fresh), Req(C, "", Fresh), Shutdown, Exit],
        split: true,
        drop_init: true,
        depth: 6 + d,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "life-edge",
        msgs: vec![
            Req("initialize", "y", Fresh),
            BadReq("initialize", Fresh),
            NotForReq("initialize"),
            Not("initialized", ""),
            BadReq(C, Fresh),
            UnknownReq(Fresh),
            UnknownNot,
            ReqForNot(N, Fresh),
            Exit,
        ],
        split: false,
        depth: 5 + d,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "shutdown",
        preamble: vec![INIT_OK],
        msgs: vec![
            Req(C, "g", Fresh),
            Req(B, "", Fresh),
            Not(N, "g"),
            Not(BN, ""),
            Req("initialize", "", Fresh),
            Shutdown,
            Exit,
            CancelLast,
        ],
        depth: 5 + d,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "shutdown-split",
        preamble: vec![INIT_OK],
        msgs: vec![Req(C, "g", Fresh), Not(N, ""), Shutdown, Exit],
        split: true,
        spurious: true,
        depth: 6 + d,
        ..Cfg::default()
    });
    v.into_iter().map(group).collect()
}

/// Cancellation and request ids: C11, C12, C13.
pub fn cancel(d: u32) -> Vec<Group> {
    let d = d as usize;
    use Ids::*;
    use Msg::*;
    let mut v = vec![];
    for (name, req) in [("cancel-custom", C), ("cancel-builtin", B)] {
        v.push(Cfg {
            name,
            preamble: vec![INIT_OK],
            msgs: vec![
                Req(req, "g", Num(1)),
                Req(req, "gg", Num(1)),
                Req(req, "g", Str("1")),
                Cancel(Num(1)),
                Cancel(Str("1")),
                Req(req, "ge", Num(2)),
            ],
            depth: 6 + d,
            ..Cfg::default()
        });
        v.push(Cfg {
            name: if name == "cancel-custom" { "cancel-split-custom" } else { "cancel-split-builtin" },
            preamble: vec![INIT_OK],
            msgs: vec![Req(req, "g", Num(1)), Req(req, "", Num(2)), Cancel(Num(1)), Cancel(Num(2))],
            split: true,
            depth: 7 + d,
            ..Cfg::default()
        });
    }
    v.push(Cfg {
        name: "cancel-null",
        preamble: vec![INIT_OK],
        msgs: vec![
            Req(C, "g", Null),
            Req(B, "g", Str("null")),
            Req(C, "g", Str("")),
            Cancel(Str("null")),
            Cancel(Str("")),
            Req(C, "g", Num(0)),
            Cancel(Num(0)),
            Req(C, "", Num(-1)),
        ],
        depth: 5 + d,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "cancel-shutdown",
        preamble: vec![INIT_OK],
        msgs: vec![
            Req(C, "g", Num(1)),
            Req(B, "yg", Num(2)),
            Cancel(Num(1)),
            Cancel(Num(2)),
            CancelLast,
            Shutdown,
            Exit,
        ],
        depth: 5 + d,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "ids-edge",
        preamble: vec![INIT_OK],
        msgs: vec![
            Req(C, "g", Num(1)),
            BadReq(C, Num(1)),
            BadReq(B, Num(2)),
            Req(B, "", Num(2)),
            ReqForNot(N, Num(3)),
            Req(C, "", Num(3)),
            Cancel(Num(1)),
            NotForReq(C),
            BadNot(BN),
        ],
        depth: 5 + d,
        ..Cfg::default()
    });
    v.push(Cfg {
        name: "spurious",
        preamble: vec![INIT_OK],
        msgs: vec![Req(C, "gg", Num(1)), Req(C, "g", Num(2)), Cancel(Num(1))],
        split: true,
        spurious: true,
        depth: 7 + d,
        ..Cfg::default()
    });
    let mut v: Vec<Group> = v.into_iter().map(group).collect();
    // Requests with any two ids in progress, of which either is cancelled.
    let (mut pairs, mut strays) = (vec![], vec![]);
    for a in ID_KINDS {
        for b in ID_KINDS {
            if a == b {
                continue;
            }
            // LSP cannot name null and larger numbers in a cancellation.
            let cancel = |i: &Ids| match i {
                Null => None,
                Num(n) if i32::try_from(*n).is_err() => None,
                _ => Some(Cancel(i.clone())),
            };
            let mut msgs = vec![Req(B, "", a.clone())];
            msgs.extend(cancel(a));
            msgs.extend(cancel(b));
            pairs.push(Cfg {
                name: "pair",
                preamble: vec![INIT_OK, Req(C, "g", a.clone()), Req(C, "g", b.clone())],
                msgs,
                depth: 3 + d,
                ..Cfg::default()
            });
            strays.push(Cfg {
                name: "stray",
                preamble: vec![INIT_OK, Req(C, "g", a.clone())],
                msgs: vec![Cancel(b.clone()), Req(C, "", a.clone())],
                depth: 2 + d,
                ..Cfg::default()
            });
        }
    }
    v.push(together("cancel-strays", strays));
    v.push(together("cancel-pairs", pairs));
    v
}

const ID_KINDS: &[Ids] = {
    use Ids::*;
    &[
        Num(0), Num(1), Num(-1), Num(i32::MAX as i64), Num(i32::MIN as i64), Num(u32::MAX as i64), Num(1 << 32),
        Num(-(1 << 31) - 1), Num(i64::MIN), Num(256), Str("0"), Str("1"), Str("-1"), Str("01"), Str("2147483647"), Str("-2147483648"),
        Str("4294967295"), Str(""), Str(" 1"), Str("a"), Str("A"), Str("\u{e9}"), Str("e\u{301}"), Str("null"), Null,
    ]
};

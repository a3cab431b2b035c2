//! Transport-level world: a real `Server::serve` between scripted ends, driven one event at a time.

use std::collections::{HashMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::Id;
use tower_lsp::Server;

use crate::backend::{self, Ev, Shared, Task, SHUTDOWN};
use crate::check;
use crate::engine::{choose, note, report, step, Group, LIVELOCK};
use crate::life::{build, request};

#[derive(Clone, Debug, PartialEq)]
pub enum Cuts {
    /// Every read returns all that is available.
    Whole,
    /// At every read, every number of bytes may be returned; the input then stalls until the
    /// server has become idle.
    Choose,
    /// Reads end at these offsets of the stream, with a stall after each.
    At(Vec<usize>),
    /// Every read returns this many bytes, without a stall.
    Every(usize),
    /// Every read returns this many bytes, with a stall after each.
    EveryStall(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Plain,
    /// Every write may be accepted in full, by one byte, by half, or not yet; every flush and the
    /// final shutdown may be pending at first.
    Choose,
    /// Every write accepts this many bytes at most.
    Every(usize),
    /// Every other write is pending at first.
    Pending,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Write(usize),
    WriteZero(usize),
    Flush(usize),
    Shutdown,
    Read(usize),
}

pub struct IoState {
    inbuf: VecDeque<u8>,
    offset: usize,
    eof: bool,
    stalled: bool,
    in_waker: Option<Waker>,
    /// The server is waiting for input: its last read returned pending.
    pub reading: bool,
    reads: usize,
    cuts: Cuts,
    pub out: Vec<u8>,
    flushed: usize,
    shutdown: bool,
    blocked: bool,
    parked: bool,
    out_waker: Option<Waker>,
    mode: Out,
    writes: usize,
    flushes: usize,
    fault: Fault,
    faulted: bool,
    parsed: usize,
    frames: Vec<Value>,
    ops: usize,
    budget: usize,
}

#[derive(Clone)]
pub struct Io(pub Arc<Mutex<IoState>>);

impl Io {
    fn new(cuts: Cuts, mode: Out, fault: Fault) -> Self {
        Io(Arc::new(Mutex::new(IoState {
            inbuf: VecDeque::new(),
            offset: 0,
            eof: false,
            stalled: false,
            in_waker: None,
            reading: false,
            reads: 0,
            cuts,
            out: vec![],
            flushed: 0,
            shutdown: false,
            blocked: false,
            parked: false,
            out_waker: None,
            mode,
            writes: 0,
            flushes: 0,
            fault,
            faulted: false,
            parsed: 0,
            frames: vec![],
            ops: 0,
            budget: 0,
        })))
    }
}

fn broken() -> io::Error {
    io::Error::new(io::ErrorKind::BrokenPipe, "injected fault")
}

impl IoState {
    fn op(&mut self) {
        self.ops += 1;
        if self.ops > 3000 + self.budget {
            panic!("{LIVELOCK}: the server performs I/O without end within one poll");
        }
    }

    /// Returns the bytes to hand out, or None if pending.
    fn read(&mut self, max: usize, cx: &mut Context) -> Poll<io::Result<Vec<u8>>> {
        self.op();
        if let Fault::Read(n) = self.fault {
            // Reads that find nothing yet do not count.
            if self.reads >= n && (self.eof || !self.inbuf.is_empty()) {
                self.faulted = true;
                self.reading = false;
                step("read fails");
                return Poll::Ready(Err(broken()));
            }
        }
        if self.stalled || (self.inbuf.is_empty() && !self.eof) {
            self.in_waker = Some(cx.waker().clone());
            self.reading = true;
            return Poll::Pending;
        }
        self.reading = false;
        if self.inbuf.is_empty() {
            return Poll::Ready(Ok(vec![]));
        }
        self.reads += 1;
        let avail = self.inbuf.len().min(max);
        let (n, stall) = match &self.cuts {
            Cuts::Whole => (avail, false),
            Cuts::Choose => match choose("cut", avail) {
                0 => (avail, false),
                n => (n, true),
            },
            Cuts::At(at) => match at.iter().find(|a| **a > self.offset && **a < self.offset + avail) {
                Some(a) => (*a - self.offset, true),
                None => (avail, false),
            },
            Cuts::Every(n) => ((*n).min(avail), false),
            Cuts::EveryStall(n) => ((*n).min(avail), self.inbuf.len() > *n),
        };
        self.stalled = stall;
        self.offset += n;
        Poll::Ready(Ok(self.inbuf.drain(..n).collect()))
    }

    fn pend(&mut self, cx: &mut Context) {
        self.out_waker = Some(cx.waker().clone());
        self.blocked = true;
        self.parked = true;
    }

    fn write(&mut self, buf: &[u8], cx: &mut Context) -> Poll<io::Result<usize>> {
        self.op();
        if self.blocked {
            self.pend(cx);
            return Poll::Pending;
        }
        let resumed = std::mem::take(&mut self.parked);
        self.writes += 1;
        match self.fault {
            Fault::Write(n) if self.writes > n => {
                self.faulted = true;
                step("write fails");
                return Poll::Ready(Err(broken()));
            }
            Fault::WriteZero(n) if self.writes > n => {
                self.faulted = true;
                step("write accepts nothing");
                return Poll::Ready(Ok(0));
            }
            _ => {}
        }
        let n = match self.mode {
            Out::Plain => buf.len(),
            Out::Every(n) => n.min(buf.len()),
            Out::Pending if !resumed => {
                self.pend(cx);
                return Poll::Pending;
            }
            Out::Pending => buf.len(),
            Out::Choose => {
                let opts = if resumed { 3 } else { 4 };
                match choose("write", opts) {
                    0 => buf.len(),
                    1 => 1,
                    2 => (buf.len() + 1) / 2,
                    _ => {
                        self.pend(cx);
                        return Poll::Pending;
                    }
                }
            }
        };
        if self.shutdown {
            report(&["C16", "C03"], "write-after-close", "the output is written to after it was closed");
        }
        self.out.extend_from_slice(&buf[..n]);
        self.parse();
        Poll::Ready(Ok(n))
    }

    fn flush(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
        self.op();
        if self.blocked {
            self.pend(cx);
            return Poll::Pending;
        }
        let resumed = std::mem::take(&mut self.parked);
        self.flushes += 1;
        if let Fault::Flush(n) = self.fault {
            if self.flushes > n {
                self.faulted = true;
                step("flush fails");
                return Poll::Ready(Err(broken()));
            }
        }
        // The codec of the agnostic runtime (a dependency) loses a pending flush.
        if cfg!(feature = "tokio")
            && self.mode == Out::Choose
            && !resumed
            && self.flushed < self.out.len()
            && choose("flush", 2) == 1
        {
            self.pend(cx);
            return Poll::Pending;
        }
        self.flushed = self.out.len();
        Poll::Ready(Ok(()))
    }

    fn close(&mut self, cx: &mut Context) -> Poll<io::Result<()>> {
        self.op();
        if self.blocked {
            self.pend(cx);
            return Poll::Pending;
        }
        let resumed = std::mem::take(&mut self.parked);
        if self.fault == Fault::Shutdown {
            self.faulted = true;
            step("close fails");
            return Poll::Ready(Err(broken()));
        }
        if self.mode == Out::Choose && !resumed && choose("close", 2) == 1 {
            self.pend(cx);
            return Poll::Pending;
        }
        self.flushed = self.out.len();
        self.shutdown = true;
        step("output closed");
        Poll::Ready(Ok(()))
    }

    /// Strict incremental parser of what the server writes.
    fn parse(&mut self) {
        loop {
            let rest = &self.out[self.parsed..];
            if rest.is_empty() {
                return;
            }
            const H: &[u8] = b"Content-Length: ";
            let n = rest.len().min(H.len());
            let mut bad = rest[..n] != H[..n];
            if !bad && rest.len() > H.len() {
                let digits = rest[H.len()..].iter().take_while(|b| b.is_ascii_digit()).count();
                let after = &rest[H.len() + digits..];
                let n = after.len().min(4);
                bad = (digits == 0) || after[..n] != b"\r\n\r\n"[..n] || (digits > 1 && rest[H.len()] == b'0');
                if !bad && after.len() >= 4 {
                    let len: usize =
                        std::str::from_utf8(&rest[H.len()..H.len() + digits]).unwrap().parse().unwrap();
                    if after.len() < 4 + len {
                        return;
                    }
                    let body = &after[4..4 + len];
                    match serde_json::from_slice::<Value>(body) {
                        Ok(v) => {
                            step(&format!("out {v}"));
                            self.frames.push(v);
                            self.parsed += H.len() + digits + 4 + len;
                            continue;
                        }
                        Err(e) => {
                            report(
                                &["C03"],
                                "bad-body",
                                format!("a written body is not JSON ({e}): {:?}", String::from_utf8_lossy(body)),
                            );
                            self.parsed += H.len() + digits + 4 + len;
                            continue;
                        }
                    }
                }
            }
            if bad {
                report(
                    &["C03"],
                    "bad-frame",
                    format!("malformed output at offset {}: {:?}", self.parsed, String::from_utf8_lossy(rest)),
                );
                self.parsed = self.out.len();
            }
            return;
        }
    }
}

pub struct Stdin(pub Io);
pub struct Stdout(pub Io);

#[cfg(feature = "tokio")]
impl tokio::io::AsyncRead for Stdin {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context,
        buf: &mut tokio::io::ReadBuf,
    ) -> Poll<io::Result<()>> {
        let r = self.0 .0.lock().unwrap().read(buf.remaining(), cx);
        r.map(|r| r.map(|v| buf.put_slice(&v)))
    }
}

#[cfg(feature = "tokio")]
impl tokio::io::AsyncWrite for Stdout {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0 .0.lock().unwrap().write(buf, cx)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        self.0 .0.lock().unwrap().flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        self.0 .0.lock().unwrap().close(cx)
    }
}

#[cfg(feature = "agnostic")]
impl futures::AsyncRead for Stdin {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let r = self.0 .0.lock().unwrap().read(buf.len(), cx);
        r.map(|r| {
            r.map(|v| {
                buf[..v.len()].copy_from_slice(&v);
                v.len()
            })
        })
    }
}

#[cfg(feature = "agnostic")]
impl futures::AsyncWrite for Stdout {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0 .0.lock().unwrap().write(buf, cx)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        self.0 .0.lock().unwrap().flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        self.0 .0.lock().unwrap().close(cx)
    }
}

pub fn frame(body: &str) -> Vec<u8> {
    format!("Content-Length: {}\r\n\r\n{}", body.len(), body).into_bytes()
}

/// What the model says about a frame.
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// Runs a handler; `id` is None for a notification.
    Exec { k: u32, method: &'static str, ops: String, id: Option<Value> },
    /// Answered with this error, no handler.
    Reject { id: Value, code: i64 },
    /// Neither answered nor executed.
    Ignore,
    /// Cancels the request with this key (if still in progress).
    Cancel(u32),
    Exit,
    /// Answered with one error of this code and a null id.
    Bad(i64),
    /// Answered with at least one -32700 error with a null id.
    Garbage,
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub bytes: Vec<u8>,
    pub kind: Kind,
    /// Not fed before the response with this id has been written.
    pub after: Option<Value>,
}

fn msg(kind: Kind, v: Value) -> Frame {
    Frame { bytes: frame(&v.to_string()), kind, after: None }
}

fn object(method: &str, id: Option<&Value>, params: Option<Value>) -> Value {
    let mut v = json!({"jsonrpc": "2.0", "method": method});
    if let Some(p) = params {
        v["params"] = p;
    }
    if let Some(id) = id {
        v["id"] = id.clone();
    }
    v
}

/// A request with id `k` whose handler `k` runs the script.
pub fn req(k: u32, ops: &str) -> Frame {
    req_as("t/req", k, ops, json!(k))
}

pub fn req_as(method: &'static str, k: u32, ops: &str, id: Value) -> Frame {
    let v = object(method, Some(&id), backend::params(method, k, ops));
    let k = if method == "shutdown" { SHUTDOWN + 1 } else { k };
    msg(Kind::Exec { k, method, ops: ops.into(), id: Some(id) }, v)
}

pub fn not(k: u32, ops: &str) -> Frame {
    not_as("t/not", k, ops)
}

pub fn not_as(method: &'static str, k: u32, ops: &str) -> Frame {
    let v = object(method, None, backend::params(method, k, ops));
    msg(Kind::Exec { k, method, ops: ops.into(), id: None }, v)
}

/// A request that must be refused with the code.
pub fn refused(method: &'static str, id: i64, code: i64) -> Frame {
    let v = object(method, Some(&json!(id)), backend::params(method, 999, ""));
    msg(Kind::Reject { id: json!(id), code }, v)
}

pub fn ignored(v: Value) -> Frame {
    msg(Kind::Ignore, v)
}

pub fn cancel(k: u32) -> Frame {
    let v = object("$/cancelRequest", None, Some(json!({ "id": k })));
    msg(Kind::Cancel(k), v)
}

pub fn exit() -> Frame {
    msg(Kind::Exit, object("exit", None, None))
}

pub fn bytes(kind: Kind, b: &[u8]) -> Frame {
    Frame { bytes: b.to_vec(), kind, after: None }
}

impl Frame {
    pub fn with_id(mut self, new: Value) -> Self {
        if let Kind::Exec { id, .. } = &mut self.kind {
            *id = Some(new);
        }
        self
    }

    pub fn after(mut self, id: Value) -> Self {
        self.after = Some(id);
        self
    }
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub name: String,
    pub frames: Vec<Frame>,
    pub level: usize,
    pub default_level: bool,
    /// The service has already been initialized when serving starts.
    pub preinit: bool,
    /// All frames are fed at once before anything else.
    pub at_once: bool,
    pub cuts: Cuts,
    pub out: Out,
    pub fault: Fault,
    /// The input ends as soon as all frames are fed (unless chosen otherwise).
    pub eof_first: bool,
    /// The client never answers requests from the server.
    pub mute: bool,
    /// Handlers finish before the next frame is fed (unless chosen otherwise).
    pub gates_first: bool,
    /// Only take the default for all scheduling choices.
    pub fixed: bool,
}

impl Scn {
    pub fn new(name: impl Into<String>, frames: Vec<Frame>) -> Self {
        Scn {
            name: name.into(),
            frames,
            level: 4,
            default_level: false,
            preinit: true,
            at_once: false,
            cuts: Cuts::Whole,
            out: Out::Plain,
            fault: Fault::None,
            eof_first: false,
            mute: false,
            gates_first: false,
            fixed: false,
        }
    }
}

#[derive(Default, Clone, Debug)]
struct H {
    started: bool,
    ended: bool,
    finished: bool,
    /// Next position of the script.
    pos: usize,
    at_gate: bool,
}

pub struct Sim<'a> {
    scn: &'a Scn,
    io: Io,
    shared: Shared,
    serve: Task<()>,
    done: bool,
    fed: usize,
    seen: usize,
    frames_seen: usize,
    hs: HashMap<u32, H>,
    start_order: Vec<u32>,
    /// Total bytes fed, and the offset at which each fed frame ends.
    total: usize,
    ends: Vec<usize>,
    /// The rest of this execution is of no interest.
    abandon: bool,
    /// Client requests received: handler, script position, id, reply fed (value), its end offset.
    creqs: Vec<(u32, usize, Value, Option<Value>, usize)>,
    /// Client messages received, per handler in order.
    cmsgs: Vec<(u32, usize)>,
    responses: HashMap<String, Vec<Value>>,
    null_errors: Vec<i64>,
    /// Whether several things happened in an order that is up to a hash map.
    unordered: bool,
    replies: usize,
    pub log: Vec<Ev>,
}

impl<'a> Sim<'a> {
    pub fn new(scn: &'a Scn) -> Self {
        let shared = Shared::default();
        let shutdown_ops = scn.frames.iter().find_map(|f| match &f.kind {
            Kind::Exec { method: "shutdown", ops, .. } => Some(ops.clone()),
            _ => None,
        });
        shared.0.lock().unwrap().scripts.insert(SHUTDOWN, shutdown_ops.unwrap_or_default());
        let (mut svc, socket) = build(&shared);
        if scn.preinit {
            let p = backend::params("initialize", 998, "");
            let mut t = Task::new(svc.call(request("initialize", Some(Id::Number(998)), p)));
            let r = t.poll();
            check!(
                matches!(&r, Some(Ok(Some(r))) if r.is_ok()),
                &["C07", "C08"],
                "preinit",
                "initialize ends with {r:?}"
            );
        }
        let io = Io::new(scn.cuts.clone(), scn.out, scn.fault);
        let mut server = Server::new(Stdin(io.clone()), Stdout(io.clone()), socket);
        if !scn.default_level {
            server = server.concurrency_level(scn.level);
        }
        let serve = Task::new(server.serve(svc));
        let seen = shared.len();
        Sim {
            scn,
            io,
            shared,
            serve,
            done: false,
            fed: 0,
            seen,
            frames_seen: 0,
            hs: HashMap::new(),
            start_order: vec![],
            total: 0,
            ends: vec![],
            abandon: false,
            creqs: vec![],
            cmsgs: vec![],
            responses: HashMap::new(),
            null_errors: vec![],
            unordered: false,
            replies: 0,
            log: vec![],
        }
    }

    fn exec(&self, k: u32) -> Option<(usize, &'static str, &'a str, Option<&'a Value>)> {
        self.scn.frames.iter().enumerate().find_map(|(i, f)| match &f.kind {
            Kind::Exec { k: k2, method, ops, id } if *k2 == k => Some((i, *method, ops.as_str(), id.as_ref())),
            _ => None,
        })
    }

    fn exit_pos(&self) -> usize {
        self.scn.frames.iter().position(|f| f.kind == Kind::Exit).unwrap_or(usize::MAX)
    }

    fn feed(&mut self, bytes: &[u8]) {
        let w = {
            let mut io = self.io.0.lock().unwrap();
            io.inbuf.extend(bytes);
            io.budget += 4 * bytes.len();
            self.total += bytes.len();
            io.in_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    fn feed_frame(&mut self) {
        let f = &self.scn.frames[self.fed];
        step(&format!("feed {}", self.fed));
        note(|| format!("  {:?} {:?}", String::from_utf8_lossy(&f.bytes), f.kind));
        self.fed += 1;
        let b = f.bytes.clone();
        self.feed(&b);
        self.ends.push(self.total);
    }

    fn poll(&mut self) {
        self.io.0.lock().unwrap().ops = 0;
        step("poll");
        if self.serve.poll().is_some() {
            self.done = true;
        }
        self.absorb();
        if self.done {
            step("serve returns");
        }
    }

    fn absorb(&mut self) {
        let evs = self.shared.since(self.seen);
        self.seen += evs.len();
        for e in evs {
            step(&format!("{e:?}"));
            self.log.push(e.clone());
            match e {
                Ev::Start(k) => {
                    let Some((i, ..)) = self.exec(k) else {
                        report(
                            &["C01", "C02", "C06", "C07", "C09", "C11"],
                            "foreign-handler",
                            format!("a handler runs that no message asked for (key {k})"),
                        );
                        continue;
                    };
                    check!(i < self.exit_pos(), &["C10", "C16"], "ran-after-exit", "handler {k} runs though its message came after exit");
                    if let Some(last) = self.start_order.last() {
                        check!(
                            self.exec(*last).map_or(true, |l| l.0 < i),
                            &["C14", "C01"],
                            "start-order",
                            "handler {k} starts after handler {last}, whose message arrived later"
                        );
                    }
                    self.start_order.push(k);
                    let h = self.hs.entry(k).or_default();
                    check!(!h.started, &["C06", "C01"], "ran-twice", "handler {k} runs twice");
                    h.started = true;
                }
                Ev::AtGate(k) => self.hs.entry(k).or_default().at_gate = true,
                Ev::Step(k, i) | Ev::Sent(k, i) | Ev::ReqDone(k, i, _) => {
                    let h = self.hs.entry(k).or_default();
                    h.pos = i + 1;
                    h.at_gate = false;
                    if let Ev::ReqDone(_, _, r) = e {
                        self.req_done(k, i, r);
                    }
                }
                Ev::Finish(k) => {
                    let h = self.hs.entry(k).or_default();
                    h.finished = true;
                    h.ended = true;
                }
                Ev::Drop(k) => {
                    self.hs.entry(k).or_default().ended = true;
                    let cancelled = self.cancelled(k) || self.exit_pos() < self.fed;
                    check!(
                        cancelled || self.faulted(),
                        &["C11", "C12", "C16"],
                        "dropped",
                        "handler {k} is dropped although nothing cancelled it"
                    );
                }
                Ev::Mark(_) => {}
            }
        }
        let running = self.shared.running();
        let max = self.shared.0.lock().unwrap().max_running;
        check!(
            max <= self.scn.level,
            &["C14"],
            "over-level",
            "{max} handlers run at once at concurrency level {} ({running} now)",
            self.scn.level
        );
        let frames: Vec<Value> = self.io.0.lock().unwrap().frames[self.frames_seen..].to_vec();
        self.frames_seen += frames.len();
        for v in frames {
            self.out_frame(v);
        }
    }

    fn faulted(&self) -> bool {
        self.io.0.lock().unwrap().faulted
    }

    /// Whether the request may be cancelled: a cancellation is processed when it gets its turn, and
    /// then concerns the request that has the id by that time.
    fn cancelled(&self, k: u32) -> bool {
        self.scn.frames[..self.fed].iter().any(|f| f.kind == Kind::Cancel(k))
    }

    fn req_done(&mut self, k: u32, i: usize, r: Result<Value, i64>) {
        let reply = self.creqs.iter().find(|c| c.0 == k && c.1 == i).and_then(|c| c.3.clone());
        let cut_off = self.faulted() || self.exit_pos() < self.fed;
        match reply {
            Some(v) => check!(
                r == Ok(v.clone()) || (r.is_err() && cut_off),
                &["C19"],
                "wrong-reply",
                "client request {k}.{i} resolves to {r:?} instead of {v}"
            ),
            None => {
                let io = self.io.0.lock().unwrap();
                let over = io.eof || io.faulted;
                drop(io);
                let exit = self.exit_pos() < self.fed;
                check!(
                    r.is_err() && (over || exit),
                    &["C19"],
                    "no-reply",
                    "client request {k}.{i} resolves to {r:?} though it was not answered"
                );
            }
        }
    }

    /// A complete frame has been written.
    fn out_frame(&mut self, v: Value) {
        check!(v["jsonrpc"] == "2.0", &["C03", "C05"], "out-version", "written: {v}");
        if let Some(m) = v.get("method") {
            let p = &v["params"];
            let t = p.as_str().or(p["message"].as_str()).unwrap_or("");
            let key = t.split(|c: char| c != '.' && !c.is_ascii_digit()).next().unwrap_or("");
            let mut it = key.split('.').map(|x| x.parse::<usize>());
            let (Some(Ok(k)), Some(Ok(i))) = (it.next(), it.next()) else {
                return report(&["C03", "C23"], "garbled", format!("the client receives {v}"));
            };
            let k = k as u32;
            let Some((_, _, ops, _)) = self.exec(k) else {
                return report(&["C03", "C23"], "garbled", format!("the client receives {v}"));
            };
            let long = format!("{}{}", backend::text(k, i), "é\u{1F600}x".repeat(60));
            let (m2, p2) = match ops.as_bytes().get(i) {
                Some(b'l') => ("window/logMessage", json!({"type": 4, "message": backend::text(k, i)})),
                Some(b'L') => ("window/logMessage", json!({"type": 4, "message": long})),
                Some(b'x') => ("window/logMessage", json!({"type": 4, "message": backend::sized(k, i)})),
                Some(b'p') => ("c/not", json!(backend::text(k, i))),
                Some(b'r') => ("c/req", json!(backend::text(k, i))),
                Some(b'm') => (
                    "window/showMessageRequest",
                    json!({"type": 3, "message": backend::text(k, i)}),
                ),
                _ => ("", Value::Null),
            };
            check!(m == m2 && *p == p2, &["C03", "C23"], "modified", "the client receives {v} for {k}.{i}");
            for (k2, i2) in &self.cmsgs {
                check!(
                    *k2 != k || *i2 < i,
                    &["C03", "C23"],
                    "client-order",
                    "the client receives {k}.{i} after {k2}.{i2}"
                );
            }
            self.cmsgs.push((k, i));
            if let Some(id) = v.get("id") {
                for c in &self.creqs {
                    check!(c.2 != *id, &["C18"], "id-reused", "two client requests have id {id}");
                }
                self.creqs.push((k, i, id.clone(), None, 0));
            }
            return;
        }
        let id = v.get("id").cloned();
        match id {
            None => report(&["C03", "C04", "C11"], "no-id", format!("written: {v}")),
            Some(Value::Null) if self.null_id().is_none() => {
                self.null_errors.push(v["error"]["code"].as_i64().unwrap_or(0));
            }
            Some(id) => {
                let e = self.responses.entry(id.to_string()).or_default();
                e.push(v.clone());
                check!(e.len() == 1, &["C11", "C03"], "answered-twice", "two responses with id {id}: {e:?}");
                let known = self.scn.frames[..self.fed].iter().any(|f| match &f.kind {
                    Kind::Exec { id: Some(i), .. } | Kind::Reject { id: i, .. } => *i == id,
                    _ => false,
                });
                check!(known, &["C04", "C11"], "foreign-id", "a response with an id no request has: {v}");
            }
        }
    }

    /// Whether a request of this scenario has the id null.
    fn null_id(&self) -> Option<()> {
        self.scn.frames.iter().find_map(|f| match &f.kind {
            Kind::Exec { id: Some(Value::Null), .. } | Kind::Reject { id: Value::Null, .. } => Some(()),
            _ => None,
        })
    }

    fn response(&self, id: &Value) -> Option<&Value> {
        self.responses.get(&id.to_string()).and_then(|v| v.first())
    }

    /// Frames the server must have acted upon by now, given that it is waiting for more input.
    fn delivered(&self) -> usize {
        let read = self.io.0.lock().unwrap().offset;
        self.ends.iter().take_while(|e| **e <= read).count()
    }

    /// Invariants that hold whenever the server is idle: not done, not woken.
    fn idle(&mut self) {
        let (reading, blocked, unread, stalled, unflushed, eof) = {
            let io = self.io.0.lock().unwrap();
            (
                io.reading,
                io.blocked,
                io.inbuf.len(),
                io.stalled,
                io.out.len() - io.flushed,
                io.eof,
            )
        };
        if blocked || self.faulted() {
            return;
        }
        check!(
            unflushed == 0,
            &["C03", "C15"],
            "unflushed",
            "the server is idle with {unflushed} bytes written but not flushed"
        );
        let partial = {
            let io = self.io.0.lock().unwrap();
            io.out.len() - io.parsed
        };
        check!(
            partial == 0,
            &["C03", "C15"],
            "half-written",
            "the server is idle with an incomplete frame written"
        );
        let running = self.shared.running();
        let full = running >= self.scn.level;
        let delivered = self.delivered();
        let exited = delivered > self.exit_pos();
        let mut unstarted = 0;
        for f in &self.scn.frames[..delivered.min(self.exit_pos())] {
            if let Kind::Exec { k, .. } = &f.kind {
                if !self.hs.get(k).map_or(false, |h| h.started) {
                    unstarted += 1;
                }
            }
        }
        // Handlers must only wait for gates and for client responses that have not been fed.
        let mut waits_for_client = 0;
        let mut lost_reply = false;
        let mut ignored = false;
        let offset = self.io.0.lock().unwrap().offset;
        for (k, h) in &self.hs {
            if !h.started || h.ended || h.at_gate {
                continue;
            }
            let Some((_, _, ops, _)) = self.exec(*k) else { continue };
            let op = ops.as_bytes().get(h.pos).copied().unwrap_or(b'-');
            if matches!(op, b'r' | b'm') {
                match self.creqs.iter().find(|c| c.0 == *k && c.1 == h.pos) {
                    None => report(
                        &["C15", "C23"],
                        "unsent",
                        format!("the server is idle though client request {k}.{} was not written", h.pos),
                    ),
                    Some(c) if c.3.is_some() => {
                        lost_reply = true;
                        ignored |= c.4 <= offset;
                        waits_for_client += 1;
                    }
                    _ => waits_for_client += 1,
                }
            } else {
                report(
                    &["C15", "C11"],
                    "handler-stuck",
                    format!("the server is idle though handler {k} could continue at {:?}", op as char),
                );
            }
        }
        let behind = !reading && !eof && !exited;
        if behind {
            // Not reading is only right if the queue of messages is full and a handler has yet to
            // finish on its own.
            let jammed = full && waits_for_client == running;
            if jammed && lost_reply && unstarted >= 101 {
                report(
                    &["C15"],
                    "K2: responses queued behind more than 100 messages while all handlers wait for the client",
                    format!(
                        "deadlock: {running} handlers wait for responses that are in the input behind {unstarted} messages, which wait for the handlers"
                    ),
                );
                self.abandon = true;
            } else {
                check!(
                    full && unstarted >= 50 && !(jammed && lost_reply),
                    &["C15", "C01"],
                    "not-reading",
                    "the server is idle but not reading ({running} handlers run, {unstarted} messages are queued)"
                );
            }
            return;
        }
        if ignored {
            report(&["C15", "C19"], "reply-ignored", "a handler waits for a response that has been read".to_string());
        }
        check!(
            unread == 0 || stalled || exited,
            &["C01", "C15"],
            "unread",
            "the server is idle though {unread} bytes of input are available"
        );
        if unread > 0 && !stalled {
            return;
        }
        if eof && !stalled && unread == 0 {
            let waiting = self.hs.values().any(|h| h.started && !h.ended);
            check!(
                waiting,
                &["C15", "C16"],
                "not-ending",
                "the server is idle after the end of input although no handler is running"
            );
        }
        // Work conservation.
        let (mut bad_min, mut garbage) = (HashMap::new(), 0);
        for (i, f) in self.scn.frames[..delivered].iter().enumerate() {
            if i >= self.exit_pos() {
                continue;
            }
            match &f.kind {
                Kind::Exec { k, id, .. } => {
                    let h = self.hs.get(k).cloned().unwrap_or_default();
                    let cancelled = self.cancel_delivered(*k, delivered);
                    let answered = id.as_ref().map_or(h.ended, |id| self.response(id).is_some());
                    let at_work = h.started && !h.ended && !exited && !(cancelled && !full);
                    let waits = !h.started && full && !exited;
                    check!(
                        answered || at_work || waits,
                        if exited {
                            &["C10", "C16", "C12"]
                        } else if cancelled {
                            &["C12", "C15", "C11"]
                        } else if h.started || full {
                            &["C11", "C15"]
                        } else {
                            &["C14", "C15", "C01"]
                        },
                        if cancelled { "cancel-late" } else { "unserved" },
                        "the server is idle but message {i} (handler {k}) is {} ({running} of {} handlers run)",
                        if h.started { "not answered" } else { "not started" },
                        self.scn.level
                    );
                }
                Kind::Reject { id, .. } => check!(
                    full || self.response(id).is_some(),
                    &["C11", "C15"],
                    "unrefused",
                    "the server is idle but request {id} is not answered"
                ),
                Kind::Bad(code) => *bad_min.entry(*code).or_insert(0) += 1,
                Kind::Garbage => garbage = 1,
                _ => {}
            }
        }
        if exited {
            report(&["C16", "C10"], "not-ending-exit", "the server is idle after exit without ending".to_string());
        }
        for (code, n) in bad_min {
            let got = self.null_errors.iter().filter(|c| **c == code).count();
            check!(
                got >= n || full,
                &["C02", "C01"],
                "error-late",
                "the server is idle having written {got} of {n} errors {code}"
            );
        }
        if garbage > 0 {
            // Not necessarily recognizable yet: checked at the end.
        }
    }

    fn cancel_delivered(&self, k: u32, delivered: usize) -> bool {
        let at = self.exec(k).map_or(0, |e| e.0);
        self.scn.frames[..delivered].iter().skip(at + 1).any(|f| f.kind == Kind::Cancel(k))
    }

    fn eof(&mut self) {
        step("eof");
        // Several client requests are failed in no particular order.
        let callers = self.scn.frames.iter().filter(|f| match &f.kind {
            Kind::Exec { k, ops, .. } => ops.contains(['r', 'm']) && !self.hs.get(k).map_or(false, |h| h.ended),
            _ => false,
        });
        self.unordered |= callers.count() > 1;
        let w = {
            let mut io = self.io.0.lock().unwrap();
            io.eof = true;
            io.in_waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }

    pub fn run(&mut self) {
        if self.scn.at_once {
            for _ in 0..self.scn.frames.len() {
                self.feed_frame();
            }
        }
        let mut steps = 0;
        let limit = 4000 + 40 * self.scn.frames.iter().map(|f| f.bytes.len()).sum::<usize>();
        while !self.done {
            steps += 1;
            if steps > limit {
                report(&["*"], "livelock", "the server keeps waking itself without making progress");
                return;
            }
            #[derive(Clone, Copy, PartialEq)]
            enum A {
                Poll,
                Unstall,
                Unblock,
                Feed,
                Reply(usize),
                Gate(u32),
                Eof,
            }
            let mut acts = vec![];
            if self.serve.ready() {
                acts.push(A::Poll);
            } else {
                step("idle");
                self.idle();
                if self.abandon {
                    return;
                }
            }
            let (stalled, blocked, eof) = {
                let io = self.io.0.lock().unwrap();
                (io.stalled, io.blocked, io.eof)
            };
            if stalled {
                acts.push(A::Unstall);
            }
            if blocked {
                acts.push(A::Unblock);
            }
            let gates = self.shared.at_gate();
            if self.scn.gates_first {
                acts.extend(gates.iter().map(|k| A::Gate(*k)));
            }
            if self.fed < self.scn.frames.len() {
                let ready = match &self.scn.frames[self.fed].after {
                    Some(id) => self.response(id).is_some(),
                    None => true,
                };
                if ready && !eof {
                    acts.push(A::Feed);
                }
            }
            let can_eof = self.fed == self.scn.frames.len() && !eof;
            if can_eof && self.scn.eof_first {
                acts.push(A::Eof);
            }
            if !self.scn.mute && !eof {
                for (j, c) in self.creqs.iter().enumerate() {
                    if c.3.is_none() && self.hs.get(&c.0).map_or(false, |h| !h.ended) {
                        acts.push(A::Reply(j));
                    }
                }
            }
            if !self.scn.gates_first {
                acts.extend(gates.iter().map(|k| A::Gate(*k)));
            }
            if can_eof && !self.scn.eof_first {
                acts.push(A::Eof);
            }
            if acts.is_empty() && !eof {
                // Nothing else can happen (a frame waits for a response that never comes).
                acts.push(A::Eof);
            }
            if acts.is_empty() {
                let tags: &'static [&'static str] = if self.faulted() { &["C17"] } else { &["C16", "C15"] };
                report(
                    tags,
                    "never-returns",
                    format!("serve() never returns after the end of input (handlers {:?})", self.hs),
                );
                return;
            }
            let c = if self.scn.fixed { 0 } else { choose("env", acts.len()) };
            match acts[c] {
                A::Poll => self.poll(),
                A::Unstall => {
                    step("unstall");
                    let w = {
                        let mut io = self.io.0.lock().unwrap();
                        io.stalled = false;
                        io.in_waker.take()
                    };
                    if let Some(w) = w {
                        w.wake()
                    }
                }
                A::Unblock => {
                    step("unblock");
                    let w = {
                        let mut io = self.io.0.lock().unwrap();
                        io.blocked = false;
                        io.out_waker.take()
                    };
                    if let Some(w) = w {
                        w.wake()
                    }
                }
                A::Feed => self.feed_frame(),
                A::Reply(j) => {
                    self.replies += 1;
                    let v = json!({ "title": format!("v{}", self.replies) });
                    let (k, i, id, ..) = self.creqs[j].clone();
                    step(&format!("reply {k}.{i}"));
                    self.creqs[j].3 = Some(match self.exec(k).map(|e| e.2.as_bytes()[i]) {
                        Some(b'm') => json!(v["title"]),
                        _ => v.clone(),
                    });
                    let b = frame(&json!({"jsonrpc": "2.0", "result": v, "id": id}).to_string());
                    self.feed(&b);
                    self.creqs[j].4 = self.total;
                }
                A::Gate(k) => {
                    step(&format!("open {k}"));
                    self.shared.open(k);
                }
                A::Eof => self.eof(),
            }
        }
        self.finish();
    }

    /// Obligations at the end of an execution.
    fn finish(&mut self) {
        let exit = self.exit_pos();
        let (eof, shutdown, faulted, rest, unflushed) = {
            let io = self.io.0.lock().unwrap();
            (io.eof, io.shutdown, io.faulted, io.out.len() - io.parsed, io.out.len() - io.flushed)
        };
        if faulted {
            return; // Well-formedness was checked on the way, and nothing more is promised.
        }
        check!(
            eof || self.fed > exit,
            &["C16"],
            "returned-early",
            "serve() returns although the input has not ended and no exit arrived"
        );
        check!(
            shutdown && rest == 0 && unflushed == 0,
            &["C16", "C03"],
            "not-closed",
            "serve() returns with the output {} and {rest} bytes of an incomplete frame",
            if shutdown { "closed" } else { "not closed" }
        );
        let exited = self.fed > exit;
        let mut bad: HashMap<i64, usize> = HashMap::new();
        let mut garbage = false;
        for (i, f) in self.scn.frames[..self.fed].iter().enumerate() {
            match &f.kind {
                Kind::Exec { k, method, ops, id } => {
                    let h = self.hs.get(k).cloned().unwrap_or_default();
                    if i > exit {
                        check!(
                            !h.started && id.as_ref().map_or(true, |id| self.response(id).is_none()),
                            &["C10", "C16"],
                            "served-after-exit",
                            "message {i} is served although it came after exit"
                        );
                        continue;
                    }
                    let Some(id) = id else {
                        check!(
                            h.finished || exited,
                            &["C15", "C16", "C01"],
                            "lost-notification",
                            "the notification in message {i} was never handled"
                        );
                        continue;
                    };
                    let cancelled = self.cancelled(*k);
                    let Some(r) = self.response(id) else {
                        report(
                            &["C11", "C16"],
                            "unanswered",
                            format!("serve() returns without having answered request {id}"),
                        );
                        continue;
                    };
                    if h.finished {
                        let want = match backend::expected(method, *k, ops) {
                            Ok(v) => json!({"jsonrpc":"2.0","result":v,"id":id}),
                            Err(e) => json!({"jsonrpc":"2.0","error":e,"id":id}),
                        };
                        check!(
                            *r == want,
                            &["C03", "C11", "C06"],
                            "result",
                            "request {id} is answered with {r} instead of {want}"
                        );
                    } else {
                        check!(
                            (cancelled || exited) && r["error"]["code"] == -32800,
                            &["C11", "C12", "C16"],
                            "cancel-answer",
                            "request {id} (cancelled: {cancelled}, exited: {exited}) is answered with {r}"
                        );
                    }
                }
                Kind::Reject { id, code } => {
                    let r = self.response(id);
                    if i > exit {
                        check!(r.is_none(), &["C10", "C16"], "served-after-exit", "request {id} is answered after exit");
                        continue;
                    }
                    check!(
                        r.map_or(false, |r| r["error"]["code"] == *code),
                        &["C11", "C07", "C09"],
                        "refusal",
                        "request {id} is answered with {r:?} instead of error {code}"
                    );
                }
                Kind::Bad(code) if i < exit => *bad.entry(*code).or_default() += 1,
                Kind::Garbage if i < exit => garbage = true,
                _ => {}
            }
        }
        let count = |c: i64| self.null_errors.iter().filter(|e| **e == c).count();
        for code in [-32700, -32600] {
            let (want, got) = (bad.get(&code).copied().unwrap_or(0), count(code));
            if code == -32700 && garbage {
                check!(
                    got > want,
                    &["C02"],
                    "garbage-silent",
                    "{got} errors {code} are written for {want} bad bodies and garbage"
                );
            } else {
                // Garbage may contain what looks like a frame once it has lost its first part.
                let slack = if garbage { self.scn.frames.iter().filter(|f| f.kind == Kind::Garbage).count() } else { 0 };
                check!(
                    got >= want && got <= want + slack,
                    &["C01", "C02", "C04", "C11"],
                    "error-count",
                    "{got} errors {code} with a null id are written instead of {want}"
                );
            }
        }
        let others = self.null_errors.len() - count(-32700) - count(-32600);
        check!(others == 0, &["C02", "C11"], "null-errors", "errors with a null id: {:?}", self.null_errors);
        // What handlers told the client has reached it.
        if !exited {
            for e in &self.log {
                if let Ev::Sent(k, i) = e {
                    check!(
                        self.cmsgs.contains(&(*k, *i)),
                        &["C16", "C23", "C15"],
                        "lost-message",
                        "message {k}.{i} to the client was sent but never written"
                    );
                }
            }
        }
    }

    /// What an observer outside sees: handler events and the bytes written.
    pub fn observation(&self) -> String {
        let io = self.io.0.lock().unwrap();
        if !self.unordered {
            return format!("{:?}\n{}", self.log, String::from_utf8_lossy(&io.out));
        }
        let mut log: Vec<String> = self.log.iter().map(|e| format!("{e:?}")).collect();
        log.sort();
        let mut out: Vec<String> = io.frames.iter().map(|e| e.to_string()).collect();
        out.sort();
        format!("{log:?}\n{out:?}")
    }
}

pub fn group(name: &str, bound: u32, scns: Vec<Scn>) -> Group {
    let scns = Arc::new(scns);
    let (a, b) = (scns.clone(), scns.clone());
    Group {
        also: &[],
        name: name.into(),
        scenarios: scns.len(),
        bound: Some(bound),
        isolate: false,
        describe: Box::new(move |i| describe(&a[i])),
        run: Box::new(move |i| Sim::new(&b[i]).run()),
        data: Some(scns),
    }
}

impl Scn {
    /// Whether both runtimes must treat this scenario alike: the output accepts everything, and at
    /// most one request is left for exit to cancel (several are cancelled in no particular order).
    pub fn alike(&self) -> bool {
        let exit = self.frames.iter().position(|f| f.kind == Kind::Exit).unwrap_or(0);
        let pending = self.frames[..exit].iter().filter(|f| match &f.kind {
            Kind::Exec { ops, .. } => ops.contains(['g', 'r', 'm', 'y']),
            _ => false,
        });
        self.fault == Fault::None && matches!(self.out, Out::Plain | Out::Every(_)) && pending.count() < 2
    }
}

pub fn describe(s: &Scn) -> String {
    let frames: Vec<String> = s
        .frames
        .iter()
        .take(12)
        .map(|f| String::from_utf8_lossy(&f.bytes).replace("\r\n", "~"))
        .collect();
    format!(
        "{}: level {}, cuts {:?}, out {:?}, fault {:?}{}{}{}, frames {:?}{}",
        s.name,
        s.level,
        s.cuts,
        s.out,
        s.fault,
        if s.at_once { ", fed at once" } else { "" },
        if s.eof_first { ", eof first" } else { "" },
        if s.mute { ", client mute" } else { "" },
        frames,
        if s.frames.len() > 12 { "…" } else { "" }
    )
}

//! Explores the interleavings of a scenario's threads: every execution starts from a new service and is
//! driven by a sequence of choices (see rt.c). All sequences
//! with at most a given number of preemptions are executed.

use std::any::Any;
use std::cell::UnsafeCell;
use std::collections::BTreeSet;
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

const MAX_POINTS: usize = 65536;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Point {
    options: u8,
    chosen: u8,
    preempts: u8,
    used: u8,
    /// What the execution looked like at this point.
    mark: u32,
}

#[repr(C)]
pub struct Shared {
    bound: u32,
    nprefix: u32,
    trace: u32,
    prefix: [u8; MAX_POINTS],
    npoints: u32,
    steps: u32,
    switches: u32,
    ended: u32,
    points: [Point; MAX_POINTS],
    status: u32,
    nlog: u32,
    outcome: u64,
    text: [u8; 65536],
}

extern "C" {
    fn rt_run(shared: *mut Shared, threads: i32, body: extern "C" fn(i32));
    fn rt_wait(word: *const u32);
    fn rt_wake(word: *const u32);
    fn rt_pin(cpu: i32);
    fn rt_me() -> i32;
}

/// Data that is safe to share because only one thread runs at a time, and control only passes at
/// atomic operations.
pub struct Racy<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Racy<T> {}
unsafe impl<T> Send for Racy<T> {}
impl<T> Racy<T> {
    pub const fn new(t: T) -> Self {
        Racy(UnsafeCell::new(t))
    }
    /// The closure must not contain a scheduling point.
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(unsafe { &mut *self.0.get() })
    }
}

static LOG: Racy<Vec<(i32, String)>> = Racy::new(Vec::new());

/// Records an event; the record is in the order in which things happened.
pub fn log(event: impl Into<String>) {
    let event = event.into();
    LOG.with(|l| l.push((unsafe { rt_me() }, event)));
}

pub fn events() -> Vec<(i32, String)> {
    LOG.with(|l| l.clone())
}

struct Flag(UnsafeCell<u32>);
unsafe impl Sync for Flag {}
unsafe impl Send for Flag {}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        unsafe { rt_wake(self.0.get()) }
    }
}

/// Runs a future to completion on this thread, sleeping until it is woken.
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    let flag = Arc::new(Flag(UnsafeCell::new(0)));
    let waker = Waker::from(flag.clone());
    loop {
        if let Poll::Ready(out) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
            return out;
        }
        unsafe { rt_wait(flag.0.get()) }
    }
}

/// Polls a future once.
pub fn poll_once<F: Future + ?Sized>(fut: &mut Pin<Box<F>>) -> Option<F::Output> {
    match fut.as_mut().poll(&mut Context::from_waker(&futures::task::noop_waker())) {
        Poll::Ready(out) => Some(out),
        Poll::Pending => None,
    }
}


pub struct Run {
    pub threads: Vec<Box<dyn FnOnce() + Send>>,
    /// Judges the execution; run once all threads have ended.
    pub check: Box<dyn FnOnce() -> Result<(), String>>,
}

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub props: &'static [&'static str],
    pub build: Arc<dyn Fn() -> Run>,
}

static BODIES: Racy<Vec<Option<Box<dyn FnOnce() + Send>>>> = Racy::new(Vec::new());
static PANICS: Racy<Vec<String>> = Racy::new(Vec::new());

extern "C" fn body(i: i32) {
    let f = BODIES.with(|b| b[i as usize].take()).unwrap();
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        let what = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        PANICS.with(|p| p.push(format!("thread {i} panicked: {}", what.unwrap_or_default())));
    }
}

fn mmap<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

/// Everything that is to live until an execution has been judged.
static KEEP: Racy<Vec<Box<dyn Any>>> = Racy::new(Vec::new());

pub fn keep(x: impl Any) {
    KEEP.with(|k| k.push(Box::new(x)));
}

/// One execution, in this process. It is on a thread of its own, as the hash keys of a thread change
/// with every use.
fn execute(scenario: &Scenario, sh: &mut Shared, bound: u32, prefix: &[u8], trace: bool) {
    sh.bound = bound;
    sh.nprefix = prefix.len() as u32;
    (&mut sh.prefix)[..prefix.len()].copy_from_slice(prefix);
    sh.trace = trace as u32;
    sh.npoints = 0;
    sh.steps = 0;
    sh.switches = 0;
    sh.ended = 0;
    sh.status = 0;
    sh.text[0] = 0;
    struct Args(*const Scenario, *mut Shared);
    unsafe impl Send for Args {}
    let args = Args(scenario, sh);
    let run = move || {
        let args = args;
        unsafe { judge(&*args.0, &mut *args.1) }
    };
    // A hang without any scheduling point ends the process.
    unsafe { libc::alarm(100) };
    std::thread::Builder::new().stack_size(1 << 20).spawn(run).unwrap().join().unwrap();
    unsafe { libc::alarm(0) };
}

fn judge(scenario: &Scenario, sh: &mut Shared) {
    PANICS.with(|p| p.clear());
    let run = (scenario.build)();
    LOG.with(|l| l.clear());
    let n = run.threads.len();
    BODIES.with(|b| *b = run.threads.into_iter().map(Some).collect());
    unsafe { rt_run(sh, n as i32, body) };
    let mut verdict = match sh.ended {
        1 => Ok(()),
        2 => Err("a thread waits forever: its wakeup never comes".to_string()),
        3 => Err("the threads never come to an end".to_string()),
        _ => Err("machinery: too many choices or a wrong one".to_string()),
    };
    if let Some(p) = PANICS.with(|p| p.first().cloned()) {
        verdict = Err(p);
    }
    if verdict.is_ok() {
        verdict = std::panic::catch_unwind(std::panic::AssertUnwindSafe(run.check))
            .unwrap_or_else(|e| Err(format!("the judge panicked: {:?}", e.downcast_ref::<String>())));
    } else {
        std::mem::forget(run.check);
    }
    let events = events();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    events.hash(&mut h);
    sh.outcome = h.finish();
    sh.nlog = events.len() as u32;
    if verdict.is_err() || sh.trace != 0 {
        let mut text = verdict.as_ref().err().cloned().unwrap_or_default();
        text.push('\u{1}');
        for (t, e) in events {
            text += &format!("{}: {e}\n", if t < 0 { "main".into() } else { format!("thread {t}") });
        }
        let n = text.len().min(65535);
        sh.text[..n].copy_from_slice(&text.as_bytes()[..n]);
        sh.text[n] = 0;
    }
    if verdict.is_ok() {
        drop(KEEP.with(std::mem::take));
    }
    sh.status = verdict.is_err() as u32 + 1;
}

/// Starts a process that explores. What is initialized once per process is initialized first.
fn child(scenario: &Scenario, sh: *mut Shared, f: impl FnOnce(&mut Shared)) -> i32 {
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
        std::panic::set_hook(Box::new(|_| {}));
        unsafe { parking_lot_core::unpark_all(1, parking_lot_core::DEFAULT_UNPARK_TOKEN) };
        let sh = unsafe { &mut *sh };
        execute(scenario, sh, 0, &[], false);
        f(sh);
        unsafe { libc::_exit(0) };
    }
    pid
}

/// One execution in a new process.
fn run_one(scenario: &Scenario, sh: *mut Shared, bound: u32, prefix: &[u8], trace: bool) {
    unsafe { (*sh).status = 0 };
    let pid = child(scenario, sh, |sh| {
        if sh.status == 1 {
            execute(scenario, sh, bound, prefix, trace);
        }
    });
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    unsafe {
        if (*sh).status == 0 {
            (*sh).status = 2;
            let text = format!("the process ends with status {status:#x}\u{1}\0");
            (&mut (*sh).text)[..text.len()].copy_from_slice(text.as_bytes());
        }
    }
}

fn text(sh: *const Shared) -> (String, String) {
    let t = unsafe { std::ffi::CStr::from_ptr((*sh).text.as_ptr() as *const _) }.to_string_lossy().into_owned();
    let (a, b) = t.split_once('\u{1}').unwrap_or((&t, ""));
    (a.to_string(), b.to_string())
}

#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]
pub struct Failure {
    pub message: String,
    pub trace: String,
    pub choices: Vec<u8>,
}

#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]
pub struct Outcome {
    pub executions: u64,
    pub steps: u64,
    pub points: u64,
    pub max_choices: u64,
    pub outcomes: BTreeSet<u64>,
    pub sample: Vec<String>,
    pub failure: Option<Failure>,
    pub capped: bool,
}

/// A sequence of choices, and the mark of the execution at the last of them.
type Job = (Vec<u8>, u32);

/// Explores all continuations of the given prefixes, or only until there are so many of them.
fn dfs(scenario: &Scenario, sh: &mut Shared, bound: u32, mut stack: Vec<Job>, stop_at: usize, out: &mut Outcome, deadline: std::time::Instant) -> Vec<Job> {
    let mut head = 0;
    let breadth = stop_at < usize::MAX;
    loop {
        let (prefix, mark) = if breadth {
            if head == stack.len() || stack.len() - head >= stop_at {
                return stack.split_off(head);
            }
            head += 1;
            std::mem::take(&mut stack[head - 1])
        } else {
            match stack.pop() {
                Some(p) => p,
                None => return vec![],
            }
        };
        if std::time::Instant::now() > deadline {
            out.capped = true;
            return vec![];
        }
        execute(scenario, sh, bound, &prefix, false);
        let n = sh.npoints as usize;
        if let Some(last) = prefix.len().checked_sub(1) {
            if n <= last || sh.points[last].mark != mark {
                out.failure = Some(Failure { message: "machinery: the same choices lead to another execution".into(), ..Default::default() });
                return vec![];
            }
        }
        out.executions += 1;
        out.steps += sh.steps as u64;
        out.outcomes.insert(sh.outcome);
        out.max_choices = out.max_choices.max(n as u64);
        out.points += n.saturating_sub(prefix.len()) as u64;
        let chosen: Vec<u8> = sh.points[..n].iter().map(|p| p.chosen).collect();
        if sh.status == 2 {
            let (message, trace) = text(sh);
            out.failure = Some(Failure { message, trace, choices: chosen });
            return vec![];
        }
        for i in (prefix.len()..n).rev() {
            let p = sh.points[i];
            for alt in 1..p.options {
                if p.used as u32 + p.preempts as u32 <= bound {
                    let mut next = chosen[..i].to_vec();
                    next.push(alt);
                    stack.push((next, p.mark));
                }
            }
        }
    }
}

/// A process that explores and sends back what it found.
struct Worker {
    pid: i32,
    fd: i32,
    sh: *mut Shared,
}

impl Worker {
    fn start(scenario: &Scenario, f: impl FnOnce(&mut Shared, &mut Outcome) -> Vec<Job>) -> Worker {
        let sh: *mut Shared = mmap();
        let mut fds = [0; 2];
        assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
        let pid = child(scenario, sh, |sh| {
            let mut out = Outcome::default();
            let jobs = if sh.status == 2 {
                // Not even the first execution is right.
                let (message, trace) = text(sh);
                out.failure = Some(Failure { message, trace, choices: vec![] });
                vec![]
            } else {
                f(sh, &mut out)
            };
            let data = serde_json::to_vec(&(out, jobs)).unwrap();
            let mut at = 0;
            while at < data.len() {
                let n = unsafe { libc::write(fds[1], data[at..].as_ptr() as *const _, data.len() - at) };
                assert!(n > 0);
                at += n as usize;
            }
        });
        unsafe { libc::close(fds[1]) };
        Worker { pid, fd: fds[0], sh }
    }

    fn end(self, total: &mut Outcome) -> Vec<Job> {
        let mut data = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = unsafe { libc::read(self.fd, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        let mut status = 0;
        unsafe {
            libc::close(self.fd);
            libc::waitpid(self.pid, &mut status, 0);
        }
        let (o, jobs) = serde_json::from_slice::<(Outcome, Vec<Job>)>(&data).unwrap_or_else(|_| {
            // It died from what it executed last.
            let sh = unsafe { &*self.sh };
            let n = sh.npoints as usize;
            let choices = sh.points[..n].iter().map(|p| p.chosen).collect();
            let message = format!("the process ends with status {status:#x}");
            (Outcome { failure: Some(Failure { message, trace: String::new(), choices }), ..Outcome::default() }, vec![])
        });
        unsafe { libc::munmap(self.sh as *mut _, std::mem::size_of::<Shared>()) };
        total.executions += o.executions;
        total.steps += o.steps;
        total.points += o.points;
        total.max_choices = total.max_choices.max(o.max_choices);
        total.outcomes.extend(o.outcomes);
        total.capped |= o.capped;
        if let Some(f) = o.failure {
            if total.failure.as_ref().map_or(true, |g| f.choices.len() < g.choices.len()) {
                total.failure = Some(f);
            }
        }
        jobs
    }
}

/// Explores all executions of a scenario with at most `bound` preemptions, on all processors.
pub fn explore(scenario: &Scenario, bound: u32, limit: std::time::Duration) -> Outcome {
    let deadline = std::time::Instant::now() + limit;
    let mut out = Outcome::default();
    let first = Worker::start(scenario, |sh, out| {
        // The same execution twice must be the same.
        let mut seen = vec![];
        for _ in 0..2 {
            execute(scenario, sh, bound, &[], true);
            seen.push((sh.npoints, sh.steps, sh.outcome, text(sh)));
        }
        if seen[0] != seen[1] {
            out.failure = Some(Failure { message: format!("machinery: an execution is not repeatable: {seen:?}"), ..Default::default() });
            return vec![];
        }
        dfs(scenario, sh, bound, vec![(vec![], 0)], 256, out, deadline)
    });
    let sample: *mut Shared = mmap();
    let jobs = first.end(&mut out);
    run_one(scenario, sample, bound, &[], true);
    out.sample = text(sample).1.lines().map(String::from).collect();
    unsafe { libc::munmap(sample as *mut _, std::mem::size_of::<Shared>()) };
    if out.failure.is_some() || jobs.is_empty() {
        return out;
    }
    let next: *mut u64 = mmap();
    let next = unsafe { std::sync::atomic::AtomicU64::from_ptr(next) };
    let cpus = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.clamp(1, 16) as usize;
    let workers: Vec<Worker> = (0..cpus)
        .map(|w| {
            Worker::start(scenario, |sh, out| {
                unsafe { rt_pin(w as i32) };
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize;
                    if i >= jobs.len() || out.failure.is_some() || out.capped {
                        break;
                    }
                    dfs(scenario, sh, bound, vec![jobs[i].clone()], usize::MAX, out, deadline);
                }
                if out.failure.is_some() {
                    next.store(1 << 40, std::sync::atomic::Ordering::SeqCst);
                }
                vec![]
            })
        })
        .collect();
    for w in workers {
        w.end(&mut out);
    }
    unsafe { libc::munmap(next.as_ptr() as *mut _, 8) };
    out
}

/// Executes one sequence of choices and tells what happened.
pub fn replay(scenario: &Scenario, bound: u32, choices: &[u8]) -> (bool, String, String) {
    let sh: *mut Shared = mmap();
    run_one(scenario, sh, bound, choices, true);
    let (message, trace) = text(sh);
    (unsafe { (*sh).status } == 2, message, trace)
}


//! Stateless explorer: enumerates every sequence of choices a scenario can make, up to a bound on
//! the number of deviations (non-default choices), by depth-first search over choice prefixes.

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Why an execution was rejected. `tags` names the properties this breaks ("*" for any).
#[derive(Clone, Debug)]
pub struct Viol {
    pub tags: &'static [&'static str],
    /// Stable signature, compared with the known-findings file.
    pub key: String,
    pub msg: String,
}

/// Records a violation; the execution continues, so that each property sees its own.
pub fn report(tags: &'static [&'static str], key: impl Into<String>, msg: impl Into<String>) {
    let v = Viol { tags, key: key.into(), msg: msg.into() };
    note(|| format!("VIOLATED {:?} {}: {}", v.tags, v.key, v.msg));
    SOFT.with(|s| {
        let s = &mut *s.borrow_mut();
        if s.len() < 64 {
            s.push(v)
        }
    })
}

/// Reports a violation unless the condition holds.
#[macro_export]
macro_rules! check {
    ($cond:expr, $tags:expr, $key:expr, $($fmt:tt)+) => {
        if !$cond { $crate::engine::report($tags, $key, format!($($fmt)+)); }
    };
}

#[derive(Clone, Copy, Debug)]
struct Point {
    n: u32,
    chosen: u32,
    cost: u32,
    label: &'static str,
}

#[derive(Clone, Debug)]
struct PrefixPoint {
    n: u32,
    chosen: u32,
    label: &'static str,
}

#[derive(Default)]
struct Ctl {
    prefix: Vec<PrefixPoint>,
    points: Vec<Point>,
    diverged: Option<String>,
    hash: u64,
    steps: u64,
    states: Vec<u64>,
    narrate: Option<Vec<String>>,
}

thread_local! {
    static CTL: RefCell<Ctl> = RefCell::new(Ctl::default());
    static SOFT: RefCell<Vec<Viol>> = const { RefCell::new(vec![]) };
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn choose_cost(label: &'static str, n: usize, cost: u32) -> usize {
    assert!(n > 0, "harness: empty choice {label}");
    if n == 1 {
        return 0;
    }
    CTL.with(|c| {
        let c = &mut *c.borrow_mut();
        let i = c.points.len();
        let chosen = match c.prefix.get(i) {
            Some(p) => {
                if (p.n as usize != n || p.label != label) && c.diverged.is_none() {
                    c.diverged = Some(format!(
                        "point {i}: recorded {}/{}, replayed {label}/{n}",
                        p.label, p.n
                    ));
                }
                (p.chosen as usize).min(n - 1)
            }
            None => 0,
        };
        c.points.push(Point { n: n as u32, chosen: chosen as u32, cost, label });
        chosen
    })
}

/// A choice whose alternatives 1.. are deviations from the default 0, counted against the bound.
pub fn choose(label: &'static str, n: usize) -> usize {
    choose_cost(label, n, 1)
}

/// A choice whose alternatives are all equally ordinary (never counted against the bound).
pub fn pick(label: &'static str, n: usize) -> usize {
    choose_cost(label, n, 0)
}

fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) ^ (h >> 7)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Records one observable step of the execution: a transition to a new history state.
pub fn step(what: &str) {
    CTL.with(|c| {
        let c = &mut *c.borrow_mut();
        c.hash = mix(c.hash, hash_str(what));
        c.steps += 1;
        let h = c.hash;
        c.states.push(h);
        if let Some(n) = &mut c.narrate {
            n.push(what.to_string());
        }
    })
}

/// A note for the replay output that is not part of the state.
pub fn note(what: impl FnOnce() -> String) {
    CTL.with(|c| {
        if let Some(n) = &mut c.borrow_mut().narrate {
            n.push(what());
        }
    })
}

/// The choices of the execution in progress.
pub fn choices() -> Vec<u32> {
    CTL.with(|c| c.borrow().points.iter().map(|p| p.chosen).collect())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Marker for panics the harness raises to leave an execution that does not terminate.
pub const LIVELOCK: &str = "LIVELOCK";

pub struct Group {
    pub name: String,
    /// Properties that are broken by whatever goes wrong in these scenarios.
    pub also: &'static [&'static str],
    pub scenarios: usize,
    /// Maximum number of deviations per execution; None explores every choice.
    pub bound: Option<u32>,
    /// Run every execution in a fresh thread (fixes the hash seeds of std's RandomState).
    pub isolate: bool,
    pub describe: Box<dyn Fn(usize) -> String + Send + Sync>,
    pub run: Box<dyn Fn(usize) + Send + Sync>,
    /// What the scenarios are made from.
    pub data: Option<std::sync::Arc<dyn std::any::Any + Send + Sync>>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub group: String,
    pub scenario: usize,
    pub description: String,
    pub choices: Vec<u32>,
    pub deviations: u32,
    pub viol: Viol,
}

#[derive(Default)]
pub struct Report {
    pub executions: u64,
    pub scenarios: u64,
    pub transitions: u64,
    pub choice_points: u64,
    pub states: u64,
    pub outcomes: u64,
    pub foreign: u64,
    pub known: Vec<(String, u64)>,
    pub failure: Option<Failure>,
    pub capped: bool,
    pub max_choices: usize,
    pub samples: Vec<serde_json::Value>,
    pub groups: Vec<serde_json::Value>,
    pub engine_error: Option<String>,
}

struct Item {
    group: usize,
    scenario: usize,
    prefix: Vec<PrefixPoint>,
}

struct Shared {
    queue: Vec<Item>,
    active: usize,
}

struct ExecResult {
    points: Vec<Point>,
    viols: Vec<Viol>,
    engine_error: Option<String>,
    steps: u64,
    states: Vec<u64>,
    hash: u64,
    narrative: Option<Vec<String>>,
}

fn execute_here(g: &Group, scenario: usize, prefix: Vec<PrefixPoint>, narrate: bool) -> ExecResult {
    CTL.with(|c| {
        let c = &mut *c.borrow_mut();
        c.prefix = prefix;
        c.points.clear();
        c.diverged = None;
        c.hash = mix(hash_str(&g.name), scenario as u64);
        c.steps = 0;
        c.states.clear();
        c.narrate = narrate.then(Vec::new);
    });
    PANIC.with(|p| *p.borrow_mut() = None);
    SOFT.with(|s| s.borrow_mut().clear());
    let outcome = catch_unwind(AssertUnwindSafe(|| (g.run)(scenario)));
    let mut engine_error = None;
    let mut viols = SOFT.with(|s| std::mem::take(&mut *s.borrow_mut()));
    if outcome.is_err() {
        let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        if msg.starts_with(LIVELOCK) {
            viols.insert(0, Viol { tags: &["*"], key: "livelock".into(), msg });
        } else if loc.contains("harness/src") || loc.starts_with("src/") {
            engine_error = Some(format!("harness panicked at {loc}: {msg}"));
        } else {
            viols.insert(0, Viol {
                tags: &["*"],
                key: format!("panic: {}", msg.lines().next().unwrap_or("")),
                msg: format!("the library panicked at {loc}: {msg}"),
            });
        }
    }
    CTL.with(|c| {
        let c = &mut *c.borrow_mut();
        if let Some(d) = c.diverged.take() {
            engine_error.get_or_insert(format!("replay diverged: {d}"));
        } else if engine_error.is_none() && c.points.len() < c.prefix.len() {
            engine_error = Some(format!(
                "replay diverged: only {} of {} choices were made",
                c.points.len(),
                c.prefix.len()
            ));
        }
        ExecResult {
            points: std::mem::take(&mut c.points),
            viols,
            engine_error,
            steps: c.steps,
            states: std::mem::take(&mut c.states),
            hash: c.hash,
            narrative: c.narrate.take(),
        }
    })
}

fn execute(g: &Group, scenario: usize, prefix: Vec<PrefixPoint>, narrate: bool) -> ExecResult {
    if g.isolate {
        std::thread::scope(|s| {
            s.spawn(|| execute_here(g, scenario, prefix, narrate)).join().unwrap()
        })
    } else {
        execute_here(g, scenario, prefix, narrate)
    }
}

pub struct Config {
    pub property: &'static str,
    pub known_keys: Vec<String>,
    pub wall_cap: Duration,
    pub threads: usize,
    pub samples: usize,
}

const SHARDS: usize = 64;

pub fn explore(groups: &[Group], cfg: &Config) -> Report {
    let start = Instant::now();
    let mut report = Report::default();
    let states: Vec<Mutex<HashSet<u64>>> = (0..SHARDS).map(|_| Default::default()).collect();
    let outcomes: Mutex<HashSet<u64>> = Default::default();
    let n_states = AtomicU64::new(0);

    for (gi, g) in groups.iter().enumerate() {
        let gstart = Instant::now();
        let shared = Mutex::new(Shared {
            queue: (0..g.scenarios)
                .rev()
                .map(|scenario| Item { group: gi, scenario, prefix: vec![] })
                .collect(),
            active: 0,
        });
        let cv = Condvar::new();
        let waiting = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let execs = AtomicU64::new(0);
        let steps = AtomicU64::new(0);
        let points = AtomicU64::new(0);
        let foreign = AtomicU64::new(0);
        let maxc = AtomicUsize::new(0);
        let capped = AtomicBool::new(false);
        let failures: Mutex<Vec<Failure>> = Default::default();
        let known: Mutex<Vec<(String, u64)>> = Default::default();
        let errors: Mutex<Vec<String>> = Default::default();
        // Per worker: when the execution in progress began, for the watchdog.
        let beats: Vec<Arc<Mutex<Option<(Instant, usize, Vec<u32>)>>>> =
            (0..cfg.threads).map(|_| Default::default()).collect();
        let done = AtomicBool::new(false);

        std::thread::scope(|s| {
            for w in 0..cfg.threads {
                let beat = beats[w].clone();
                let (shared, cv, waiting, stop) = (&shared, &cv, &waiting, &stop);
                let (execs, steps, points, foreign) = (&execs, &steps, &points, &foreign);
                let (maxc, capped, failures, known, errors) =
                    (&maxc, &capped, &failures, &known, &errors);
                let (states, outcomes, n_states) = (&states, &outcomes, &n_states);
                let body = move || {
                    let mut local: Vec<Item> = vec![];
                    loop {
                        if local.is_empty() {
                            let mut sh = shared.lock().unwrap();
                            loop {
                                if stop.load(SeqCst) {
                                    sh.queue.clear();
                                }
                                if let Some(it) = sh.queue.pop() {
                                    sh.active += 1;
                                    local.push(it);
                                    break;
                                }
                                if sh.active == 0 {
                                    cv.notify_all();
                                    return;
                                }
                                waiting.fetch_add(1, SeqCst);
                                sh = cv.wait(sh).unwrap();
                                waiting.fetch_sub(1, SeqCst);
                            }
                        }
                        while let Some(item) = local.pop() {
                            if stop.load(SeqCst) {
                                local.clear();
                                break;
                            }
                            if start.elapsed() > cfg.wall_cap {
                                capped.store(true, SeqCst);
                                stop.store(true, SeqCst);
                            }
                            let plen = item.prefix.len();
                            *beat.lock().unwrap() = Some((
                                Instant::now(),
                                item.scenario,
                                item.prefix.iter().map(|p| p.chosen).collect(),
                            ));
                            let r = execute(g, item.scenario, item.prefix, false);
                            *beat.lock().unwrap() = None;
                            let k = execs.fetch_add(1, SeqCst);
                            steps.fetch_add(r.steps, SeqCst);
                            points.fetch_add(r.points.len() as u64, SeqCst);
                            maxc.fetch_max(r.points.len(), SeqCst);
                            if n_states.load(SeqCst) < 30_000_000 {
                                for h in &r.states {
                                    let sh = (*h % SHARDS as u64) as usize;
                                    if states[sh].lock().unwrap().insert(*h) {
                                        n_states.fetch_add(1, SeqCst);
                                    }
                                }
                            }
                            if k < 2_000_000 {
                                outcomes.lock().unwrap().insert(r.hash);
                            }
                            let mut bad = None;
                            for v in r.viols {
                                let mine = v.tags.iter().any(|t| *t == "*" || *t == cfg.property || cfg.property == "ANY")
                                    || g.also.contains(&cfg.property);
                                if !mine {
                                    foreign.fetch_add(1, SeqCst);
                                } else if cfg.known_keys.iter().any(|k| *k == v.key) {
                                    let mut kn = known.lock().unwrap();
                                    match kn.iter_mut().find(|e| e.0 == v.key) {
                                        Some(e) => e.1 += 1,
                                        None => kn.push((v.key, 1)),
                                    }
                                } else if bad.is_none() {
                                    bad = Some(v);
                                }
                            }
                            if let Some(viol) = bad {
                                failures.lock().unwrap().push(Failure {
                                    group: g.name.clone(),
                                    scenario: item.scenario,
                                    description: (g.describe)(item.scenario),
                                    choices: r.points.iter().map(|p| p.chosen).collect(),
                                    deviations: r
                                        .points
                                        .iter()
                                        .map(|p| if p.chosen > 0 { p.cost } else { 0 })
                                        .sum(),
                                    viol,
                                });
                                stop.store(true, SeqCst);
                                continue;
                            }
                            if let Some(e) = r.engine_error {
                                let mut errors = errors.lock().unwrap();
                                errors.push(format!(
                                    "{} scenario {} ({}) choices {:?}: {e}",
                                    g.name,
                                    item.scenario,
                                    (g.describe)(item.scenario),
                                    r.points.iter().map(|p| p.chosen).collect::<Vec<_>>()
                                ));
                                // Code under test that is not deterministic may still show what is
                                // wrong with it in other executions.
                                if errors.len() >= 500 {
                                    stop.store(true, SeqCst);
                                }
                                continue;
                            }
                            // Branch at every point this execution decided by default.
                            let mut spent: u32 = r.points[..plen]
                                .iter()
                                .map(|p| if p.chosen > 0 { p.cost } else { 0 })
                                .sum();
                            for i in plen..r.points.len() {
                                let p = r.points[i];
                                if g.bound.map_or(true, |b| spent + p.cost <= b) {
                                    for alt in (1..p.n).rev() {
                                        let mut prefix: Vec<PrefixPoint> = r.points[..i]
                                            .iter()
                                            .map(|q| PrefixPoint {
                                                n: q.n,
                                                chosen: q.chosen,
                                                label: q.label,
                                            })
                                            .collect();
                                        prefix.push(PrefixPoint { n: p.n, chosen: alt, label: p.label });
                                        local.push(Item { group: item.group, scenario: item.scenario, prefix });
                                    }
                                }
                                spent += if p.chosen > 0 { p.cost } else { 0 };
                            }
                            if waiting.load(SeqCst) > 0 && local.len() > 1 {
                                let mut sh = shared.lock().unwrap();
                                let half = local.len() / 2;
                                sh.queue.extend(local.drain(..half));
                                cv.notify_all();
                            }
                        }
                        let mut sh = shared.lock().unwrap();
                        sh.active -= 1;
                        if sh.active == 0 && sh.queue.is_empty() {
                            cv.notify_all();
                        }
                    }
                };
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, body)
                    .unwrap();
            }
            // Watchdog: an execution that never returns is a livelock of the code under test.
            let (beats, done, g) = (&beats, &done, &g);
            let cfg2 = (cfg.property, g.name.clone());
            let shared2 = &shared;
            s.spawn(move || loop {
                std::thread::sleep(Duration::from_millis(50));
                let sh = shared2.lock().unwrap();
                if done.load(SeqCst) || (sh.active == 0 && sh.queue.is_empty()) {
                    return;
                }
                drop(sh);
                for b in beats.iter() {
                    let b = b.lock().unwrap().clone();
                    if let Some((t, scenario, prefix)) = b {
                        if t.elapsed() > Duration::from_secs(40) {
                            crate::report_hang(
                                cfg2.0,
                                &Failure {
                                    group: cfg2.1.clone(),
                                    scenario,
                                    description: (g.describe)(scenario),
                                    choices: prefix,
                                    deviations: 0,
                                    viol: Viol {
                                        tags: &["*"],
                                        key: "hang".into(),
                                        msg: "the library did not return from a poll (busy loop)".into(),
                                    },
                                },
                            );
                        }
                    }
                }
            });
        });
        done.store(true, SeqCst);

        report.executions += execs.load(SeqCst);
        report.scenarios += g.scenarios as u64;
        report.transitions += steps.load(SeqCst);
        report.choice_points += points.load(SeqCst);
        report.foreign += foreign.load(SeqCst);
        report.max_choices = report.max_choices.max(maxc.load(SeqCst));
        report.capped |= capped.load(SeqCst);
        report.groups.push(serde_json::json!({
            "group": g.name, "scenarios": g.scenarios, "executions": execs.load(SeqCst),
            "deviation_bound": g.bound, "complete": !stop.load(SeqCst),
            "wall_s": (gstart.elapsed().as_secs_f64()*100.0).round()/100.0,
        }));
        for (k, n) in known.into_inner().unwrap() {
            match report.known.iter_mut().find(|e| e.0 == k) {
                Some(e) => e.1 += n,
                None => report.known.push((k, n)),
            }
        }
        if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
            report.engine_error = Some(e);
        }
        let mut fs = failures.into_inner().unwrap();
        fs.sort_by_key(|f| (f.deviations, f.choices.len(), f.scenario));
        if let Some(f) = fs.into_iter().next() {
            // A violation only counts if its recorded schedule reproduces it.
            let mut again = Default::default();
            let seen = (0..20).any(|_| {
                again = replay(g, f.scenario, &f.choices);
                again.0.iter().any(|v| v.key == f.viol.key)
            });
            if seen {
                report.failure = Some(f);
            } else {
                report.engine_error =
                    Some(format!("not reproducible: {:?} then {:?} ({})", f, again.0, again.1));
            }
        }
        // A few executions written out: the first, middle and last scenario under default choices.
        if report.samples.len() < cfg.samples && g.scenarios > 0 {
            for sc in [0, g.scenarios / 2] {
                if report.samples.len() < cfg.samples {
                    let r = execute(g, sc, vec![], true);
                    report.samples.push(serde_json::json!({
                        "group": g.name, "scenario": (g.describe)(sc),
                        "events": r.narrative.unwrap_or_default(),
                    }));
                }
            }
        }
        if report.failure.is_some() || report.capped {
            break;
        }
    }
    report.states = n_states.load(SeqCst);
    report.outcomes = outcomes.into_inner().unwrap().len() as u64;
    report
}

/// Executes one recorded schedule; returns its verdict and narrative.
pub fn replay(g: &Group, scenario: usize, choices: &[u32]) -> (Vec<Viol>, String) {
    // Labels and widths are unknown here: discover them by replaying ever longer prefixes.
    let mut prefix: Vec<PrefixPoint> = vec![];
    let mut last = execute(g, scenario, vec![], true);
    while prefix.len() < choices.len() && prefix.len() < last.points.len() {
        let mut i = prefix.len();
        while i < choices.len() && i < last.points.len() {
            let p = last.points[i];
            prefix.push(PrefixPoint { n: p.n, chosen: choices[i], label: p.label });
            i += 1;
            if choices[i - 1] != p.chosen {
                break;
            }
        }
        last = execute(g, scenario, prefix.clone(), true);
    }
    let mut text = last.narrative.unwrap_or_default().join("\n");
    if let Some(e) = last.engine_error {
        text.push_str(&format!("\nengine: {e}"));
    }
    (last.viols, text)
}

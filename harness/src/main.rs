//! Command line of the explorer.
//!
//! mc check ID TIER OUT      explore everything that decides property ID, write the result to OUT
//! mc observe TIER OUT       write what an observer sees of every execution of the parity scenarios
//! mc replay FILE            run the execution recorded in FILE, print what happens

mod api;
mod backend;
mod cli;
mod dispatch;
mod engine;
mod life;
mod sim;
mod transport;
mod values;

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use engine::{Config, Failure, Group, Report};
use serde_json::{json, Value};

type Build = fn(u32) -> Vec<Group>;

/// All groups, by the name of the set they belong to, and the family: `t` involves the transport,
/// and thereby the runtime, `l` the service, `c` the client handle, `v` single values and calls.
const SETS: &[(&str, Build, char)] = &[
    ("chunk", transport::chunking, 't'),
    ("garbage", transport::garbage, 't'),
    ("output", transport::output, 't'),
    ("classify", transport::classify, 't'),
    ("level", transport::concurrency, 't'),
    ("progress", transport::progress, 't'),
    ("ending", transport::ending, 't'),
    ("faults", transport::faults, 't'),
    ("requests", transport::requests, 't'),
    ("life", life::lifecycle, 'l'),
    ("cancel", life::cancel, 'l'),
    ("cli", cli::messaging, 'c'),
    ("gate", cli::gating, 'c'),
    ("close", cli::closing, 'c'),
    ("methods", dispatch::methods, 'v'),
    ("customs", dispatch::customs, 'v'),
    ("client", api::client, 'v'),
    ("streams", api::progress, 'v'),
    ("values", values::round_trips, 'v'),
];

/// The sets that are explored in depth for a property, with the depth of the quick tier, and the
/// families of which all other sets are explored with the smallest bounds.
fn plan(id: &str) -> (Vec<(&'static str, u32)>, &'static str) {
    let (own, others): (&[(&str, u32)], &str) = match id {
        "C01" => (&[("chunk", 1)], "t"),
        "C02" => (&[("garbage", 1)], "t"),
        "C03" => (&[("output", 2), ("progress", 1)], "t"),
        "C04" => (&[("classify", 1)], "tl"),
        "C05" => (&[("values", 1)], "t"),
        "C06" => (&[("methods", 1)], "tl"),
        "C07" | "C09" => (&[("life", 1)], "tlc"),
        "C08" => (&[("life", 1)], "tl"),
        "C10" => (&[("life", 1), ("gate", 0), ("ending", 1)], "tlc"),
        "C11" => (&[("requests", 2), ("ending", 2), ("cancel", 0)], "tl"),
        "C12" => (&[("cancel", 1), ("requests", 2)], "tl"),
        "C13" => (&[("cancel", 1), ("requests", 2)], "tl"),
        "C14" => (&[("level", 1)], "t"),
        "C15" => (&[("progress", 1), ("requests", 2)], "tlc"),
        "C16" => (&[("ending", 2), ("close", 1)], "tlc"),
        "C17" => (&[("faults", 1)], "t"),
        "C18" | "C19" | "C23" => (&[("cli", 1)], "tc"),
        "C20" => (&[("gate", 1)], "c"),
        "C21" => (&[("client", 1)], "c"),
        "C22" => (&[("streams", 1)], ""),
        "C24" => (&[("customs", 1)], "l"),
        _ => (&[], "tlc"),
    };
    (own.to_vec(), others)
}

fn build(name: &str) -> Build {
    SETS.iter().find(|s| s.0 == name).unwrap().1
}

const AGNOSTIC: bool = cfg!(feature = "agnostic");

/// Scenarios that contain nothing but what one property is about.
fn on_behalf(set: &str, mut groups: Vec<Group>) -> Vec<Group> {
    let also: &[&str] = match set {
        "chunk" => &["C01"],
        "garbage" => &["C02"],
        "classify" => &["C04"],
        _ => &[],
    };
    groups.iter_mut().for_each(|g| g.also = also);
    groups
}

/// What to explore for a property, at a depth above that of the quick tier.
fn groups(id: &str, extra: u32, smoke: bool) -> Vec<Group> {
    let (own, others) = plan(id);
    let mut v = vec![];
    for (name, d) in &own {
        let s = SETS.iter().find(|s| s.0 == *name).unwrap();
        // What does not involve the runtime is explored with one of them.
        if s.2 == 't' || !AGNOSTIC {
            v.extend(on_behalf(name, (s.1)(d + extra)));
        }
    }
    if smoke {
        for (name, f, family) in SETS {
            let here = *family == 't' || !AGNOSTIC;
            if !own.iter().any(|o| o.0 == *name) && here && others.contains(*family) {
                v.extend(on_behalf(name, f(0)));
            }
        }
    }
    v
}

fn runtime() -> &'static str {
    if AGNOSTIC {
        "agnostic"
    } else {
        "tokio"
    }
}

static OUT: Mutex<Option<(String, String)>> = Mutex::new(None);

fn failure_json(f: &Failure, trace: &str) -> Value {
    json!({
        "runtime": runtime(), "group": f.group, "scenario": f.scenario, "description": f.description,
        "choices": f.choices, "deviations": f.deviations,
        "key": f.viol.key, "message": f.viol.msg, "tags": f.viol.tags, "trace": trace,
    })
}

/// Called by the watchdog: an execution does not return.
pub fn report_hang(_property: &str, f: &Failure) -> ! {
    if let Some((id, out)) = OUT.lock().unwrap().clone() {
        let v = json!({"property": id, "runtime": runtime(), "failure": failure_json(f, "")});
        let _ = std::fs::write(out, v.to_string());
    }
    eprintln!("hang: {f:#?}");
    std::process::exit(1);
}

fn report_json(r: &Report) -> Value {
    json!({
        "executions": r.executions, "scenarios": r.scenarios, "states": r.states,
        "transitions": r.transitions, "choice_points": r.choice_points, "outcomes": r.outcomes,
        "max_choices": r.max_choices, "foreign": r.foreign, "capped": r.capped,
        "groups": r.groups, "samples": r.samples,
        "known": r.known.iter().map(|(k, n)| json!({"key": k, "executions": n})).collect::<Vec<_>>(),
        "engine_error": r.engine_error,
    })
}

fn check(id: &str, tier: &str, out: &str, known: Vec<String>) {
    let id: &'static str = Box::leak(id.to_string().into_boxed_str());
    *OUT.lock().unwrap() = Some((id.into(), out.into()));
    let thorough = tier == "thorough";
    let start = Instant::now();
    let cap = Duration::from_secs(if thorough { 420 } else { 240 });
    let mut result = Value::Null;
    let mut partial = Value::Null;
    let mut extra = 0;
    loop {
        let gs = groups(id, extra, extra == 0 || thorough);
        let cfg = Config {
            property: id,
            known_keys: known.clone(),
            wall_cap: cap.saturating_sub(start.elapsed()),
            threads: std::thread::available_parallelism().map_or(8, |n| n.get()),
            samples: 4,
        };
        let r = engine::explore(&gs, &cfg);
        let mut v = report_json(&r);
        v["depth"] = json!(extra);
        v["failure"] = match &r.failure {
            Some(f) => {
                let g = gs.iter().find(|g| g.name == f.group).unwrap();
                failure_json(f, &engine::replay(g, f.scenario, &f.choices).1)
            }
            None => Value::Null,
        };
        let bad = r.failure.is_some() || r.engine_error.is_some();
        if bad || !r.capped || result.is_null() {
            result = v;
        } else {
            partial = json!({"depth": extra, "executions": r.executions, "groups": r.groups});
        }
        // Deeper bounds as long as there is time for them.
        if bad || r.capped || !thorough || gs.is_empty() || start.elapsed() > cap / 3 || extra >= 6 {
            break;
        }
        extra += 1;
    }
    result["property"] = json!(id);
    result["runtime"] = json!(runtime());
    result["partial"] = partial;
    result["wall_s"] = json!(start.elapsed().as_secs_f64());
    std::fs::write(out, serde_json::to_string_pretty(&result).unwrap()).unwrap();
}

/// The scenarios both runtimes must treat alike: healthy I/O, and no exit while the order in which
/// requests are cancelled is up to a hash map.
fn parity(d: u32) -> Vec<Group> {
    let mut v = vec![];
    for (name, f, _) in SETS.iter().filter(|s| s.2 == 't' && s.0 != "faults") {
        for g in f(d) {
            let scns: &Vec<sim::Scn> = g.data.as_ref().unwrap().downcast_ref().unwrap();
            let scns: Vec<sim::Scn> = scns.iter().filter(|s| s.alike()).cloned().collect();
            let bound = g.bound.unwrap().saturating_sub(if *name == "level" { 1 } else { 0 });
            v.push(sim::group(&format!("{name}: {}", g.name), bound, scns));
        }
    }
    v
}

fn observe(tier: &str, out: &str) {
    let seen: Arc<Mutex<BTreeMap<String, u64>>> = Arc::default();
    let mut gs = parity(if tier == "thorough" { 1 } else { 0 });
    for g in &mut gs {
        let scns = g.data.clone().unwrap().downcast::<Vec<sim::Scn>>().unwrap();
        let (seen, name) = (seen.clone(), g.name.clone());
        g.run = Box::new(move |i| {
            let mut s = sim::Sim::new(&scns[i]);
            s.run();
            let key = format!("{name}|{i}|{:?}", engine::choices());
            seen.lock().unwrap().insert(key, engine::hash_str(&s.observation()));
        });
    }
    let cfg = Config {
        property: "C25",
        known_keys: vec![],
        wall_cap: Duration::from_secs(300),
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()),
        samples: 4,
    };
    let r = engine::explore(&gs, &cfg);
    let mut v = report_json(&r);
    v["runtime"] = json!(runtime());
    v["failure"] = match &r.failure {
        Some(f) => failure_json(f, ""),
        None => Value::Null,
    };
    v["observations"] = json!(*seen.lock().unwrap());
    std::fs::write(out, v.to_string()).unwrap();
}

fn all(id: &str) -> Vec<Group> {
    let mut v = vec![];
    for extra in 0..7 {
        v.extend(groups(id, extra, true));
    }
    for d in 0..2 {
        v.extend(parity(d));
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    engine::install_panic_hook();
    match args[..] {
        ["check", id, tier, out] => {
            let known = std::env::var("MC_KNOWN").unwrap_or_default();
            check(id, tier, out, known.lines().map(String::from).filter(|l| !l.is_empty()).collect())
        }
        ["observe", tier, out] => observe(tier, out),
        ["replay", file] => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let f = &v["failure"];
            let scenario = f["scenario"].as_u64().unwrap() as usize;
            let choices: Vec<u32> = serde_json::from_value(f["choices"].clone()).unwrap();
            let gs = all(v["property"].as_str().unwrap());
            for g in gs.iter().filter(|g| f["group"] == *g.name && g.scenarios > scenario) {
                if f["description"] == (g.describe)(scenario) {
                    let (viols, text) = engine::replay(g, scenario, &choices);
                    println!("{text}");
                    std::process::exit(if viols.is_empty() { 0 } else { 1 });
                }
            }
            eprintln!("no such scenario");
            std::process::exit(2);
        }
        // For development: one set at one depth, everything counts.
        ["set", name, depth] => {
            let gs = build(name)(depth.parse().unwrap());
            let known = std::env::var("MC_KNOWN").unwrap_or_default();
            let cfg = Config {
                property: "ANY",
                known_keys: known.lines().map(String::from).collect(),
                wall_cap: Duration::from_secs(600),
                threads: 8,
                samples: 4,
            };
            let r = engine::explore(&gs, &cfg);
            for g in &r.groups {
                println!("{g}");
            }
            println!(
                "executions {} states {} transitions {} outcomes {} capped {} max_choices {} known {:?}",
                r.executions, r.states, r.transitions, r.outcomes, r.capped, r.max_choices, r.known
            );
            if let Some(e) = r.engine_error {
                println!("ENGINE {e}");
            }
            if let Some(f) = r.failure {
                println!("FAIL {f:#?}");
                let g = gs.iter().find(|g| g.name == f.group).unwrap();
                println!("{}", engine::replay(g, f.scenario, &f.choices).1);
            }
        }
        _ => {
            eprintln!("usage: mc check ID TIER OUT | mc observe TIER OUT | mc replay FILE | mc set NAME DEPTH");
            std::process::exit(2);
        }
    }
}

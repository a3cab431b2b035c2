//! Explores the interleavings of threads that use one server at the same time. Usage as that of the
//! other explorer: threads check PROPERTY quick|thorough OUT, threads list, threads replay FILE,
//! threads run BOUND NAME...

mod scenarios;
mod sched;

use sched::*;
use serde_json::json;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = scenarios::all();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in &all {
                println!("{:<60} {:?}", s.name, s.props);
            }
        }
        Some("run") => {
            let bound: u32 = args[2].parse().unwrap();
            for s in all.iter().filter(|s| args.len() == 3 || args[3..].iter().any(|a| s.name.contains(a.as_str()))) {
                let t = Instant::now();
                let o = explore(s, bound, Duration::from_secs(600));
                println!(
                    "{:<60} {:>8} executions {:>6.2} s, steps/exec {:>4}, choices <= {}, outcomes {}{}",
                    s.name,
                    o.executions,
                    t.elapsed().as_secs_f64(),
                    o.steps / o.executions.max(1),
                    o.max_choices,
                    o.outcomes.len(),
                    if o.capped { " CAPPED" } else { "" }
                );
                if let Some(f) = o.failure {
                    println!("  FAILS: {}\n{}\n  {:?}", f.message, f.trace, f.choices);
                }
            }
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let f = &v["failure"];
            let name = f["group"].as_str().unwrap();
            let choices: Vec<u8> = serde_json::from_value(f["choices"].clone()).unwrap();
            let s = all.iter().find(|s| s.name == name).expect("the scenario");
            let (failed, message, trace) = replay(s, f["bound"].as_u64().unwrap() as u32, &choices);
            println!("{trace}{}", if failed { format!("FAILS: {message}") } else { "holds".into() });
            std::process::exit(failed as i32);
        }
        Some("check") => check(&all, &args[2], &args[3], &args[4]),
        _ => panic!("usage: threads check PROPERTY quick|thorough OUT"),
    }
}

fn check(all: &[Scenario], prop: &str, tier: &str, out: &str) {
    let quick = tier == "quick";
    let start = Instant::now();
    let (rounds, budget): (&[u32], u64) = if quick { (&[1, 2, 3], 45) } else { (&[1, 2, 3, 4, 5], 1500) };
    let mine: Vec<&Scenario> = all.iter().filter(|s| s.props.contains(&prop)).collect();
    // Per scenario: the bound that was explored completely, its outcome, and what came after it.
    let mut done: Vec<Option<(u32, Outcome)>> = mine.iter().map(|_| None).collect();
    let mut partial: Vec<Option<(u32, u64)>> = mine.iter().map(|_| None).collect();
    let mut failure = None;
    let mut errors = vec![];
    // Few preemptions first: they give the shortest counterexamples.
    'rounds: for &b in rounds {
        for (i, s) in mine.iter().enumerate() {
            if partial[i].is_some() {
                continue;
            }
            let open = (i..mine.len()).filter(|j| partial[*j].is_none()).count() as u32;
            let left = Duration::from_secs(budget).saturating_sub(start.elapsed());
            // The first round is always completed.
            let limit = if b == rounds[0] { Duration::from_secs(600) } else { left / open };
            let o = explore(s, b, limit);
            if let Some(f) = &o.failure {
                if f.message.starts_with("machinery") {
                    errors.push(format!("{}: {}", s.name, f.message));
                } else {
                    // A failure has to be repeatable.
                    let (again, message, trace) = replay(s, b, &f.choices);
                    if !again || message != f.message {
                        errors.push(format!("{}: cannot repeat {:?}: {:?}", s.name, f.message, message));
                    } else {
                        failure = Some(json!({
                            "group": s.name, "scenario": 0, "choices": f.choices, "bound": b, "key": "threads",
                            "message": f.message, "description": format!("{} with at most {b} preemptions", s.name), "trace": trace,
                        }));
                    }
                }
                done[i] = Some((b, o));
                break 'rounds;
            }
            if o.capped {
                partial[i] = Some((b, o.executions));
                if done[i].is_none() {
                    done[i] = Some((b, o));
                }
            } else {
                done[i] = Some((b, o));
            }
        }
    }
    let mut groups = vec![];
    let mut samples = vec![];
    let mut sum = (0, 0, 0, 0, 0);
    let mut capped = false;
    for ((s, d), p) in mine.iter().zip(&done).zip(&partial) {
        let Some((b, o)) = d else { continue };
        groups.push(json!({
            "name": s.name, "preemption_bound": b, "executions": o.executions, "steps": o.steps, "outcomes": o.outcomes.len(),
            "complete": !o.capped && o.failure.is_none(),
            "partly_explored": p.filter(|(_, n)| *n > 0).map(|(b, n)| json!({"preemption_bound": b, "executions": n})),
        }));
        if samples.len() < 2 {
            samples.push(json!({"scenario": s.name, "events": o.sample}));
        }
        capped |= o.capped;
        sum = (sum.0 + o.executions, sum.1 + o.steps, sum.2 + o.points, sum.3 + o.outcomes.len() as u64, sum.4.max(o.max_choices));
    }
    let result = json!({
        "property": prop, "tier": tier, "runtime": "threads", "failure": failure,
        "executions": sum.0, "transitions": sum.1, "states": sum.2 + 1, "choice_points": sum.2, "outcomes": sum.3,
        "max_choices": sum.4, "groups": groups, "samples": samples, "capped": capped, "known": [], "foreign": 0,
        "engine_error": if errors.is_empty() { None } else { Some(errors.join("; ")) },
    });
    std::fs::write(out, serde_json::to_vec_pretty(&result).unwrap()).unwrap();
}

//! One binary, one subcommand per property. See /verif/DESIGN.md.
#![allow(clippy::type_complexity, deprecated)]

mod gen;
mod prog;
mod props;
mod runner;
mod sim;

use serde_json::json;
use std::sync::Mutex;
use std::time::Instant;

pub const SCHED: bool = cfg!(dam_verif_sched);

pub fn mode() -> &'static str {
    if SCHED {
        "scheduled"
    } else {
        "native"
    }
}

/// What a worker is doing: since when, which part (empty: nothing), case number and seed.
#[derive(Clone)]
pub struct Busy {
    pub since: Instant,
    pub part: String,
    pub case: u64,
    pub rng: u64,
}

static STALL: Mutex<Vec<Busy>> = Mutex::new(vec![]);
const STALL_S: u64 = if SCHED { 45 } else { 90 };

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let id = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let Some((_, parts)) = props::all().into_iter().find(|p| p.0 == id) else {
        eprintln!("no such property {id}");
        std::process::exit(2);
    };
    sim::install_hook();
    if args.iter().any(|a| a == "--serve") {
        return runner::serve(&parts);
    }
    *runner::BASE_BINARY.lock().unwrap() = opt("--base");
    *STALL.lock().unwrap() = (0..8)
        .map(|_| Busy { since: Instant::now(), part: String::new(), case: 0, rng: 0 })
        .collect();
    let (out, what_id) = (opt("--out"), id.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let busy = STALL.lock().unwrap().clone();
        for b in busy {
            if !b.part.is_empty() && b.since.elapsed().as_secs() > STALL_S {
                let what = format!("case {} of {} did not finish within {STALL_S} s", b.case, b.part);
                if SCHED {
                    // Waiting is the scheduler's business here, so either this waits by means which it does not
                    // know, or it loops without waiting, which ordinary threads show as well.
                    println!("UNUSABLE {what}");
                    std::process::exit(3);
                }
                println!("FAILED {what}");
                if let Some(path) = &out {
                    let v = json!({"property": what_id, "part": b.part, "mode": mode(), "seed": seed, "case": b.case,
                        "what": what, "choices": [], "rng": b.rng});
                    let part = json!({"part": b.part, "mode": mode(), "rule": "", "evaluations": b.case, "executions": b.case,
                        "distinct": 0, "distinct_nontrivial": 0, "inconclusive": 0, "classes": {}, "wall_s": STALL_S, "samples": []});
                    let res = json!({"property": what_id, "mode": mode(), "parts": [part], "violation": v, "findings": []});
                    let _ = std::fs::write(path, res.to_string());
                }
                std::process::exit(1);
            }
        }
    });

    if let Some(path) = opt("--replay") {
        let text = std::fs::read_to_string(path).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&text).expect("replay json");
        let choices: Vec<u64> = v["choices"]
            .as_array()
            .expect("choices")
            .iter()
            .map(|x| x.as_u64().unwrap())
            .collect();
        let part = parts
            .iter()
            .find(|p| p.name == v["part"].as_str().unwrap_or(""))
            .expect("no such part");
        for _ in 0..if SCHED { 1 } else { 200 } {
            let mut g = match v["rng"].as_u64() {
                Some(rng) if choices.is_empty() => gen::Gen::random(rng),
                _ => gen::Gen::replay(choices.clone()),
            };
            STALL.lock().unwrap()[0] = Busy { since: Instant::now(), part: part.name.to_string(), case: 0, rng: 0 };
            let case = runner::evaluate(&id, part, &mut g);
            if let Some(what) = case.violation {
                println!("FAILED {what}");
                println!("{}", serde_json::to_string_pretty(&case.sample).unwrap());
                std::process::exit(1);
            }
        }
        println!("held");
        return;
    }

    let only = opt("--part");
    let mut evidence = vec![];
    let mut violation = None;
    for part in &parts {
        if only.as_deref().is_some_and(|o| o != part.name) {
            continue;
        }
        let out = runner::run_part(&id, part, seed, thorough, &STALL);
        evidence.push(out.evidence);
        if out.violation.is_some() {
            violation = out.violation;
            break;
        }
    }
    let findings: Vec<serde_json::Value> = if violation.is_none() && only.is_none() {
        props::known_findings(&id)
            .into_iter()
            .map(|(key, what)| json!({"key": key, "what": what}))
            .collect()
    } else {
        vec![]
    };
    let result = json!({"property": id, "mode": mode(), "parts": evidence, "violation": violation, "findings": findings});
    match opt("--out") {
        Some(path) => std::fs::write(path, serde_json::to_string(&result).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&result).unwrap()),
    }
    std::process::exit(if violation.is_some() { 1 } else { 0 });
}

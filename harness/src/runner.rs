//! Drives one property: many generated cases in parallel, then shrinking, the replay file and the
//! numbers for the evidence file.
use crate::gen::{hash_str, mix, shrink, Gen};
use crate::Busy;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Case {
    /// What the property does not allow, if it happened.
    pub violation: Option<String>,
    /// Set when this case could not be judged.
    pub inconclusive: Option<String>,
    pub nontrivial: bool,
    /// Identifies the case for counting distinct ones.
    pub key: u64,
    /// Executions of the code under test within the case.
    pub runs: u64,
    pub classes: Vec<&'static str>,
    pub sample: Value,
    /// What the case observed that no schedule or build configuration may change; only of a case
    /// which ran to its end.
    pub history: Option<Vec<String>>,
}

impl Case {
    pub fn class(&mut self, name: &'static str, on: bool) {
        if on {
            self.classes.push(name);
        }
    }

    pub fn fail(&mut self, text: impl Into<String>) {
        if self.violation.is_none() {
            self.violation = Some(text.into());
        }
    }

    pub fn check<T>(&mut self, r: Result<T, String>) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.fail(e);
                None
            }
        }
    }
}

pub struct Part {
    pub name: &'static str,
    /// What makes a case non-trivial.
    pub rule: &'static str,
    pub run: fn(&mut Gen) -> Case,
    /// Cases in the quick tier: (scheduled, native).
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
}

pub struct Outcome {
    pub evidence: Value,
    pub violation: Option<Value>,
}

const WORKERS: u64 = 8;

/// A process of another build configuration, which runs the same cases.
struct Base {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

thread_local! {
    static BASE: RefCell<Option<Base>> = const { RefCell::new(None) };
}

/// The binary of the other configuration, if this is a comparison.
pub static BASE_BINARY: Mutex<Option<String>> = Mutex::new(None);

fn ask_base(binary: &str, id: &str, part: &str, choices: &[u64]) -> Option<Vec<String>> {
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            let mut child = Command::new(binary)
                .args([id, "--serve"])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("start the other configuration");
            let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
            *b = Some(Base { _child: child, to, from: BufReader::new(from) });
        }
        let s = b.as_mut().unwrap();
        let answer = writeln!(s.to, "{}", json!({"part": part, "choices": choices}))
            .and_then(|_| s.to.flush())
            .and_then(|_| {
                let mut line = String::new();
                s.from.read_line(&mut line).map(|_| line)
            });
        match answer.ok().and_then(|l| serde_json::from_str::<Value>(&l).ok()) {
            Some(v) => serde_json::from_value(v).unwrap_or(None),
            None => {
                // The other configuration died of this case.
                *b = None;
                None
            }
        }
    })
}

/// Answers `ask_base` of another process.
pub fn serve(parts: &[Part]) {
    for line in std::io::stdin().lines() {
        let Ok(v) = serde_json::from_str::<Value>(&line.unwrap_or_default()) else { return };
        let choices: Vec<u64> = serde_json::from_value(v["choices"].clone()).unwrap_or_default();
        let part = parts.iter().find(|p| v["part"] == p.name).expect("no such part");
        let history = crate::sim::catch(|| (part.run)(&mut Gen::replay(choices)).history).ok().flatten();
        println!("{}", json!(history));
        let _ = std::io::stdout().flush();
    }
}

/// Runs one case and, where another configuration is to be compared with, compares.
pub fn evaluate(id: &str, part: &Part, g: &mut Gen) -> Case {
    // What is called outside of a simulation may panic as well.
    let run = crate::sim::catch(|| (part.run)(g));
    let mut case = run.unwrap_or_else(|e| Case {
        violation: Some(format!("panicked outside of a simulation: {e}")),
        key: mix(&g.choices),
        sample: json!("panicked"),
        ..Default::default()
    });
    let Some(binary) = BASE_BINARY.lock().unwrap().clone() else {
        return case;
    };
    case.runs = 2;
    match (ask_base(&binary, id, part.name, &g.choices), case.history.take()) {
        (None, _) => {
            case.inconclusive.get_or_insert("the standard configuration does not complete it".into());
        }
        (Some(_), None) => {
            let why = case.inconclusive.take().unwrap_or_default();
            case.fail(format!("the standard configuration completes this, this one does not: {why}"));
        }
        (Some(a), Some(b)) => {
            for i in 0..a.len().max(b.len()) {
                if a.get(i) != b.get(i) {
                    case.fail(format!("the standard configuration: {:?}; this one: {:?}", a.get(i), b.get(i)));
                    break;
                }
            }
        }
    }
    case
}

pub fn run_part(id: &str, part: &Part, seed: u64, thorough: bool, stall: &Mutex<Vec<Busy>>) -> Outcome {
    let tier = if thorough { part.thorough } else { part.quick };
    let scale: f64 = std::env::var("DAMCHECK_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let total = ((if crate::SCHED { tier.0 } else { tier.1 }) as f64 * scale).ceil() as u64;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let start = Instant::now();

    #[derive(Default)]
    struct Sum {
        evaluations: u64,
        runs: u64,
        nontrivial: HashSet<u64>,
        distinct: HashSet<u64>,
        classes: BTreeMap<&'static str, u64>,
        inconclusive: u64,
        inconclusive_why: Option<String>,
        samples: Vec<(u64, Value)>,
        failed: Option<(u64, Vec<u64>, String, Value)>,
    }
    let sum = Mutex::new(Sum::default());
    let salt = hash_str(id) ^ hash_str(part.name) ^ if crate::SCHED { 0 } else { 0xABCD };

    std::thread::scope(|s| {
        for w in 0..WORKERS {
            let (sum, next, stop) = (&sum, &next, &stop);
            s.spawn(move || loop {
                let index = next.fetch_add(1, Ordering::SeqCst);
                if index >= total || stop.load(Ordering::SeqCst) {
                    stall.lock().unwrap()[w as usize].part.clear();
                    return;
                }
                let rng = mix(&[seed, salt, index]);
                stall.lock().unwrap()[w as usize] = Busy { since: Instant::now(), part: part.name.to_string(), case: index, rng };
                let mut g = Gen::random(rng);
                let case = evaluate(id, part, &mut g);
                let mut sm = sum.lock().unwrap();
                sm.evaluations += 1;
                sm.runs += case.runs.max(1);
                sm.distinct.insert(case.key);
                for c in &case.classes {
                    *sm.classes.entry(c).or_default() += 1;
                }
                if let Some(why) = case.inconclusive {
                    sm.inconclusive += 1;
                    sm.inconclusive_why.get_or_insert(why);
                } else if case.nontrivial {
                    sm.nontrivial.insert(case.key);
                    let small = index < 40 && sm.samples.len() < 12;
                    if small {
                        sm.samples.push((index, case.sample.clone()));
                    }
                }
                if let Some(v) = case.violation {
                    stop.store(true, Ordering::SeqCst);
                    if sm.failed.as_ref().map_or(true, |f| index < f.0) {
                        sm.failed = Some((index, g.choices.clone(), v, case.sample));
                    }
                }
            });
        }
    });

    let mut sum = sum.into_inner().unwrap();
    sum.samples.sort_by_key(|x| x.0);
    sum.samples.truncate(3);
    let violation = sum.failed.take().map(|(index, choices, text, sample)| {
        let deadline = Instant::now() + Duration::from_secs(if thorough { 120 } else { 40 });
        let tries = if crate::SCHED { 1 } else { 15 };
        let mut last = (text.clone(), sample);
        stall.lock().unwrap()[0].part.clear();
        let best = shrink(choices.clone(), 4000, deadline, |cand| {
            for _ in 0..tries {
                stall.lock().unwrap()[0] = Busy { since: Instant::now(), part: part.name.to_string(), case: index, rng: mix(&[seed, salt, index]) };
                let mut g = Gen::replay(cand.to_vec());
                let case = evaluate(id, part, &mut g);
                if let Some(v) = case.violation {
                    // Only keep it as the last description when it is going to be accepted.
                    if (g.choices.len(), &g.choices) < (cand.len() + 1, &cand.to_vec()) {
                        last = (v, case.sample);
                    }
                    return Some(g.choices);
                }
            }
            None
        });
        // Describe the case which was kept.
        for _ in 0..tries {
            let case = evaluate(id, part, &mut Gen::replay(best.clone()));
            if let Some(v) = case.violation {
                last = (v, case.sample);
                break;
            }
        }
        stall.lock().unwrap()[0].part.clear();
        json!({
            "property": id, "part": part.name, "mode": crate::mode(), "seed": seed, "case": index,
            "what": last.0, "first_seen_as": text, "reproduction": last.1, "choices": best,
            "original_choices": choices.len(),
        })
    });
    let evidence = json!({
        "part": part.name, "mode": crate::mode(), "rule": part.rule,
        "evaluations": sum.evaluations, "executions": sum.runs,
        "distinct": sum.distinct.len(), "distinct_nontrivial": sum.nontrivial.len(),
        "inconclusive": sum.inconclusive, "inconclusive_example": sum.inconclusive_why,
        "classes": sum.classes, "wall_s": start.elapsed().as_secs_f64(),
        "samples": sum.samples.into_iter().map(|x| x.1).collect::<Vec<_>>(),
    });
    Outcome { evidence, violation }
}

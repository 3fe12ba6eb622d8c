//! Running one simulation, under the seeded scheduler or natively.
use crate::gen::Gen;
use serde_json::{json, Value};
use std::cell::RefCell;

#[derive(Debug, Clone)]
pub struct Plan {
    pub seed: u64,
    /// 0..=255: chance of a switch at each step; above: priorities with that many minus 256 drops.
    pub policy: u64,
    pub changes: Vec<u64>,
    pub spurious: u32,
    pub max_steps: u64,
}

impl Plan {
    pub fn draw(g: &mut Gen, max_steps: u64) -> Self {
        let seed = g.below(1 << 32);
        let policy = *g.pick(&[0u64, 24, 96, 200, 255, 8, 256, 257, 258, 259]);
        let changes = if policy > 256 {
            (256..policy).map(|_| g.below(300)).collect()
        } else {
            vec![]
        };
        let spurious = if g.chance(1, 4) { 1500 } else { 0 };
        Self {
            seed,
            policy,
            changes,
            spurious,
            max_steps,
        }
    }

    /// The n-th other plan; the 0-th is this one.
    pub fn another(&self, n: u64) -> Self {
        if n == 0 {
            return self.clone();
        }
        let seed = crate::gen::mix(&[self.seed, n]);
        let policy = [0u64, 24, 96, 200, 255, 8, 256, 257, 258, 259][(seed % 10) as usize];
        let changes = (256..policy.max(256)).map(|i| crate::gen::mix(&[seed, i]) % 300).collect();
        Self { seed, policy, changes, ..self.clone() }
    }

    pub fn json(&self) -> Value {
        json!({"seed": self.seed, "policy": self.policy_name(), "spurious": self.spurious})
    }

    pub fn policy_name(&self) -> String {
        if !crate::SCHED {
            "native".into()
        } else if self.policy < 256 {
            format!("random-walk {}/256", self.policy)
        } else {
            format!("priorities, drops at {:?}", self.changes)
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Completed,
    Deadlock(String),
    StepLimit(String),
}

pub struct RunOut<R> {
    pub result: Result<R, String>,
    pub end: End,
    pub schedule: u64,
    pub switches: u64,
    pub steps: u64,
}

impl<R> RunOut<R> {
    /// The value of a run which ended as it should, or else what went wrong.
    pub fn done(self) -> Result<R, String> {
        match self.end {
            End::Deadlock(who) => Err(format!("the simulation deadlocked: {who}")),
            End::StepLimit(who) => Err(format!("the simulation never ended (step limit): {who}")),
            End::Completed => self.result.map_err(|e| format!("the simulation panicked: {e}")),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static PANICS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        #[cfg(dam_verif_sched)]
        if info.payload().is::<dam::shim::Teardown>() {
            return;
        }
        let text = describe(info.payload());
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let text = format!("{text} at {at}");
        if std::env::var("DAMCHECK_PANICS").is_ok() {
            println!("panic: {text}");
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(text.clone()));
        if let Ok(mut p) = PANICS.lock() {
            if p.len() > 64 {
                p.clear();
            }
            p.push(text);
        }
    }));
}

fn describe(payload: &(dyn std::any::Any + Send)) -> String {
    payload
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| payload.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

pub fn last_panic() -> String {
    LAST_PANIC
        .with(|l| l.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

/// Runs a closure, turning a panic into its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let _ = LAST_PANIC.with(|l| l.borrow_mut().take());
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let d = describe(&*e);
        let l = last_panic();
        if l.starts_with(&d) {
            l
        } else {
            d
        }
    })
}

#[cfg(dam_verif_sched)]
pub fn run<R>(plan: &Plan, f: impl FnOnce() -> R) -> RunOut<R> {
    use dam::shim::{control, Config, Outcome, Policy};
    let cfg = Config {
        seed: plan.seed,
        policy: if plan.policy < 256 {
            Policy::RandomWalk {
                switch: plan.policy as u32,
            }
        } else {
            Policy::Priorities {
                change_points: plan.changes.clone(),
            }
        },
        max_steps: plan.max_steps,
        spurious: plan.spurious,
    };
    let (result, report) = control(cfg, f);
    let show = |l: &Vec<(String, &'static str)>| {
        l.iter()
            .map(|(n, w)| format!("{n} in {w}"))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let end = match &report.outcome {
        Outcome::Completed => End::Completed,
        Outcome::Deadlock(l) => End::Deadlock(show(l)),
        Outcome::StepLimit(l) => End::StepLimit(show(l)),
    };
    RunOut {
        result: result.map_err(|e| describe(&*e)),
        end,
        schedule: report.schedule,
        switches: report.switches,
        steps: report.steps,
    }
}

#[cfg(not(dam_verif_sched))]
pub fn run<R>(plan: &Plan, f: impl FnOnce() -> R) -> RunOut<R> {
    RunOut {
        result: catch(f),
        end: End::Completed,
        schedule: plan.seed,
        switches: 0,
        steps: 0,
    }
}

/// In native runs, lets other threads in between operations; the amount is part of the case.
pub fn jitter(state: &mut u64) {
    if !crate::SCHED && *state != 0 {
        *state = crate::gen::Rng(*state).next() | 1;
        match *state >> 61 {
            0 => std::thread::yield_now(),
            1 => {
                for _ in 0..((*state >> 40) & 0x3FF) {
                    std::hint::spin_loop();
                }
            }
            _ => {}
        }
    }
}

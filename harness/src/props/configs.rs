//! C23: the same cases under another build configuration. The runner compares each case's history
//! with what the standard configuration makes of the same choices; nothing else is judged here.
use super::core::{classes, comparable, draw};
use super::{memory, streams};
use crate::gen::Gen;
use crate::prog::{Dress, Knobs};
use crate::runner::{Case, Part};
use crate::sim::Plan;
use serde_json::json;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![("C23", vec![
        Part { name: "networks", rule: "a random feasible program of 2-6 contexts, with or without flavor inference, in the standard configuration and in this one (some with real-time scheduling of its threads); non-trivial when it sends at least 3 elements", run: networks, quick: (15_000, 3_000), thorough: (500_000, 100_000) },
        Part { name: "memory-streams", rule: "a memory unit as in C15 (streams), in both configurations; non-trivial as there", run: |g| quiet(g, memory::pmu_streams), quick: (4_000, 800), thorough: (150_000, 30_000) },
        Part { name: "memory-clients", rule: "a memory unit as in C15 (clients), in both configurations; non-trivial as there", run: |g| quiet(g, memory::pmu_clients), quick: (4_000, 800), thorough: (150_000, 30_000) },
        Part { name: "dram-streams", rule: "a DRAM as in C16 (streams), in both configurations; non-trivial as there", run: |g| quiet(g, memory::dram_streams), quick: (4_000, 800), thorough: (150_000, 30_000) },
        Part { name: "dram-clients", rule: "a DRAM as in C16 (clients), in both configurations; non-trivial as there", run: |g| quiet(g, memory::dram_clients), quick: (4_000, 800), thorough: (150_000, 30_000) },
        Part { name: "pipelines", rule: "a pipeline unit as in C17, in both configurations; non-trivial as there", run: |g| quiet(g, streams::pipeline), quick: (6_000, 1_200), thorough: (200_000, 40_000) },
        Part { name: "trees", rule: "sources, broadcasts and sinks as in C18, in both configurations; non-trivial as there", run: |g| quiet(g, streams::trees), quick: (6_000, 1_200), thorough: (200_000, 40_000) },
    ])]
}

/// Other properties judge the history itself.
fn quiet(g: &mut Gen, part: fn(&mut Gen) -> Case) -> Case {
    g.early = true;
    let mut case = part(g);
    if let Some(v) = case.violation.take() {
        if case.history.is_none() {
            case.inconclusive = Some(v);
        }
    }
    case
}

fn networks(g: &mut Gen) -> Case {
    g.early = true;
    let k = Knobs { max_ctx: 6, max_ch: 8, ..Default::default() };
    let (p, infer) = draw(g, &k);
    let plan = Plan::draw(g, p.step_limit() * 4);
    let mut case = Case {
        key: p.key(),
        sample: json!({"program": p.json(), "schedule": plan.json(), "flavor_inference": infer}),
        nontrivial: p.sent >= 3,
        ..Default::default()
    };
    classes(&mut case, &p);
    // Real-time scheduling of the threads (where there are threads to schedule) is no different.
    let fifo = g.chance(1, 30) && !crate::SCHED;
    case.class("real-time scheduling", fifo);
    let dress = Dress { fifo, ..Default::default() };
    match p.execute_dressed(&plan, infer, &dress).done() {
        Ok(ran) => {
            let mut h: Vec<String> = comparable(&ran.log, &p, false)
                .into_iter()
                .enumerate()
                .map(|(i, l)| format!("ctx{i}: {}", l.join("; ")))
                .collect();
            h.push(format!("elapsed {:?}, passed {}", ran.elapsed, ran.passed));
            case.history = Some(h);
        }
        Err(e) => case.inconclusive = Some(e),
    }
    case
}

//! C01-C07: what the channels and clocks of a random program do, judged from its history.
use super::variants;
use crate::gen::Gen;
use crate::prog::*;
use crate::runner::{Case, Part};
use crate::sim::{End, Plan};
use serde_json::json;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![
        ("C01", vec![
            Part { name: "fifo", rule: "a random feasible program of 2-5 contexts and 1-6 channels under a seeded schedule; non-trivial when at least 3 elements are sent and the schedule switched between threads", run: c01, quick: (60_000, 6_000), thorough: (2_000_000, 200_000) },
        ]),
        ("C02", vec![
            Part { name: "latency", rule: "as C01; non-trivial when some dequeue had to wait for its element's time or some element was sent into the future", run: c02, quick: (60_000, 6_000), thorough: (2_000_000, 200_000) },
        ]),
        ("C03", vec![
            Part { name: "backpressure", rule: "as C01 with 9 in 10 channels bounded and small capacities; non-trivial when at least one send had to stall for its slot", run: c03, quick: (60_000, 6_000), thorough: (2_000_000, 200_000) },
        ]),
        ("C04", joined(vec![
            Part { name: "schedules", rule: "one random program under 4 schedules; non-trivial when at least two of the schedules differ in their decisions and the program sends something", run: c04, quick: (20_000, 2_000), thorough: (600_000, 60_000) },
        ], variants::schedules())),
        ("C05", joined(vec![
            Part { name: "inference", rule: "one random program run with and without flavor inference, two schedules each; non-trivial when some channel carries data and at least one channel is not on a cycle", run: c05, quick: (20_000, 2_000), thorough: (600_000, 60_000) },
        ], variants::inference())),
        ("C06", vec![
            Part { name: "progress", rule: "a random feasible program under one schedule, with extra peeks, small buffers and spurious wakeups; non-trivial when the schedule switched threads and a bounded channel or a peek is involved", run: c06, quick: (60_000, 6_000), thorough: (2_000_000, 200_000) },
        ]),
        ("C07", vec![
            Part { name: "peek", rule: "as C01 with many peeks; non-trivial when at least one peek happened on a channel which carries data", run: c07, quick: (60_000, 6_000), thorough: (2_000_000, 200_000) },
        ]),
    ]
}

fn joined(mut a: Vec<Part>, b: Vec<Part>) -> Vec<Part> {
    a.extend(b);
    a
}

fn sched_key(p: &Program, plan: &Plan) -> u64 {
    crate::gen::mix(&[p.key(), plan.seed, plan.policy])
}

pub fn classes(case: &mut Case, p: &Program) {
    case.class("has a stall", p.stalls > 0);
    case.class("element sent into the future", p.future > 0);
    case.class("dequeue waits", p.waits > 0);
    case.class("cyclic network", p.cyclic);
    case.class("has a peek", p.peeks > 0);
    case.class("4+ contexts", p.ops.len() >= 4);
    case.class("bounded channel", p.chans.iter().any(|c| c.cap.is_some()));
    case.class("late start", p.start > 0);
    case.class("more than 100 operations", p.total_ops() > 100);
    case.class("self loop", p.chans.iter().any(|c| c.src == c.dst));
    case.class("receiver leaves early", p.ops.iter().flatten().any(|o| matches!(o, Op::DropReceiver(_))));
    case.class("sends which must fail", p.refused > 0);
}

/// A program and whether to run it with flavor inference.
pub fn draw(g: &mut Gen, k: &Knobs) -> (Program, bool) {
    let mode = g.weighted(&[3, 1, 1]);
    let k = match mode {
        0 => *k,
        1 => Knobs { peeks: false, infer: true, ..*k },
        _ => Knobs { infer: true, ..*k },
    };
    (generate(g, &k), mode > 0)
}

pub fn one(g: &mut Gen, k: &Knobs, hang_fails: bool, judge: impl Fn(&Program, &Log) -> Result<(), String>, nontrivial: impl Fn(&Program) -> bool) -> Case {
    let (p, infer) = draw(g, k);
    let plan = Plan::draw(g, p.step_limit());
    let dress = Dress::draw(g, p.ops.len());
    let out = p.execute_dressed(&plan, infer, &dress);
    let mut case = Case {
        key: sched_key(&p, &plan),
        nontrivial: nontrivial(&p) && (out.switches > 0 || !crate::SCHED),
        sample: json!({"program": p.json(), "schedule": plan.json(), "flavor_inference": infer, "contexts": dress.json()}),
        ..Default::default()
    };
    classes(&mut case, &p);
    case.class("flavor inference", infer);
    let end = out.end.clone();
    match out.done() {
        Ok(ran) => {
            if !ran.passed {
                case.fail("the run reports a failure although no context failed");
            }
            case.check(judge(&p, &ran.log));
            case.sample["history"] = history(&p, &ran.log);
        }
        Err(e) if hang_fails => case.fail(e),
        Err(e) => {
            // Another property's business, unless it comes from a context's own panic.
            if matches!(end, End::Completed) {
                case.fail(e);
            } else {
                case.inconclusive = Some(e);
            }
        }
    }
    case
}

fn history(p: &Program, log: &Log) -> serde_json::Value {
    if p.total_ops() > 40 {
        return json!("left out (long)");
    }
    json!(log
        .iter()
        .map(|l| l
            .iter()
            .map(|e| format!("{}->{} {:?}", e.before, e.after, e.out))
            .collect::<Vec<_>>())
        .collect::<Vec<_>>())
}

fn c01(g: &mut Gen) -> Case {
    one(g, &Knobs::default(), true, check_fifo, |p| p.sent >= 3)
}

fn c02(g: &mut Gen) -> Case {
    let k = Knobs {
        future: 30,
        bounded: 5,
        ..Default::default()
    };
    one(g, &k, false, check_latency, |p| p.waits > 0 || p.future > 0)
}

fn c03(g: &mut Gen) -> Case {
    let k = Knobs {
        bounded: 9,
        max_cap: 4,
        weights: [8, 5, 4],
        max_ops: 60,
        ..Default::default()
    };
    one(g, &k, true, check_backpressure, |p| p.stalls > 0)
}

fn c06(g: &mut Gen) -> Case {
    let k = Knobs {
        bounded: 7,
        max_cap: 2,
        max_ctx: 6,
        max_ch: 8,
        max_ops: 50,
        ..Default::default()
    };
    one(g, &k, true, |_, _| Ok(()), |p| p.peeks > 0 || p.chans.iter().any(|c| c.cap.is_some()))
}

fn c07(g: &mut Gen) -> Case {
    let k = Knobs {
        future: 30,
        bounded: 4,
        weights: [6, 4, 4],
        ..Default::default()
    };
    one(g, &k, true, |p, l| check_peek(p, l).and_then(|_| check_closing(p, l)), |p| p.peeks > 0 && p.sent > 0)
}

/// The parts of a history which may not depend on the schedule.
pub fn comparable(log: &Log, p: &Program, keep_close: bool) -> Vec<Vec<String>> {
    log.iter()
        .enumerate()
        .map(|(ctx, l)| {
            l.iter()
                .map(|e| match (&e.out, p.ops[ctx].get(e.op)) {
                    (Out::Closed(_), _) if !keep_close => format!("{} ->{} closed", e.op, e.after),
                    (_, Some(Op::Peek(_))) => format!("{} {}->{}", e.op, e.before, e.after),
                    (o, _) => format!("{} {}->{} {o:?}", e.op, e.before, e.after),
                })
                .collect()
        })
        .collect()
}

fn first_difference(a: &[Vec<String>], b: &[Vec<String>]) -> Option<String> {
    for (ctx, (x, y)) in a.iter().zip(b).enumerate() {
        for i in 0..x.len().max(y.len()) {
            if x.get(i) != y.get(i) {
                return Some(format!("ctx{ctx}: {:?} against {:?}", x.get(i), y.get(i)));
            }
        }
    }
    None
}

fn c04(g: &mut Gen) -> Case {
    let k = Knobs {
        max_ctx: 6,
        max_ch: 8,
        ..Default::default()
    };
    let (p, infer) = draw(g, &k);
    let plans: Vec<Plan> = (0..4).map(|_| Plan::draw(g, p.step_limit())).collect();
    let dress = Dress::draw(g, p.ops.len());
    let mut case = Case {
        key: p.key(),
        runs: 4,
        ..Default::default()
    };
    case.sample = json!({"program": p.json(), "schedules": plans.iter().map(|p| p.json()).collect::<Vec<_>>(), "flavor_inference": infer, "contexts": dress.json()});
    classes(&mut case, &p);
    let mut seen = std::collections::HashSet::new();
    let mut first: Option<(Vec<Vec<String>>, Option<u64>)> = None;
    for (i, plan) in plans.iter().enumerate() {
        let out = p.execute_dressed(plan, infer, &dress);
        seen.insert(out.schedule);
        match out.done() {
            Ok(ran) => {
                let c = comparable(&ran.log, &p, false);
                match &first {
                    None => first = Some((c, ran.elapsed)),
                    Some((c0, e0)) => {
                        if let Some(d) = first_difference(c0, &c) {
                            case.fail(format!("schedules 0 and {i} gave different histories: {d}"));
                        } else if *e0 != ran.elapsed {
                            case.fail(format!("schedules 0 and {i} took {e0:?} and {:?} cycles", ran.elapsed));
                        }
                    }
                }
            }
            Err(e) => {
                if first.is_some() {
                    case.fail(format!("schedule 0 finished, but under schedule {i} {e}"));
                } else {
                    case.inconclusive = Some(e);
                }
                break;
            }
        }
    }
    case.nontrivial = seen.len() >= 2 && p.sent > 0;
    case
}

fn c05(g: &mut Gen) -> Case {
    let k = Knobs {
        max_ctx: 6,
        max_ch: 8,
        peeks: g.chance(1, 2),
        infer: true,
        ..Default::default()
    };
    let p = generate(g, &k);
    let plans: Vec<Plan> = (0..4).map(|_| Plan::draw(g, p.step_limit())).collect();
    let dress = Dress::draw(g, p.ops.len());
    let mut case = Case {
        key: p.key(),
        runs: 4,
        ..Default::default()
    };
    case.sample = json!({"program": p.json(), "schedules": plans.iter().map(|p| p.json()).collect::<Vec<_>>(), "contexts": dress.json()});
    case.class("declared connections", dress.declares());
    case.class("composite", dress.composites > 0);
    classes(&mut case, &p);
    let mut first: Option<(Vec<Vec<String>>, Option<u64>)> = None;
    for (i, plan) in plans.iter().enumerate() {
        let infer = i % 2 == 1;
        let name = if infer { "with" } else { "without" };
        match p.execute_dressed(plan, infer, &dress).done() {
            Ok(ran) => {
                let c = comparable(&ran.log, &p, false);
                match &first {
                    None => first = Some((c, ran.elapsed)),
                    Some((c0, e0)) => {
                        if let Some(d) = first_difference(c0, &c) {
                            case.fail(format!("a run {name} inference differs from the first run without it: {d}"));
                        } else if *e0 != ran.elapsed {
                            case.fail(format!("a run {name} inference took {:?} cycles, the first run without it {e0:?}", ran.elapsed));
                        }
                    }
                }
            }
            Err(e) => {
                if first.is_some() {
                    case.fail(format!("without inference the program finishes; {name} it {e}"));
                } else {
                    case.inconclusive = Some(e);
                }
                break;
            }
        }
    }
    case.nontrivial = p.sent > 0;
    case.class("acyclic network", !p.cyclic);
    case
}

//! Witnesses of the recorded findings (known_findings.json). Each is one fixed program; it is
//! reported when it still fails, and nothing else is excused by it.
use crate::gen::Gen;
use crate::prog::{Chan, Op, Program, Req};
use crate::sim::{End, Plan};
use std::collections::HashSet;

fn program(chans: &[(usize, usize, Option<usize>)], ops: Vec<Vec<Op>>) -> Program {
    Program {
        chans: chans.iter().map(|c| Chan { src: c.0, dst: c.1, cap: c.2, lat: 1, rlat: 1 }).collect(),
        final_ticks: vec![60; ops.len()],
        ops,
        stalls: 0,
        future: 0,
        waits: 0,
        sent: 0,
        peeks: 0,
        refused: 0,
        cyclic: false,
        start: 0,
    }
}

fn plans(p: &Program) -> impl Iterator<Item = Plan> + '_ {
    (0..60).map(|i| Plan::draw(&mut Gen::random(crate::gen::mix(&[7, i])), p.step_limit()))
}

/// A peek on a channel whose sender is blocked on another, full channel that inference made acyclic.
fn peek_under_inference() -> Option<String> {
    let p = program(
        &[(0, 1, Some(1))],
        vec![
            vec![Op::Enq(0, Req::Rel(0)), Op::Enq(0, Req::Rel(0)), Op::DropSender(0)],
            vec![Op::Incr(1), Op::Peek(0), Op::Deq(0), Op::Deq(0)],
        ],
    );
    // It must be a program which finishes without inference.
    if plans(&p).any(|plan| p.execute(&plan, false).end != End::Completed) {
        return None;
    }
    let hung = plans(&p).filter(|plan| matches!(p.execute(plan, true).end, End::Deadlock(_))).count();
    (hung > 0).then(|| format!("a sender filling a capacity-1 channel and a receiver which peeks it: {hung} of 60 schedules deadlock with inference, none without"))
}

/// The clock at which a context notices the end of a channel.
fn close_clock() -> Option<String> {
    let p = program(
        &[(0, 1, Some(2))],
        vec![
            vec![Op::Enq(0, Req::Rel(0)), Op::Incr(10), Op::DropSender(0)],
            vec![Op::Deq(0), Op::Deq(0)],
        ],
    );
    let seen: HashSet<Option<u64>> = plans(&p)
        .filter_map(|plan| p.execute(&plan, false).done().ok())
        .map(|r| r.elapsed)
        .collect();
    (seen.len() > 1).then(|| {
        let mut v: Vec<u64> = seen.iter().flatten().copied().collect();
        v.sort();
        format!("a sender ending at cycle 10 and a receiver reading to the end: elapsed cycles {v:?} depending on the schedule")
    })
}

/// Runs the witnesses of the recorded findings of a property; gives those which still fail.
pub fn known_findings(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if crate::SCHED {
        let mut add = |key: &str, what: Option<String>| v.extend(what.map(|w| (key.to_string(), w)));
        match id {
            "C04" => add("F-CLOSE-CLOCK", close_clock()),
            "C05" => add("F-INFER", peek_under_inference()),
            _ => {}
        }
    }
    v
}

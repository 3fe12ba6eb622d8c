//! C10: clocks and waiting on them.
use super::util::*;
use crate::gen::Gen;
use crate::runner::{Case, Part};
use crate::sim::Plan;
use dam::context_tools::ContextView;
use dam::structures::{ParentView, Time, TimeManager, TimeView, TimeViewable};
use serde::Serialize;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![("C10", vec![
        Part { name: "sequential", rule: "one clock under random increments, advances and finishing, compared with a counter; non-trivial when it advances into the past at least once or is finished", run: sequential, quick: (100_000, 10_000), thorough: (3_000_000, 300_000) },
        Part { name: "waiting", rule: "2-6 contexts move their clocks (also to infinity) and wait for each other's clocks and for groups of them in any pattern that has a feasible order, under one schedule; non-trivial when at least two waits are for times not yet reached at the start", run: waiting, quick: (40_000, 4_000), thorough: (2_000_000, 200_000) },
    ])]
}

fn sequential(g: &mut Gen) -> Case {
    let mut case = Case::default();
    let mut time = TimeManager::new();
    let view = time.view();
    let parent = ParentView { child_views: vec![view.clone().into(), view.clone().into()] };
    let (mut tick, mut done, mut past) = (0u64, false, false);
    let mut text = vec![];
    let n = g.usize(1, 20);
    for _ in 0..n {
        let d = if g.chance(1, 10) { g.below(1 << 48) } else { g.small(40) };
        match g.weighted(&[4, 4, 1]) {
            0 if !done => {
                time.incr_cycles(d);
                tick += d;
                text.push(format!("incr {d}"));
            }
            1 | 0 => {
                let to = (tick + d).saturating_sub(if g.chance(1, 2) { g.small(60) } else { 0 });
                time.advance(Time::new(to));
                past |= to < tick;
                if !done {
                    tick = tick.max(to);
                }
                text.push(format!("advance {to}"));
            }
            _ => {
                if g.chance(1, 2) {
                    time.advance(Time::infinite());
                    text.push("advance to infinity".into());
                } else {
                    time.cleanup();
                    text.push("cleanup".into());
                }
                done = true;
            }
        }
        for (what, t) in [("tick", time.tick()), ("view", view.tick_lower_bound()), ("group", parent.tick_lower_bound())] {
            if (t.time(), t.is_infinite()) != (tick, done) {
                case.fail(format!("after {text:?} the {what} is {t:?}, expected {tick}{}", if done { " and infinite" } else { "" }));
            }
        }
        let when = tick - g.small(3).min(tick);
        for (what, t) in [("view", view.wait_until(Time::new(when))), ("group", parent.wait_until(Time::new(when)))] {
            if (t.time(), t.is_infinite()) != (tick, done) {
                case.fail(format!("after {text:?} waiting for {when} on the {what} gave {t:?}, the clock is at {tick}"));
            }
        }
    }
    drop(time);
    let t = view.tick_lower_bound();
    if (t.time(), t.is_infinite()) != (tick, true) {
        case.fail(format!("after {text:?} and the end, the view shows {t:?}, expected infinite with tick {tick}"));
    }
    let w = view.wait_until(Time::infinite());
    if !w.is_infinite() {
        case.fail(format!("waiting for the end of a finished clock gave {w:?}"));
    }
    case.key = crate::gen::hash_str(&format!("{text:?}"));
    case.nontrivial = past || done;
    case.class("finished", done);
    case.sample = json!({"operations": text, "final": tick});
    case
}

/// What a wait is on: a context, or a group (of groups).
#[derive(Clone, Debug, Serialize)]
enum On {
    Ctx(usize),
    Group(Vec<On>),
}

impl On {
    fn leaves(&self) -> Vec<usize> {
        match self {
            On::Ctx(i) => vec![*i],
            On::Group(l) => l.iter().flat_map(|x| x.leaves()).collect(),
        }
    }

    fn view(&self, views: &[TimeView]) -> TimeView {
        match self {
            On::Ctx(i) => views[*i].clone(),
            On::Group(l) => ParentView { child_views: l.iter().map(|x| x.view(views)).collect() }.into(),
        }
    }
}

#[derive(Clone, Debug, Serialize)]
enum Step {
    Incr(u64),
    Adv(u64),
    /// Waits for a time (none: for the end).
    Wait(On, Option<u64>),
    Look(On),
    Cleanup,
    /// Advances to infinity.
    Infinite,
}

fn waiting(g: &mut Gen) -> Case {
    let n = g.count(2, 6);
    // One order in which everything can be done: each wait is for what has happened before it in
    // that order, so every schedule has to come to the end.
    let mut progs: Vec<Vec<Step>> = vec![vec![]; n];
    let mut ticks = vec![0u64; n];
    let mut ended = vec![false; n];
    let mut gone = vec![false; n];
    // All clock values of each context, in order.
    let mut values: Vec<Vec<u64>> = vec![vec![0]; n];
    let (mut waits, mut late) = (0, 0);
    for _ in 0..g.usize(n, 9 * n) {
        let alive: Vec<usize> = (0..n).filter(|i| !gone[*i]).collect();
        if alive.is_empty() {
            break;
        }
        let i = *g.pick(&alive);
        let on = |g: &mut Gen| {
            if g.chance(1, 3) {
                On::Group((0..if g.chance(1, 6) { g.usize(4, 12) } else { g.usize(0, 3) }).map(|_| {
                    if g.chance(1, 5) {
                        On::Group((0..g.usize(1, 2)).map(|_| On::Ctx(g.usize(0, n - 1))).collect())
                    } else {
                        On::Ctx(g.usize(0, n - 1))
                    }
                }).collect())
            } else {
                On::Ctx(g.usize(0, n - 1))
            }
        };
        match g.weighted(&[4, 3, 5, 2, 1, 1]) {
            0 if !ended[i] => {
                let d = if g.chance(1, 25) { 1 << g.range(15, 50) } else { 1 + g.small(12) };
                ticks[i] += d;
                progs[i].push(Step::Incr(d));
            }
            1 if !ended[i] => {
                let to = (ticks[i] + g.small(20)).saturating_sub(g.small(6));
                ticks[i] = ticks[i].max(to);
                progs[i].push(Step::Adv(to));
            }
            0 | 1 | 2 => {
                let on = on(g);
                let most = on.leaves().iter().filter(|c| !ended[**c]).map(|c| ticks[*c]).min();
                let when = match most {
                    Some(m) => Some(if g.chance(1, 2) { m } else { g.below(m + 1) }),
                    // All of them have come to their end.
                    None if g.chance(1, 3) => None,
                    None => Some(on.leaves().iter().map(|c| ticks[*c]).max().unwrap_or(3) + g.small(4)),
                };
                if when != Some(0) {
                    waits += 1;
                    late += (ended[i] || on.leaves().iter().any(|c| *c > i)) as u32;
                }
                progs[i].push(Step::Wait(on, when));
            }
            3 => progs[i].push(Step::Look(on(g))),
            4 if !ended[i] => {
                ended[i] = true;
                progs[i].push(if g.chance(1, 2) { Step::Cleanup } else { Step::Infinite });
            }
            _ => {
                ended[i] = true;
                gone[i] = true;
            }
        }
        values[i].push(ticks[i]);
    }
    let finals = ticks;
    let plan = Plan::draw(g, 300_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{progs:?}{}{}", plan.seed, plan.policy)),
        nontrivial: waits >= 2,
        sample: json!({"contexts": progs, "schedule": plan.json()}),
        ..Default::default()
    };
    let failures = shared(Vec::<String>::new());
    let views_out = shared(Vec::<TimeView>::new());
    // The clock each context is about to have (infinite: u64::MAX), set just before it moves it.
    let announced: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    let out = simulate(&plan, false, |b| {
        let mut actors: Vec<Actor> = (0..n).map(|_| Actor::new()).collect();
        let views: Vec<TimeView> = actors.iter().map(|a| a.view()).collect();
        *views_out.lock().unwrap() = views.clone();
        for (i, a) in actors.iter_mut().enumerate() {
            let (steps, views, values) = (progs[i].clone(), views.clone(), values.clone());
            let (announced, failures) = (announced.clone(), failures.clone());
            let mut jit = crate::gen::mix(&[plan.seed, i as u64]) | 1;
            a.body(move |time| {
                let mut last: Vec<u64> = vec![0; views.len()];
                for (k, s) in steps.iter().enumerate() {
                    crate::sim::jitter(&mut jit);
                    match s {
                        Step::Incr(d) => {
                            announced[i].store(time.tick().time() + d, SeqCst);
                            time.incr_cycles(*d);
                        }
                        Step::Adv(t) => {
                            announced[i].fetch_max(*t, SeqCst);
                            time.advance(Time::new(*t));
                        }
                        Step::Cleanup => {
                            announced[i].store(u64::MAX, SeqCst);
                            time.cleanup();
                        }
                        Step::Infinite => {
                            announced[i].store(u64::MAX, SeqCst);
                            time.advance(Time::infinite());
                        }
                        Step::Wait(on, when) => {
                            let w = when.map_or(Time::infinite(), Time::new);
                            let before = on.leaves().iter().map(|c| views[*c].tick_lower_bound()).min();
                            let got = on.view(&views).wait_until(w);
                            let fail = |t: String| failures.lock().unwrap().push(format!("context {i} step {k}, waiting for {w} on {on:?}: {t}"));
                            if got < w {
                                fail(format!("got {got}"));
                            }
                            for c in on.leaves() {
                                let a = announced[c].load(SeqCst);
                                if time_of(w) > a {
                                    fail(format!("came back before context {c} reached it (at most {a})"));
                                }
                                let low = views[c].tick_lower_bound();
                                if low < w {
                                    fail(format!("came back while context {c} is at {low}"));
                                }
                            }
                            if let Some(b) = before {
                                if got < b {
                                    fail(format!("got {got}, but before the wait the slowest was at {b}"));
                                }
                                let most = on.leaves().iter().map(|c| announced[*c].load(SeqCst)).min().unwrap();
                                if time_of(got) > most {
                                    fail(format!("got {got}, but the slowest can be at most at {most}"));
                                }
                            }
                            // The answer is a time which the slowest of them really had.
                            if !got.is_infinite() && !on.leaves().is_empty() && !on.leaves().iter().any(|c| values[*c].contains(&got.time())) {
                                fail(format!("got {got}, which none of them ever showed"));
                            }
                        }
                        Step::Look(on) => {
                            let got = on.view(&views).tick_lower_bound();
                            let mut fail = |t: String| failures.lock().unwrap().push(format!("context {i} step {k}, looking at {on:?}: {t}"));
                            if on.leaves().is_empty() {
                                if !got.is_infinite() {
                                    fail(format!("nothing to wait for, but it shows {got}"));
                                }
                                continue;
                            }
                            let most = on.leaves().iter().map(|c| announced[*c].load(SeqCst)).min().unwrap();
                            if time_of(got) > most {
                                fail(format!("shows {got}, but the slowest can be at most at {most}"));
                            }
                            if !got.is_infinite() && !on.leaves().iter().any(|c| values[*c].contains(&got.time())) {
                                fail(format!("shows {got}, which none of them ever showed"));
                            }
                            if let On::Ctx(c) = on {
                                if time_of(got) < last[*c] {
                                    fail(format!("shows {got} after it showed {}", last[*c]));
                                }
                                last[*c] = time_of(got);
                            }
                        }
                    }
                }
                announced[i].store(u64::MAX, SeqCst);
                Ok(())
            });
        }
        for a in actors {
            b.add_child(a);
        }
    });
    case.class("waits for a group", progs.iter().flatten().any(|s| matches!(s, Step::Wait(On::Group(_), _))));
    case.class("waits on later ones or after its end", late > 0);
    case.class("waits for the end", progs.iter().flatten().any(|s| matches!(s, Step::Wait(_, None))));
    match out.done() {
        Err(e) => case.fail(e),
        Ok(s) => {
            if let Some(f) = take(&failures).first() {
                case.fail(f.clone());
            }
            for (i, v) in views_out.lock().unwrap().iter().enumerate() {
                let t = v.tick_lower_bound();
                if (t.time(), t.is_infinite()) != (finals[i], true) {
                    case.fail(format!("after the run context {i}'s clock shows {t:?}, expected infinite with last tick {}", finals[i]));
                }
            }
            if s.elapsed != finals.iter().copied().max() {
                case.fail(format!("elapsed {:?}, the clocks ended at {finals:?}", s.elapsed));
            }
        }
    }
    case
}

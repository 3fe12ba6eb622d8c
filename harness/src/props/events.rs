//! C08: combined events, judged as descriptions of what may happen first.
use super::util::*;
use crate::gen::Gen;
use crate::runner::{Case, Part};
use crate::sim::Plan;
use dam::channel::utils::{EventCollection, EventTime, Peekable};
use dam::simulation::*;
use dam::structures::Time;
use dam::utility_contexts::FunctionContext;
use serde_json::json;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![("C08", vec![
        Part { name: "combine", rule: "a random tree of any/all over random events; non-trivial when at least two leaves of different kinds are combined", run: combine, quick: (300_000, 0), thorough: (20_000_000, 0) },
        Part { name: "arbiter", rule: "an arbiter context over 2-4 random timed channels serves by combined events under one schedule; non-trivial when at least two channels carry elements", run: arbiter, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
        Part { name: "join", rule: "an arbiter context over 1-3 groups of two or three channels, each served when all of its channels are ready; non-trivial when at least two groups' heads compete or one channel of a group runs ahead", run: join, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
    ])]
}

/// The times at which something may happen first: from `lo` on (`None` is never), exactly then if
/// `sure`.
#[derive(Clone, Copy, Debug, PartialEq)]
struct May {
    lo: Option<u64>,
    sure: bool,
}

fn meaning(e: EventTime) -> May {
    match e {
        EventTime::Ready(t) => May { lo: Some(t.time()), sure: true },
        EventTime::Nothing(t) if t.is_infinite() => May { lo: None, sure: true },
        EventTime::Nothing(t) => May { lo: Some(t.time() + 1), sure: false },
        EventTime::Closed => May { lo: None, sure: true },
    }
}

#[derive(Clone, Debug)]
enum Tree {
    Leaf(EventTime),
    Any(Vec<Tree>),
    All(Vec<Tree>),
}

fn draw(g: &mut Gen, depth: usize) -> Tree {
    let kind = if depth == 0 { 0 } else { g.weighted(&[3, 1, 1]) };
    if kind == 0 {
        let t = Time::new(if g.chance(1, 8) { g.below(1 << 40) } else { g.small(9) });
        return Tree::Leaf(match g.weighted(&[4, 4, 1]) {
            0 => EventTime::Ready(t),
            1 => EventTime::Nothing(t),
            _ => EventTime::Closed,
        });
    }
    let n = g.count(1, 4);
    let kids = (0..n).map(|_| draw(g, depth - 1)).collect();
    if kind == 1 {
        Tree::Any(kids)
    } else {
        Tree::All(kids)
    }
}

/// Combines the results (not the meanings) of the children, and checks each step.
fn eval(t: &Tree, fail: &mut Option<String>, kinds: &mut (bool, bool, bool)) -> EventTime {
    let (kids, any) = match t {
        Tree::Leaf(e) => {
            match e {
                EventTime::Ready(_) => kinds.0 = true,
                EventTime::Nothing(_) => kinds.1 = true,
                EventTime::Closed => kinds.2 = true,
            }
            return *e;
        }
        Tree::Any(k) => (k, true),
        Tree::All(k) => (k, false),
    };
    let sub: Vec<EventTime> = kids.iter().map(|k| eval(k, fail, kinds)).collect();
    let got = if any {
        sub.clone().any_event().next_event()
    } else {
        sub.clone().all_events().next_event()
    };
    let m: Vec<May> = sub.iter().map(|e| meaning(*e)).collect();
    // What is known about the combination, given what is known about the parts.
    let want = if any {
        let lo = m.iter().filter_map(|x| x.lo).min();
        match lo {
            None => May { lo: None, sure: true },
            Some(l) => May { lo, sure: m.iter().any(|x| x.sure && x.lo == Some(l)) },
        }
    } else if m.iter().any(|x| x.lo.is_none()) {
        May { lo: None, sure: true }
    } else {
        let lo = m.iter().filter_map(|x| x.lo).max();
        May { lo, sure: m.iter().all(|x| x.sure) }
    };
    let r = meaning(got);
    let sound = if r.sure { want.sure && r.lo == want.lo } else { r.lo <= want.lo || want.lo.is_none() };
    // The first moment must be the best bound; sureness may be lost where a sure and an unsure
    // event share it, since both descriptions are right.
    let tie = any && m.iter().any(|x| !x.sure && x.lo == want.lo);
    let tight = r.lo == want.lo && (r.sure == want.sure || tie);
    if fail.is_none() && !sound {
        *fail = Some(format!("{} of {sub:?} is claimed to be {got:?}, which is not so", if any { "any" } else { "all" }));
    } else if fail.is_none() && !tight {
        *fail = Some(format!("{} of {sub:?} is only said to be {got:?}", if any { "any" } else { "all" }));
    }
    got
}

fn combine(g: &mut Gen) -> Case {
    let n = g.count(1, 5);
    let kids = (0..n).map(|_| draw(g, 1)).collect();
    let tree = if g.chance(1, 2) { Tree::All(kids) } else { Tree::Any(kids) };
    let mut fail = None;
    let mut kinds = (false, false, false);
    eval(&tree, &mut fail, &mut kinds);
    let mut case = Case {
        violation: fail,
        key: crate::gen::hash_str(&format!("{tree:?}")),
        nontrivial: (kinds.0 as u8 + kinds.1 as u8 + kinds.2 as u8) >= 2,
        sample: json!(format!("{tree:?}")),
        ..Default::default()
    };
    case.class("with a closed source", kinds.2);
    case.class("all", matches!(tree, Tree::All(_)));
    case
}

struct Source {
    shape: Shape,
    items: Vec<Item<u64>>,
    times: Vec<u64>,
}

fn sources(g: &mut Gen, n: usize, infer: bool) -> Vec<Source> {
    let start = g.start();
    (0..n)
        .map(|i| {
            let count = g.length(0, 7);
            let mut items = draw_items(g, count, |_, k| (i * 100 + k) as u64);
            later(&mut items, start);
            // Bounded only where it never fills, so that times do not depend on the arbiter.
            let mut shape = Shape::draw(g, false, 1);
            if !infer && g.chance(1, 2) {
                shape.cap = Some(count + 1);
            }
            let p = predict(&[shape.chan(0, 1)], &[feed_ops(&items, 0), vec![]]).expect("model");
            Source { times: p.times[0].clone(), shape, items }
        })
        .collect()
}

/// (clock when served, which, element times)
type Served = Vec<(u64, usize, Vec<(u64, u64)>)>;

fn run_arbiter(g: &mut Gen, groups: Vec<Vec<usize>>, srcs: Vec<Source>, infer: bool, service: u64, manner: u64) -> Case {
    let mut case = Case::default();
    // The reference: serve whatever can happen first.
    let mut want: Served = vec![];
    let mut at = vec![0usize; srcs.len()];
    let mut clock = 0;
    let mut ahead = false;
    loop {
        let mut best: Option<(u64, usize)> = None;
        let mut heads = 0;
        for (i, gr) in groups.iter().enumerate() {
            if gr.iter().all(|s| at[*s] < srcs[*s].times.len()) {
                heads += 1;
                let t = gr.iter().map(|s| srcs[*s].times[at[*s]]).max().unwrap();
                let first = gr.iter().map(|s| srcs[*s].times[at[*s]]).min().unwrap();
                ahead |= first < t;
                if best.map_or(true, |b| t < b.0) {
                    best = Some((t, i));
                }
            }
        }
        ahead |= heads > 1;
        let Some((t, i)) = best else { break };
        clock = clock.max(t);
        want.push((clock, i, groups[i].iter().map(|s| (srcs[*s].times[at[*s]], srcs[*s].items[at[*s]].value)).collect()));
        for s in &groups[i] {
            at[*s] += 1;
        }
        clock += service;
    }
    let early = srcs.iter().flat_map(|s| s.times.first()).min().copied().unwrap_or(0);
    let last = srcs.iter().flat_map(|s| s.times.iter()).max().copied().unwrap_or(0).max(clock);
    let plan = Plan::draw(g, steps(2 * (last - early.min(last)), 60, srcs.len() + 1));
    let log = crate::props::util::shared::<Served>(vec![]);
    let shapes: Vec<_> = srcs.iter().map(|s| s.shape).collect();
    case.sample = json!({
        "channels": srcs.iter().map(|s| json!({"shape": s.shape, "items": s.items})).collect::<Vec<_>>(),
        "groups": groups, "service cycles": service, "manner": manner, "flavor_inference": infer, "schedule": plan.json(),
    });
    case.key = crate::gen::mix(&[crate::gen::hash_str(&case.sample.to_string()), plan.seed]);
    case.nontrivial = ahead || (groups.len() > 1 && srcs.iter().filter(|s| !s.items.is_empty()).count() > 1);
    case.class("flavor inference", infer);
    case.class("3+ elements served", want.len() >= 3);
    case.class("ties", want.windows(2).any(|w| w[0].2.iter().map(|x| x.0).max() == w[1].2.iter().map(|x| x.0).max()));
    let out_log = log.clone();
    let groups2 = groups.clone();
    let out = simulate(&plan, infer, move |b: &mut ProgramBuilder| {
        let mut rcvs = vec![];
        for (s, shape) in srcs.into_iter().zip(shapes) {
            let (snd, rcv) = shape.make::<u64>(b);
            feeder(b, snd, s.items);
            rcvs.push(rcv);
        }
        let mut fc = FunctionContext::new();
        rcvs.iter().for_each(|r| r.attach_receiver(&fc));
        fc.set_run(move |time| loop {
            let each: Vec<EventTime> = groups2
                .iter()
                .map(|gr| {
                    if gr.len() == 1 && manner != 1 {
                        (&rcvs[gr[0]]).next_event()
                    } else {
                        gr.iter().map(|s| &rcvs[*s]).all_events().next_event()
                    }
                })
                .collect();
            let first = if manner == 2 {
                each.clone().any_event().next_event()
            } else {
                *each.iter().min().unwrap()
            };
            match first {
                EventTime::Closed => return,
                EventTime::Nothing(t) => time.advance(t + 1),
                EventTime::Ready(t) => {
                    // The first one which is ready then.
                    let i = each.iter().position(|e| *e == EventTime::Ready(t)).expect("somebody is ready");
                    // Only trust it when nobody before it in the list may be ready at that time too.
                    if each[..i].iter().any(|e| matches!(e, EventTime::Nothing(u) if *u < t)) {
                        time.advance(t);
                        continue;
                    }
                    time.advance(t);
                    let got = groups2[i]
                        .iter()
                        .map(|s| {
                            let e = rcvs[*s].dequeue(time).expect("a ready channel has an element");
                            (e.time.time(), e.data)
                        })
                        .collect();
                    let entry = (time.tick().time(), i, got);
                    out_log.lock().unwrap().push(entry);
                    if service > 0 {
                        time.incr_cycles(service);
                    }
                }
            }
        });
        b.add_child(fc);
    });
    match out.done() {
        Ok(s) => {
            if !s.passed {
                case.fail(format!("the run failed: {:?}", s.failures));
            }
            case.check(differ("served", &want, &take(&log)));
        }
        Err(e) => case.fail(e),
    }
    case
}

fn arbiter(g: &mut Gen) -> Case {
    let infer = g.chance(1, 3);
    let n = g.count(2, 4);
    let srcs = sources(g, n, infer);
    let groups = (0..n).map(|i| vec![i]).collect();
    let service = g.small(3);
    let manner = g.below(3);
    run_arbiter(g, groups, srcs, infer, service, manner)
}

fn join(g: &mut Gen) -> Case {
    let infer = g.chance(1, 3);
    let n = g.count(1, 3);
    let mut groups = vec![];
    let mut at = 0;
    for _ in 0..n {
        let k = g.usize(2, 3);
        groups.push((at..at + k).collect());
        at += k;
    }
    let srcs = sources(g, at, infer);
    let service = g.small(3);
    let manner = g.below(3);
    run_arbiter(g, groups, srcs, infer, service, manner)
}

//! C12 and C13: which programs are accepted, and how their failures are reported.
use super::util::*;
use crate::gen::Gen;
use crate::runner::{Case, Part};
use crate::sim::{catch, Plan};
use dam::channel::ChannelElement;
use dam::context_tools::{Receiver, Sender};
use dam::simulation::*;
use dam::structures::{Identifiable, Time};
use serde::Serialize;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![
        ("C12", vec![
            Part { name: "validation", rule: "a random program graph of contexts (some with parts), channels and voids in which ends may be missing and contexts left out; non-trivial when it has at least two channels or is rejected", run: validation, quick: (60_000, 6_000), thorough: (3_000_000, 300_000) },
            Part { name: "latencies", rule: "construction of one channel with small latencies, zero included; every case counts", run: latencies, quick: (3_000, 300), thorough: (30_000, 3_000) },
        ]),
        ("C13", vec![
            Part { name: "failures", rule: "2-6 contexts (some with parts) on an acyclic graph, some of which return an error, or panic (with payloads of several kinds) through the default shim or with nothing to catch it, under one schedule; non-trivial when at least one fails and one finishes", run: failures, quick: (40_000, 4_000), thorough: (2_000_000, 200_000) },
            Part { name: "units", rule: "1-3 memory units and pipelines, some of which are asked for something they must refuse (an address beyond the end, a cell never written, an operation which panics) or whose replies stop being taken, under one schedule; non-trivial when at least one must fail", run: super::units::units, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
        ]),
    ]
}

#[derive(Clone, Debug, Serialize)]
struct End {
    /// Which leaf context, or none.
    src: Option<usize>,
    dst: Option<usize>,
    void: bool,
    chan: Shape,
}

fn validation(g: &mut Gen) -> Case {
    let n = g.count(1, 6);
    // Leaves belong to their own context, or several of them to a composite.
    let together = g.usize(1, 5) as u64;
    let mut owner: Vec<usize> = vec![];
    let mut owners = 0;
    for i in 0..n {
        if i > 0 && g.chance(together, 8) {
            owner.push(owners - 1);
        } else {
            owner.push(owners);
            owners += 1;
        }
    }
    let sound = g.chance(2, 5);
    let added: Vec<bool> = (0..owners).map(|_| sound || !g.chance(1, 8)).collect();
    let chans: Vec<End> = (0..g.count(0, 6))
        .map(|_| {
            let void = g.chance(1, 4);
            let src = if !sound && g.chance(1, 8) { None } else { Some(g.below(n as u64) as usize) };
            let dst = if void || (!sound && g.chance(1, 8)) { None } else { Some(g.below(n as u64) as usize) };
            End { src, dst, void, chan: Shape::draw(g, true, 3) }
        })
        .collect();
    let infer = g.chance(1, 2);
    let plan = Plan::draw(g, 300_000);
    let fold = g.below(1 << 20);
    let composite = (0..owners).any(|o| owner.iter().filter(|x| **x == o).count() > 1);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{chans:?}{owner:?}{added:?}{infer}")),
        sample: json!({"leaf contexts belong to": owner, "added": added, "channels": chans, "flavor_inference": infer}),
        ..Default::default()
    };
    case.class("has a composite", composite);

    let counters = shared(vec![]);
    let verdict = shared(Option::<String>::None);
    let result = shared(Vec::<String>::new());
    let inner = (counters.clone(), verdict.clone(), result.clone());
    let (owner2, added2, chans2) = (owner.clone(), added.clone(), chans.clone());
    let out = crate::sim::run(&plan, move || {
        let (counters, verdict, result) = inner;
        let fail = |t: String| {
            let mut v = verdict.lock().unwrap();
            if v.is_none() {
                *v = Some(t);
            }
        };
        let mut b = ProgramBuilder::default();
        let mut leaves: Vec<Actor> = (0..owner2.len()).map(|_| Actor::new()).collect();
        let mut bad_snd = vec![];
        let mut bad_rcv = vec![];
        let mut bad_node = vec![];
        let mut ids = vec![];
        let mut outs: Vec<Vec<Sender<u64>>> = (0..owner2.len()).map(|_| vec![]).collect();
        let mut ins: Vec<Vec<Receiver<u64>>> = (0..owner2.len()).map(|_| vec![]).collect();
        let mut loose: Vec<(Option<Sender<u64>>, Option<Receiver<u64>>)> = vec![];
        for c in &chans2 {
            let (snd, rcv) = if c.void {
                (b.void::<u64>(), None)
            } else {
                let (s, r) = c.chan.make::<u64>(&mut b);
                if s.id() != r.id() {
                    fail(format!("the two ends of one channel are {} and {}", s.id(), r.id()));
                }
                (s, Some(r))
            };
            ids.push(snd.id());
            let mut keep = (None, None);
            match c.src {
                Some(l) => {
                    snd.attach_sender(&leaves[l]);
                    if !added2[owner2[l]] {
                        bad_node.push(leaves[l].id());
                    }
                    outs[l].push(snd);
                }
                None => {
                    bad_snd.push(snd.id());
                    keep.0 = Some(snd);
                }
            }
            match (c.dst, rcv) {
                (Some(l), Some(rcv)) => {
                    rcv.attach_receiver(&leaves[l]);
                    if !added2[owner2[l]] {
                        bad_node.push(leaves[l].id());
                    }
                    ins[l].push(rcv);
                }
                (None, Some(rcv)) => {
                    bad_rcv.push(rcv.id());
                    keep.1 = Some(rcv);
                }
                _ => {}
            }
            loose.push(keep);
        }
        for (l, a) in leaves.iter_mut().enumerate() {
            counters.lock().unwrap().push((a.inits.clone(), a.runs.clone()));
            let (o, i) = (std::mem::take(&mut outs[l]), std::mem::take(&mut ins[l]));
            a.body(move |time| {
                time.incr_cycles(1);
                drop((o, i));
                Ok(())
            });
        }
        let mut groups: BTreeMap<usize, Vec<Actor>> = BTreeMap::new();
        for (l, a) in leaves.into_iter().enumerate() {
            groups.entry(owner2[l]).or_default().push(a);
        }
        let mut kept = vec![];
        let mut expected = 0;
        for (o, mut parts) in groups {
            if !added2[o] {
                kept.push(parts);
                continue;
            }
            expected += 1;
            if parts.len() == 1 && (fold >> 16) % 4 < 3 {
                b.add_child(parts.remove(0));
            } else {
                b.add_child(Composite::nested(parts, fold));
            }
        }
        if b.num_children() != expected {
            fail(format!("{} children counted after adding {expected}", b.num_children()));
        }
        let ok = bad_snd.is_empty() && bad_rcv.is_empty() && bad_node.is_empty();
        match b.initialize(options(infer)) {
            Ok(init) => {
                result.lock().unwrap().push("accepted".into());
                if !ok {
                    fail(format!("accepted, although senders of {bad_snd:?}, receivers of {bad_rcv:?} are missing and contexts {bad_node:?} were never added"));
                    return;
                }
                for (l, (i, r)) in counters.lock().unwrap().iter().enumerate() {
                    let want = added2[owner2[l]] as usize;
                    if (i.load(SeqCst), r.load(SeqCst)) != (want, 0) {
                        fail(format!("initialising ran init of context {l} {} times and run {} times", i.load(SeqCst), r.load(SeqCst)));
                    }
                }
                let s = summary(&init.run(RunOptions::default()));
                if !s.passed || s.elapsed != (expected > 0).then_some(1) {
                    fail(format!("the run gave {s:?}"));
                }
            }
            Err(e) => {
                result.lock().unwrap().push(e.to_string());
                let right = match &e {
                    InitializationError::DisconnectedSender(c) => bad_snd.contains(c),
                    InitializationError::DisconnectedReceiver(c) => bad_rcv.contains(c),
                    InitializationError::UnregisteredNode(n) => bad_node.contains(n),
                };
                if ok {
                    fail(format!("rejected with {e:?}, although nothing is wrong"));
                } else if !right {
                    fail(format!("rejected with {e:?}, but missing are senders of {bad_snd:?}, receivers of {bad_rcv:?} and contexts {bad_node:?}"));
                }
                if counters.lock().unwrap().iter().any(|(_, r)| r.load(SeqCst) > 0) {
                    fail("a rejected program ran a context".into());
                }
            }
        }
        drop((loose, kept));
    });
    let accepted = take(&result).first().map_or(true, |r| r == "accepted");
    case.class("rejected", !accepted);
    case.nontrivial = chans.len() >= 2 || !accepted;
    let verdict = verdict.lock().unwrap().take();
    match (out.done(), verdict) {
        (_, Some(v)) => case.fail(v),
        (Err(e), None) => case.fail(e),
        (Ok(()), None) => {
            if accepted {
                for (l, (i, r)) in counters.lock().unwrap().iter().enumerate() {
                    let want = added[owner[l]] as usize;
                    if (i.load(SeqCst), r.load(SeqCst)) != (want, want) {
                        case.fail(format!("context {l} was initialised {} times and run {} times, expected {want}", i.load(SeqCst), r.load(SeqCst)));
                    }
                }
            }
        }
    }
    case
}

fn latencies(g: &mut Gen) -> Case {
    let (lat, rlat) = (g.small(4), g.small(4));
    let cap = if g.chance(1, 2) { Some(g.usize(1, 4)) } else { None };
    let r = catch(|| {
        let mut b = ProgramBuilder::default();
        match cap {
            Some(c) => drop(b.bounded_with_latency::<u64>(c, lat, rlat)),
            None => drop(b.unbounded_with_latency::<u64>(lat, rlat)),
        }
    });
    let mut case = Case {
        key: crate::gen::mix(&[lat, rlat, cap.map_or(0, |c| c as u64)]),
        nontrivial: true,
        sample: json!({"capacity": cap, "latency": lat, "response latency": rlat}),
        ..Default::default()
    };
    if r.is_ok() != (lat > 0 && rlat > 0) {
        case.fail(format!("a channel of capacity {cap:?} with latencies {lat} and {rlat} was {}", if r.is_ok() { "accepted" } else { "refused" }));
    }
    case
}

#[derive(Clone, Debug, Serialize)]
enum Do {
    Incr(u64),
    Send(usize, u64),
    Recv(usize),
}

#[derive(Clone, Debug, Serialize, PartialEq)]
enum Finish {
    Fine,
    Error,
    /// Panics; only with the default shim. Says with which kind of payload.
    Panic(u64),
    /// Panics with no shim to catch it, which the run as a whole does not survive.
    Loud(u64),
}

/// Panics with a payload of some kind.
fn give_up(kind: u64, i: usize) -> ! {
    match kind {
        0 => panic!("ctx{i} panics"),
        1 => std::panic::panic_any("a text"),
        2 => std::panic::panic_any(()),
        3 => std::panic::panic_any(17u32),
        4 => std::panic::panic_any(anyhow::anyhow!("an error")),
        5 => std::panic::panic_any(vec![i]),
        _ => std::panic::panic_any(Box::new("boxed") as Box<dyn std::any::Any + Send>),
    }
}

#[derive(Clone, Debug, Serialize)]
struct Leaf {
    steps: Vec<Do>,
    finish: Finish,
    old_style: bool,
    /// Fails when a channel it reads from ends early.
    strict: bool,
}

fn failures(g: &mut Gen) -> Case {
    let n = g.count(2, 6);
    let together = g.usize(1, 5) as u64;
    let fold = g.below(1 << 20);
    let mut owner: Vec<usize> = vec![];
    let mut owners = 0;
    for i in 0..n {
        if i > 0 && g.chance(together, 8) {
            owner.push(owners - 1);
        } else {
            owner.push(owners);
            owners += 1;
        }
    }
    // Channels lead from earlier to later contexts; parts of one context run in that order too.
    let chans: Vec<(usize, usize, Shape)> = (0..g.count(0, 6))
        .map(|_| {
            let a = g.usize(0, n - 2);
            let b = g.usize(a + 1, n - 1);
            (a, b, Shape { cap: None, lat: 1 + g.small(5), rlat: 1 })
        })
        .collect();
    let noisy = g.chance(1, 6);
    let leaves: Vec<Leaf> = (0..n)
        .map(|i| {
            let out: Vec<usize> = (0..chans.len()).filter(|c| chans[*c].0 == i).collect();
            let inp: Vec<usize> = (0..chans.len()).filter(|c| chans[*c].1 == i).collect();
            let steps = (0..g.usize(0, 7))
                .map(|_| match g.weighted(&[2, if out.is_empty() { 0 } else { 3 }, if inp.is_empty() { 0 } else { 3 }]) {
                    0 => Do::Incr(g.small(30)),
                    1 => Do::Send(*g.pick(&out), if g.chance(1, 3) { g.small(20) } else { 0 }),
                    _ => Do::Recv(*g.pick(&inp)),
                })
                .collect();
            let old_style = g.chance(1, 3);
            let finish = match g.weighted(&[5, 2, if old_style { 2 } else { 0 }, u32::from(noisy && !old_style)]) {
                0 => Finish::Fine,
                1 => Finish::Error,
                2 => Finish::Panic(g.below(7)),
                _ => Finish::Loud(g.below(7)),
            };
            Leaf { steps, finish, old_style, strict: g.chance(1, 3) }
        })
        .collect();
    // Some of those made of parts have a clock of their own as well.
    let owns: Vec<Option<u64>> = (0..owners).map(|_| if g.chance(1, 4) { Some(g.small(80)) } else { None }).collect();
    let plan = Plan::draw(g, 300_000);
    let infer = g.chance(1, 3);

    // What must happen, context by context.
    let mut sent: Vec<Vec<u64>> = vec![vec![]; chans.len()];
    let mut taken: Vec<usize> = vec![0; chans.len()];
    let mut tick = vec![0u64; n];
    let mut fails: Vec<Option<String>> = vec![None; n];
    let mut ran = vec![true; n];
    // Where clocks are brought together after a channel was found closed.
    let mut meet: Vec<u64> = vec![0; chans.len()];
    let mut end: Vec<u64> = vec![0; n];
    let mut loud = false;
    for i in 0..n {
        if (0..i).any(|j| owner[j] == owner[i] && (fails[j].is_some() || !ran[j])) {
            ran[i] = false;
        }
        let mut t = 0u64;
        if ran[i] {
            for s in &leaves[i].steps {
                match s {
                    Do::Incr(d) => t += d,
                    Do::Send(c, ahead) => sent[*c].push((t + ahead).max(t + chans[*c].2.lat)),
                    Do::Recv(c) => match sent[*c].get(taken[*c]) {
                        Some(at) => {
                            taken[*c] += 1;
                            t = t.max(*at);
                        }
                        None if leaves[i].strict => {
                            fails[i] = Some(format!("ctx{i} wants more from ch{c}"));
                            // How far it was taken by the other end going away is left open.
                            t = t.max(end[chans[*c].0] + 1);
                            break;
                        }
                        None => {
                            meet[*c] = end[chans[*c].0] + 1;
                            t = t.max(meet[*c]);
                        }
                    },
                }
            }
            if fails[i].is_none() {
                match leaves[i].finish {
                    Finish::Fine => {}
                    Finish::Error => fails[i] = Some(format!("ctx{i} gives up")),
                    Finish::Panic(_) => fails[i] = Some("panic".into()),
                    Finish::Loud(_) => {
                        fails[i] = Some("panic".into());
                        loud = true;
                    }
                }
            }
        }
        tick[i] = t;
        // A part which is never run ends when its owner does, having never moved.
        end[i] = t;
    }
    let owner_fails: Vec<Option<String>> = (0..owners)
        .map(|o| (0..n).filter(|i| owner[*i] == o).find_map(|i| fails[i].clone().map(|f| if leaves[i].old_style { "Panic occurred".into() } else { f })))
        .collect();
    let whole = |o: usize| owner.iter().filter(|x| **x == o).count() > 1 || (fold >> 16) % 4 >= 3;
    let want_elapsed = (0..n)
        .filter(|i| owner_fails[owner[*i]].is_none())
        .map(|i| tick[i].max(owns[owner[i]].filter(|_| whole(owner[i])).unwrap_or(0)))
        .max();

    let deepest = shared(false);
    let ids = shared(Vec::<usize>::new());
    let finished = shared(Vec::<(usize, u64, String)>::new());
    let out = simulate(&plan, infer, |b| {
        let mut actors: Vec<Actor> = (0..n).map(|_| Actor::new()).collect();
        let mut snds: Vec<Vec<(usize, Sender<u64>)>> = (0..n).map(|_| vec![]).collect();
        let mut rcvs: Vec<Vec<(usize, Receiver<u64>)>> = (0..n).map(|_| vec![]).collect();
        for (c, (a, z, shape)) in chans.iter().enumerate() {
            let (s, r) = shape.make::<u64>(b);
            s.attach_sender(&actors[*a]);
            r.attach_receiver(&actors[*z]);
            snds[*a].push((c, s));
            rcvs[*z].push((c, r));
        }
        for (i, a) in actors.iter_mut().enumerate() {
            let leaf = leaves[i].clone();
            a.old_style = leaf.old_style;
            let snd: BTreeMap<usize, Sender<u64>> = std::mem::take(&mut snds[i]).into_iter().collect();
            let rcv: BTreeMap<usize, Receiver<u64>> = std::mem::take(&mut rcvs[i]).into_iter().collect();
            let (meet, finished) = (meet.clone(), finished.clone());
            let mut jit = crate::gen::mix(&[plan.seed, i as u64]) | 1;
            a.body(move |time| {
                let mut run = || -> anyhow::Result<()> {
                    for s in &leaf.steps {
                        crate::sim::jitter(&mut jit);
                        match s {
                            Do::Incr(d) => time.incr_cycles(*d),
                            Do::Send(c, ahead) => {
                                let _ = snd[c].enqueue(time, ChannelElement::new(time.tick() + *ahead, 1));
                            }
                            Do::Recv(c) => {
                                if rcv[c].dequeue(time).is_err() {
                                    if leaf.strict {
                                        anyhow::bail!("ctx{i} wants more from ch{c}");
                                    }
                                    time.advance(Time::new(meet[*c]));
                                }
                            }
                        }
                    }
                    Ok(())
                };
                let r = run();
                let text = match &r {
                    Err(e) => e.to_string(),
                    Ok(()) => format!("{:?}", leaf.finish),
                };
                let now = time.tick().time();
                finished.lock().unwrap().push((i, now, text));
                r?;
                match leaf.finish {
                    Finish::Fine => Ok(()),
                    Finish::Error => Err(anyhow::anyhow!("ctx{i} gives up")),
                    Finish::Panic(k) | Finish::Loud(k) => give_up(k, i),
                }
            });
        }
        let mut groups: BTreeMap<usize, Vec<Actor>> = BTreeMap::new();
        for (i, a) in actors.into_iter().enumerate() {
            groups.entry(owner[i]).or_default().push(a);
        }
        for (o, mut parts) in groups {
            if !whole(o) {
                let a = parts.remove(0);
                ids.lock().unwrap().push(a.id().id);
                b.add_child(a);
            } else {
                let mut c = Composite::nested(parts, fold);
                c.own = owns[o].map(|far| (dam::structures::TimeManager::new(), far));
                *deepest.lock().unwrap() |= c.depth() > 1;
                ids.lock().unwrap().push(c.id().id);
                b.add_child(c);
            }
        }
    });
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{chans:?}{leaves:?}{owner:?}{}{}", plan.seed, plan.policy)),
        nontrivial: owner_fails.iter().any(|f| f.is_some()) && owner_fails.iter().any(|f| f.is_none()),
        sample: json!({"channels": chans, "contexts": leaves, "leaf contexts belong to": owner, "clocks of the wholes": owns, "schedule": plan.json(), "flavor_inference": infer}),
        ..Default::default()
    };
    case.class("parts of parts", take(&deepest));
    case.class("a clock of the whole", (0..owners).any(|o| whole(o) && owns[o].is_some()));
    case.class("nobody fails", owner_fails.iter().all(|f| f.is_none()));
    case.class("everybody fails", owner_fails.iter().all(|f| f.is_some()));
    case.class("a part fails", (0..n).any(|i| fails[i].is_some() && owner.iter().filter(|o| **o == owner[i]).count() > 1));
    case.class("a context panics", (0..n).any(|i| fails[i].is_some() && matches!(leaves[i].finish, Finish::Panic(_))));
    case.class("a context panics with nothing to catch it", loud);
    let s = match out.done() {
        Ok(s) => Some(s),
        Err(e) if loud && e.contains("the simulation panicked") => None,
        Err(e) => {
            case.fail(e);
            return case;
        }
    };
    let mut done = take(&finished);
    done.sort();
    let who: Vec<usize> = done.iter().map(|d| d.0).collect();
    let want: Vec<usize> = (0..n).filter(|i| ran[*i]).collect();
    case.check(differ("contexts which came to their end", &want, &who));
    for (i, t, _) in &done {
        if fails[*i].is_none() && *t != tick[*i] {
            case.fail(format!("ctx{i} finished at {t}, expected {}", tick[*i]));
        }
    }
    // Whatever becomes of the run as a whole, all the others have come to their ends.
    let s = match s {
        None => return case,
        Some(s) if loud => {
            case.check(if s.passed { Err("passed() is true, but a context panicked".into()) } else { Ok(()) });
            return case;
        }
        Some(s) => s,
    };
    let ids = take(&ids);
    let mut want: Vec<(usize, String)> = (0..owners).filter_map(|o| owner_fails[o].clone().map(|f| (ids[o], f))).collect();
    want.sort();
    let mut got = s.failures.clone();
    got.sort();
    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.0 != b.0 || !a.1.contains(&b.1)) {
        case.fail(format!("failures reported {got:?}, expected {want:?}"));
    }
    if s.passed != want.is_empty() {
        case.fail(format!("passed() is {}, but {} contexts failed", s.passed, want.len()));
    }
    if s.elapsed != want_elapsed {
        case.fail(format!("elapsed cycles {:?}, but the contexts which finished took {want_elapsed:?}", s.elapsed));
    }
    case
}

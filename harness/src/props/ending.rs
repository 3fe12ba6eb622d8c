//! C09: what either side sees when the other goes away.
use super::util::*;
use crate::gen::Gen;
use crate::prog::{check_closing, check_ends, Knobs};
use crate::runner::{Case, Part};
use crate::sim::{catch, Plan};
use dam::channel::{ChannelElement, PeekResult};
use dam::simulation::ProgramBuilder;
use dam::structures::{Time, TimeManager};
use serde::Serialize;
use serde_json::json;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![("C09", vec![
        Part { name: "receiver-gone", rule: "a receiver takes some elements of a random channel, drops its end and says so (on another channel, or outside of the simulation) while its sender keeps sending, under one schedule; non-trivial when the sender makes an attempt after the receiver went away", run: receiver_gone, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
        Part { name: "sender-gone", rule: "a sender sends some elements and goes away (dropping its end, finishing, or failing) while its receiver reads on, under one schedule; non-trivial when at least one element was sent and at least two reads came after the end", run: sender_gone, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
        Part { name: "programs", rule: "a random feasible program whose receivers may be dropped at any point (after which whoever hears of it, over any chain of channels, sends on) under one schedule; non-trivial when at least one send is made which must fail", run: programs, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
        Part { name: "void", rule: "a context sends on voids and a real channel under one schedule; non-trivial when at least two void sends happen", run: void, quick: (10_000, 1_000), thorough: (300_000, 30_000) },
        Part { name: "uninitialised", rule: "one operation on an endpoint of a program which was never initialised; every case counts", run: uninitialised, quick: (1_000, 100), thorough: (10_000, 1_000) },
    ])]
}

#[derive(Clone, Debug, Serialize)]
struct Gone {
    chan: Shape,
    /// What the receiver does before each read.
    delays: Vec<u64>,
    takes: usize,
    /// After dropping: waits for the sender on another channel, only lets time pass, or is done.
    after: u64,
    wait_after: u64,
    /// Sends before the first look at the notice, each after a delay.
    sends: Vec<(u64, u64)>,
    explicit_wait: bool,
    late: usize,
    infer: bool,
    /// Says so by a flag outside of the simulation: only then may the channel be on no cycle.
    flag: bool,
}

fn receiver_gone(g: &mut Gen) -> Case {
    let infer = g.chance(1, 3);
    let chan = Shape::draw(g, true, 3);
    let takes = g.usize(0, 4);
    let room = chan.cap.unwrap_or(4);
    let n = takes + g.usize(0, room + 3);
    let c = Gone {
        chan,
        takes,
        delays: (0..4).map(|_| g.small(12)).collect(),
        after: g.below(3),
        wait_after: g.small(40),
        sends: (0..n).map(|_| (g.small(9), if g.chance(1, 4) { g.small(15) } else { 0 })).collect(),
        explicit_wait: g.chance(1, 3),
        late: g.usize(1, 4),
        infer,
        flag: g.chance(1, 3),
    };
    let plan = Plan::draw(g, 400_000);
    let left = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    // (successful sends before the notice, every attempt: was it ok; kind of each attempt)
    let early = shared(Vec::<bool>::new());
    let late = shared(Vec::<bool>::new());
    let got = shared(Vec::<u64>::new());
    let noticed = shared(false);
    let out = simulate(&plan, infer, |b| {
        let (snd, rcv) = c.chan.make::<u64>(b);
        let mut s = Actor::new();
        let mut r = Actor::new();
        snd.attach_sender(&s);
        rcv.attach_receiver(&r);
        let (mut ends_of_s, mut ends_of_r) = (None, None);
        if !c.flag {
            let (tell, notice) = b.unbounded::<u64>();
            let (more, other) = b.unbounded::<u64>();
            notice.attach_receiver(&s);
            more.attach_sender(&s);
            tell.attach_sender(&r);
            other.attach_receiver(&r);
            ends_of_s = Some((notice, more));
            ends_of_r = Some((tell, other));
        }
        let gone = left.clone();
        let (c1, early, late, noticed) = (c.clone(), early.clone(), late.clone(), noticed.clone());
        s.body(move |time| {
            for (k, (wait, ahead)) in c1.sends.iter().enumerate() {
                time.incr_cycles(*wait);
                if c1.explicit_wait && snd.wait_until_available(time).is_err() {
                    early.lock().unwrap().push(false);
                    break;
                }
                let ok = snd.enqueue(time, ChannelElement::new(time.tick() + *ahead, k as u64)).is_ok();
                early.lock().unwrap().push(ok);
                if !ok {
                    break;
                }
            }
            match &ends_of_s {
                Some((notice, more)) => {
                    let _ = more.enqueue(time, ChannelElement::new(time.tick(), 1));
                    if notice.dequeue(time).is_ok() {
                        *noticed.lock().unwrap() = true;
                    }
                }
                None => {
                    // The receiver may need this clock to move on.
                    time.incr_cycles(1 << 20);
                    while !gone.load(std::sync::atomic::Ordering::SeqCst) {
                        dam::shim::yield_now();
                    }
                    *noticed.lock().unwrap() = true;
                }
            }
            // By now the receiver is gone, whichever way it said so.
            for k in 0..c1.late {
                time.incr_cycles(k as u64);
                let ok = snd.enqueue(time, ChannelElement::new(time.tick(), 1000 + k as u64)).is_ok();
                late.lock().unwrap().push(ok);
            }
            drop(ends_of_s);
            Ok(())
        });
        let left = left.clone();
        let (c2, got) = (c.clone(), got.clone());
        r.body(move |time| {
            for k in 0..c2.takes.min(c2.sends.len()) {
                time.incr_cycles(c2.delays[k % c2.delays.len()]);
                match rcv.dequeue(time) {
                    Ok(ce) => got.lock().unwrap().push(ce.data),
                    Err(_) => break,
                }
            }
            drop(rcv);
            left.store(true, std::sync::atomic::Ordering::SeqCst);
            if let Some((tell, other)) = &ends_of_r {
                let _ = tell.enqueue(time, ChannelElement::new(time.tick(), 1));
                if c2.after == 0 {
                    let _ = other.dequeue(time);
                }
            }
            if c2.after <= 1 {
                time.incr_cycles(c2.wait_after);
            }
            Ok(())
        });
        b.add_child(s);
        b.add_child(r);
    });
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{c:?}{}{}", plan.seed, plan.policy)),
        sample: json!({"case": c, "schedule": plan.json()}),
        ..Default::default()
    };
    let (early, late, got) = (take(&early), take(&late), take(&got));
    case.sample["attempts"] = json!({"before the notice": early, "after it": late});
    case.class("flavor inference", infer);
    case.class("failed before the notice", early.contains(&false));
    case.class("bounded", c.chan.cap.is_some());
    case.class("on no cycle", c.flag && infer);
    case.class("receiver took none", c.takes == 0);
    case.nontrivial = !late.is_empty();
    if let Err(e) = out.done() {
        case.fail(e);
        return case;
    }
    let want: Vec<u64> = (0..c.takes.min(c.sends.len()) as u64).collect();
    case.check(differ("the receiver's elements", &want, &got));
    if !*noticed.lock().unwrap() {
        case.fail("the notice on the other channel was lost");
    }
    let ok = early.iter().filter(|x| **x).count();
    if let Some(cap) = c.chan.cap {
        if ok > c.takes + cap {
            case.fail(format!("{ok} sends succeeded although only {} were taken and the capacity is {cap}", c.takes));
        }
        if c.sends.len() > c.takes + cap && !early.contains(&false) {
            case.fail("no send failed although the channel overflowed");
        }
    }
    if ok < c.takes.min(c.sends.len()) {
        case.fail("a send failed although its element was received");
    }
    if let Some(i) = late.iter().position(|x| *x) {
        case.fail(format!("attempt {i} after the receiver's notice that it is gone succeeded"));
    }
    case
}

#[derive(Clone, Debug, Serialize)]
struct Left {
    chan: Shape,
    items: Vec<Item<u64>>,
    /// Drops its end and goes on, finishes, fails with an error, panics through the shim.
    how: u64,
    linger: u64,
    delays: Vec<u64>,
    /// Kinds of reads after the end: dequeue, peek_next, peek.
    tail: Vec<u64>,
    peek_first: bool,
    infer: bool,
}

fn sender_gone(g: &mut Gen) -> Case {
    let infer = g.chance(1, 3);
    let n = g.usize(0, 5);
    let c = Left {
        chan: Shape::draw(g, true, 3),
        items: draw_items(g, n, |_, i| 50 + i as u64),
        how: g.below(4),
        linger: g.small(30),
        delays: (0..3).map(|_| g.small(10)).collect(),
        tail: (0..g.usize(1, 5)).map(|_| g.below(3)).collect(),
        peek_first: g.chance(1, 3),
        infer,
    };
    let plan = Plan::draw(g, 400_000);
    let got = shared(Vec::<u64>::new());
    let tail = shared(Vec::<String>::new());
    let out = simulate(&plan, infer, |b| {
        let (snd, rcv) = c.chan.make::<u64>(b);
        let (keep, kept) = b.unbounded::<u64>();
        let mut s = Actor::new();
        s.old_style = c.how == 3;
        snd.attach_sender(&s);
        keep.attach_sender(&s);
        let c1 = c.clone();
        s.body(move |time| {
            for i in &c1.items {
                time.incr_cycles(i.wait);
                snd.enqueue(time, ChannelElement::new(time.tick() + i.ahead, i.value))?;
            }
            match c1.how {
                0 => {
                    drop(snd);
                    time.incr_cycles(c1.linger);
                    // Stays around for as long as the receiver reads.
                    let _ = keep.enqueue(time, ChannelElement::new(time.tick(), 1));
                    Ok(())
                }
                1 => Ok(()),
                2 => Err(anyhow::anyhow!("gives up")),
                _ => panic!("gives up loudly"),
            }
        });
        let mut r = Actor::new();
        rcv.attach_receiver(&r);
        kept.attach_receiver(&r);
        let (c2, got, tail) = (c.clone(), got.clone(), tail.clone());
        r.body(move |time| {
            let mut i = 0;
            loop {
                time.incr_cycles(c2.delays[i % c2.delays.len()]);
                i += 1;
                if c2.peek_first && rcv.peek_next(time).is_err() {
                    break;
                }
                match rcv.dequeue(time) {
                    Ok(ce) => got.lock().unwrap().push(ce.data),
                    Err(_) => break,
                }
            }
            for (k, kind) in c2.tail.iter().enumerate() {
                time.incr_cycles(k as u64);
                let text = match kind {
                    0 => rcv.dequeue(time).map(|e| e.data).map_or("closed".to_string(), |e| format!("element {e}")),
                    1 => rcv.peek_next(time).map(|e| e.data).map_or("closed".to_string(), |e| format!("element {e}")),
                    _ => match rcv.peek() {
                        PeekResult::Closed => "closed".to_string(),
                        o => format!("{o:?}"),
                    },
                };
                tail.lock().unwrap().push(text);
            }
            let _ = kept.dequeue(time);
            Ok(())
        });
        b.add_child(s);
        b.add_child(r);
    });
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{c:?}{}{}", plan.seed, plan.policy)),
        nontrivial: !c.items.is_empty() && c.tail.len() >= 2,
        sample: json!({"case": c, "schedule": plan.json()}),
        ..Default::default()
    };
    case.class("flavor inference", infer);
    case.class("sender fails", c.how >= 2);
    case.class("sender finishes", c.how == 1);
    let sum = match out.done() {
        Ok(s) => s,
        Err(e) => {
            case.fail(e);
            return case;
        }
    };
    let want: Vec<u64> = c.items.iter().map(|i| i.value).collect();
    case.check(differ("the receiver's elements", &want, &take(&got)));
    let tail = take(&tail);
    if tail.len() != c.tail.len() || tail.iter().any(|t| t != "closed") {
        case.fail(format!("reads after the end of the channel gave {tail:?}"));
    }
    if sum.failures.len() != (c.how >= 2) as usize {
        case.fail(format!("failures reported: {:?}", sum.failures));
    }
    case
}

fn programs(g: &mut Gen) -> Case {
    let k = Knobs { leave: true, max_ctx: 4, max_ch: 8, max_ops: 70, ..Default::default() };
    super::core::one(g, &k, true, |p, l| check_ends(p, l).and_then(|_| check_closing(p, l)), |p| p.refused > 0)
}

fn void(g: &mut Gen) -> Case {
    let infer = g.chance(1, 3);
    let voids = g.count(1, 3);
    // (which void or usize::MAX for the real one, how far ahead, delay, wait first)
    let ops: Vec<(usize, u64, u64, bool)> = (0..g.usize(1, 14))
        .map(|_| (if g.chance(1, 4) { usize::MAX } else { g.usize(0, voids - 1) }, g.small(50), g.small(9), g.chance(1, 3)))
        .collect();
    let plan = Plan::draw(g, 400_000);
    let log = shared(Vec::<(u64, u64, bool)>::new());
    let mut got = Default::default();
    let out = simulate(&plan, infer, |b| {
        let vs: Vec<_> = (0..voids).map(|_| b.void::<u64>()).collect();
        let (snd, rcv) = b.unbounded::<u64>();
        let mut a = Actor::new();
        vs.iter().for_each(|v| v.attach_sender(&a));
        snd.attach_sender(&a);
        let (ops, log) = (ops.clone(), log.clone());
        a.body(move |time| {
            for (k, (to, ahead, delay, wait)) in ops.iter().enumerate() {
                time.incr_cycles(*delay);
                let before = time.tick().time();
                let s = if *to == usize::MAX { &snd } else { &vs[*to] };
                let mut ok = true;
                if *wait {
                    ok &= s.wait_until_available(time).is_ok();
                }
                ok &= s.enqueue(time, ChannelElement::new(time.tick() + *ahead, k as u64)).is_ok();
                let entry = (before, time.tick().time(), ok);
                log.lock().unwrap().push(entry);
            }
            Ok(())
        });
        b.add_child(a);
        got = drainer(b, rcv, vec![]);
    });
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{ops:?}{}{}", plan.seed, plan.policy)),
        nontrivial: ops.iter().filter(|o| o.0 != usize::MAX).count() >= 2,
        sample: json!({"operations": ops, "schedule": plan.json(), "flavor_inference": infer}),
        ..Default::default()
    };
    if let Err(e) = out.done() {
        case.fail(e);
        return case;
    }
    let log = take(&log);
    let mut tick = 0;
    for (i, (o, l)) in ops.iter().zip(&log).enumerate() {
        tick += o.2;
        if !l.2 || *l != (tick, tick, true) {
            case.fail(format!("operation {i} ({o:?}) went from {} to {} (expected {tick} both times), ok: {}", l.0, l.1, l.2));
            return case;
        }
    }
    let want: Vec<u64> = (0..ops.len()).filter(|i| ops[*i].0 == usize::MAX).map(|i| i as u64).collect();
    let got: Vec<u64> = take(&got).iter().map(|x| x.2).collect();
    case.check(differ("the real channel's elements", &want, &got));
    case
}

fn uninitialised(g: &mut Gen) -> Case {
    let bounded = Shape::draw(g, true, 4);
    let op = g.below(5);
    let attach = g.chance(1, 2);
    let kind = g.chance(1, 4);
    let r = catch(|| {
        let mut b = ProgramBuilder::default();
        let (snd, rcv) = if kind { (b.void::<u64>(), b.unbounded::<u64>().1) } else { bounded.make::<u64>(&mut b) };
        let a = Actor::new();
        let time = TimeManager::new();
        if attach {
            snd.attach_sender(&a);
            rcv.attach_receiver(&a);
        }
        match op {
            0 => snd.enqueue(&time, ChannelElement::new(Time::new(3), 7)).map(|_| "sent".to_string()).map_err(|e| e.to_string()),
            1 => snd.wait_until_available(&time).map(|_| "available".to_string()).map_err(|e| e.to_string()),
            2 => rcv.dequeue(&time).map(|e| format!("{e:?}")).map_err(|e| e.to_string()),
            3 => rcv.peek_next(&time).map(|e| format!("{e:?}")).map_err(|e| e.to_string()),
            _ => Ok(format!("{:?}", rcv.peek())),
        }
    });
    let names = ["enqueue", "wait_until_available", "dequeue", "peek_next", "peek"];
    let mut case = Case {
        key: crate::gen::mix(&[op, attach as u64, kind as u64, bounded.cap.unwrap_or(0) as u64, bounded.lat, bounded.rlat]),
        nontrivial: true,
        sample: json!({"operation": names[op as usize], "attached": attach, "channel": bounded, "void": kind}),
        ..Default::default()
    };
    if let Ok(v) = r {
        case.fail(format!("{} on an endpoint of an uninitialised program gave {v:?}", names[op as usize]));
    }
    case
}

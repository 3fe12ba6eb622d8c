//! Random timed dataflow programs which are feasible by construction: each operation is appended
//! only when a reference model of the network can perform it at once, so the order of appending is
//! one legal execution, and (the network being determinate) every schedule must finish.
use crate::gen::Gen;
use crate::props::util::{Actor, Parallel};
use crate::sim::{jitter, run, Plan, RunOut};
use dam::channel::{ChannelElement, PeekResult};
use dam::simulation::*;
use dam::structures::Time;
use dam::utility_contexts::FunctionContext;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize)]
pub struct Chan {
    pub src: usize,
    pub dst: usize,
    pub cap: Option<usize>,
    pub lat: u64,
    pub rlat: u64,
}

#[derive(Clone, Copy, Debug, Serialize, PartialEq)]
pub enum Req {
    Abs(u64),
    /// After the clock at the time of the call.
    Rel(u64),
}

#[derive(Clone, Debug, Serialize)]
pub enum Op {
    Enq(usize, Req),
    Deq(usize),
    PeekNext(usize),
    Peek(usize),
    Incr(u64),
    Adv(u64),
    Avail(usize),
    DropSender(usize),
    /// A dequeue (or peek_next) which must find the channel closed, then an advance to a time
    /// which no schedule can have passed.
    Closed(usize, bool, u64),
    DropReceiver(usize),
    /// An enqueue which must fail, as whoever does it has heard that the receiver is gone.
    EnqFail(usize, Req),
}

impl Op {
    fn text(&self) -> String {
        match self {
            Op::Enq(c, Req::Abs(t)) => format!("enqueue ch{c} @{t}"),
            Op::Enq(c, Req::Rel(t)) => format!("enqueue ch{c} @now+{t}"),
            Op::Deq(c) => format!("dequeue ch{c}"),
            Op::PeekNext(c) => format!("peek_next ch{c}"),
            Op::Peek(c) => format!("peek ch{c}"),
            Op::Incr(n) => format!("incr_cycles {n}"),
            Op::Adv(n) => format!("advance {n}"),
            Op::Avail(c) => format!("wait_until_available ch{c}"),
            Op::DropSender(c) => format!("drop sender ch{c}"),
            Op::DropReceiver(c) => format!("drop receiver ch{c}"),
            Op::EnqFail(c, Req::Abs(t)) => format!("enqueue ch{c} @{t} expecting failure"),
            Op::EnqFail(c, Req::Rel(t)) => format!("enqueue ch{c} @now+{t} expecting failure"),
            Op::Closed(c, true, t) => format!("peek_next ch{c} expecting closed; advance {t}"),
            Op::Closed(c, false, t) => format!("dequeue ch{c} expecting closed; advance {t}"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Program {
    pub chans: Vec<Chan>,
    pub ops: Vec<Vec<Op>>,
    /// What the reference model predicts.
    pub final_ticks: Vec<u64>,
    pub stalls: usize,
    pub future: usize,
    pub waits: usize,
    pub sent: usize,
    pub peeks: usize,
    /// Sends which must fail.
    pub refused: usize,
    pub cyclic: bool,
    /// Every context's first operation moves its clock here.
    pub start: u64,
}

#[derive(Clone, Copy)]
pub struct Knobs {
    pub max_ctx: usize,
    pub max_ch: usize,
    pub max_ops: usize,
    /// Out of 10: how many channels are bounded.
    pub bounded: u64,
    pub max_cap: u64,
    pub peeks: bool,
    pub avail: bool,
    pub future: u64,
    /// Keep to networks for which flavor inference is safe; see `make_inferable`.
    pub infer: bool,
    /// Receivers are often dropped while there is more to come.
    pub leave: bool,
    /// Weights of enqueue, dequeue, incr/advance.
    pub weights: [u32; 3],
}

impl Default for Knobs {
    fn default() -> Self {
        Self {
            max_ctx: 5,
            max_ch: 6,
            max_ops: 40,
            bounded: 6,
            max_cap: 3,
            peeks: true,
            avail: true,
            future: 12,
            infer: false,
            leave: false,
            weights: [6, 5, 3],
        }
    }
}

/// What a context knows for sure of what others have done: receivers dropped and elements sent.
#[derive(Clone)]
struct Known {
    gone: Vec<bool>,
    sent: Vec<usize>,
}

impl Known {
    fn learn(&mut self, other: &Known) {
        for (a, b) in self.gone.iter_mut().zip(&other.gone) {
            *a |= b;
        }
        for (a, b) in self.sent.iter_mut().zip(&other.sent) {
            *a = (*a).max(*b);
        }
    }
}

struct MChan {
    times: Vec<u64>,
    taken: usize,
    resp: Vec<u64>,
    dropped: Option<u64>,
    peeked: bool,
    /// The receiver was dropped.
    gone: bool,
    /// What the sender knew with each element, and at its end.
    said: Vec<Known>,
    last: Option<Known>,
}

/// Whether one context can reach another over the channels.
pub fn reachability(n: usize, chans: &[Chan]) -> Vec<Vec<bool>> {
    let mut reach = vec![vec![false; n]; n];
    for c in chans {
        reach[c.src][c.dst] = true;
    }
    for x in 0..n {
        for a in 0..n {
            for b in 0..n {
                reach[a][b] |= reach[a][x] && reach[x][b];
            }
        }
    }
    reach
}

/// Takes the bound off every channel between strongly connected components which may be peeked, or
/// is on an undirected cycle of them. With inference such a channel blocks its sender without moving its
/// clock, and whoever waits for that clock may be what the sender is waiting for: the recorded
/// finding F-INFER.
fn make_inferable(n: usize, chans: &mut [Chan], reach: &[Vec<bool>], peeks: bool) {
    let comp: Vec<usize> = (0..n)
        .map(|a| (0..n).find(|b| *b == a || (reach[a][*b] && reach[*b][a])).unwrap())
        .collect();
    for i in 0..chans.len() {
        let (a, b) = (comp[chans[i].src], comp[chans[i].dst]);
        if a == b || chans[i].cap.is_none() {
            continue;
        }
        // Still connected without it?
        let mut seen = vec![a];
        let mut at = 0;
        while at < seen.len() {
            for (j, c) in chans.iter().enumerate() {
                let (x, y) = (comp[c.src], comp[c.dst]);
                for (x, y) in [(x, y), (y, x)] {
                    if j != i && x == seen[at] && !seen.contains(&y) {
                        seen.push(y);
                    }
                }
            }
            at += 1;
        }
        if peeks || seen.contains(&b) {
            chans[i].cap = None;
        }
    }
}

pub fn generate(g: &mut Gen, k: &Knobs) -> Program {
    let start = g.start();
    // Now and then a long program with room for many elements.
    let large = g.chance(1, 60);
    let wide = g.chance(1, 60);
    // Now and then a channel with room for hundreds, many of which are sent in one go.
    let deep = g.chance(1, 60);
    let k = &Knobs {
        max_ops: if large { k.max_ops * 6 } else { k.max_ops },
        max_cap: if large { k.max_cap * 12 } else { k.max_cap },
        max_ctx: if wide { k.max_ctx * 4 } else { k.max_ctx },
        max_ch: if wide { k.max_ch * 5 } else { k.max_ch },
        ..*k
    };
    let n = g.usize(2, k.max_ctx);
    let m = g.usize(1, k.max_ch);
    let mut chans = vec![];
    for _ in 0..m {
        let src = g.below(n as u64) as usize;
        // Mostly another context, now and then the same one.
        let step = if g.chance(1, 12) {
            0
        } else {
            g.usize(1, n - 1)
        };
        let cap = if g.below(10) < k.bounded {
            Some(1 + g.small(k.max_cap - 1) as usize)
        } else {
            None
        };
        let lat = crate::props::util::latency(g, 9);
        let rlat = crate::props::util::latency(g, 9);
        chans.push(Chan {
            src,
            dst: (src + step) % n,
            cap,
            lat,
            rlat,
        });
    }
    if deep {
        // Every other time back to its own sender, who will have taken nothing in the meantime.
        let c = &mut chans[0];
        if g.chance(1, 2) {
            c.dst = c.src;
        }
        if c.cap.is_some() {
            c.cap = Some(g.usize(40, 400));
        }
    }
    let reach = reachability(n, &chans);
    let cyclic = (0..n).any(|a| reach[a][a]);
    if k.infer && (k.peeks || cyclic) {
        make_inferable(n, &mut chans, &reach, k.peeks);
    }
    let mut ops: Vec<Vec<Op>> = vec![vec![]; n];
    let mut tick = vec![start; n];
    if start > 0 {
        ops.iter_mut().for_each(|o| o.push(Op::Adv(start)));
    }
    let mut ch: Vec<MChan> = (0..m)
        .map(|_| MChan {
            times: vec![],
            taken: 0,
            resp: vec![],
            dropped: None,
            peeked: false,
            gone: false,
            said: vec![],
            last: None,
        })
        .collect();
    let mut known = vec![Known { gone: vec![false; m], sent: vec![0; m] }; n];
    // Whether receivers may be dropped while there is more to come.
    let leaving = g.chance(if k.leave { 7 } else { 2 }, 8);
    let (mut stalls, mut future, mut waits, mut sent, mut peeks, mut refused) = (0, 0, 0, 0, 0, 0);

    // Performs a send on the model's clocks.
    fn room(chan: &Chan, mc: &MChan) -> bool {
        match chan.cap {
            None => true,
            Some(c) => mc.times.len() < c || mc.resp.len() > mc.times.len() - c,
        }
    }
    fn free_at(chan: &Chan, mc: &MChan) -> u64 {
        match chan.cap {
            Some(c) if mc.times.len() >= c => mc.resp[mc.times.len() - c],
            _ => 0,
        }
    }

    fn hear(who: &mut Known, mc: &MChan, i: usize) {
        who.learn(&mc.said[mc.taken]);
        who.sent[i] = who.sent[i].max(mc.taken + 1);
    }

    // Each step may be the last one, so that whole steps can be shrunk away.
    for _ in 0..k.max_ops * 2 {
        if g.below(k.max_ops as u64) == 0 {
            break;
        }
        let c = g.below(n as u64) as usize;
        let out: Vec<usize> = (0..m)
            .filter(|i| chans[*i].src == c && ch[*i].dropped.is_none() && !ch[*i].gone && room(&chans[*i], &ch[*i]))
            .collect();
        let refusing: Vec<usize> = (0..m).filter(|i| chans[*i].src == c && ch[*i].dropped.is_none() && known[c].gone[*i]).collect();
        let inp: Vec<usize> = (0..m)
            .filter(|i| chans[*i].dst == c && !ch[*i].gone && ch[*i].taken < ch[*i].times.len())
            .collect();
        let any_in: Vec<usize> = (0..m).filter(|i| chans[*i].dst == c && !ch[*i].gone).collect();
        // A send which nobody knows to be over could fail if the receiver went away.
        let leavable: Vec<usize> = any_in.iter().copied().filter(|i| known[c].sent[*i] == ch[*i].times.len()).collect();
        let closed: Vec<usize> = any_in
            .iter()
            .copied()
            .filter(|i| ch[*i].dropped.is_some() && ch[*i].taken == ch[*i].times.len())
            .collect();
        let w = [
            if out.is_empty() { 0 } else { k.weights[0] },
            if inp.is_empty() { 0 } else { k.weights[1] },
            k.weights[2],
            if inp.is_empty() { 0 } else { 1 },
            if k.peeks && !any_in.is_empty() { 3 } else { 0 },
            if k.avail && !out.is_empty() { 1 } else { 0 },
            if out.is_empty() || sent < 4 { 0 } else { 1 },
            if closed.is_empty() { 0 } else { 1 },
            if !leaving || leavable.is_empty() || sent < 3 { 0 } else if k.leave { 2 } else { 1 },
            if refusing.is_empty() { 0 } else if k.leave { 8 } else { 4 },
        ];
        match g.weighted(&w) {
            0 => {
                let i = *g.pick(&out);
                let burst = if deep && i == 0 && g.chance(1, 3) { g.usize(1, 420) } else { 1 };
                for _ in 0..burst {
                    if !room(&chans[i], &ch[i]) {
                        break;
                    }
                    let req = if g.chance(1, 4) {
                        Req::Abs(start + g.small(60))
                    } else {
                        Req::Rel(if g.chance(1, 2) { g.small(k.future) } else { 0 })
                    };
                    let at = match req {
                        Req::Abs(t) => t,
                        Req::Rel(t) => tick[c] + t,
                    };
                    let free = free_at(&chans[i], &ch[i]);
                    if free > tick[c] {
                        stalls += 1;
                        tick[c] = free;
                    }
                    if at > tick[c] + chans[i].lat {
                        future += 1;
                    }
                    ch[i].times.push(at.max(tick[c] + chans[i].lat));
                    let k = known[c].clone();
                    ch[i].said.push(k);
                    known[c].sent[i] += 1;
                    ops[c].push(Op::Enq(i, req));
                    sent += 1;
                }
            }
            1 => {
                let i = *g.pick(&inp);
                let t = ch[i].times[ch[i].taken];
                if t > tick[c] {
                    waits += 1;
                    tick[c] = t;
                }
                hear(&mut known[c], &ch[i], i);
                ch[i].taken += 1;
                ch[i].peeked = false;
                let r = tick[c] + chans[i].rlat;
                ch[i].resp.push(r);
                ops[c].push(Op::Deq(i));
            }
            2 => {
                let d = 1 + g.small(24);
                if g.chance(1, 3) {
                    // Sometimes into the past, which must do nothing.
                    let to = (tick[c] + d).saturating_sub(g.small(30));
                    tick[c] = tick[c].max(to);
                    ops[c].push(Op::Adv(to));
                } else {
                    tick[c] += d;
                    ops[c].push(Op::Incr(d));
                }
            }
            3 => {
                let i = *g.pick(&inp);
                tick[c] = tick[c].max(ch[i].times[ch[i].taken]);
                ch[i].peeked = true;
                hear(&mut known[c], &ch[i], i);
                ops[c].push(Op::PeekNext(i));
            }
            4 => {
                let i = *g.pick(&any_in);
                peeks += 1;
                ops[c].push(Op::Peek(i));
            }
            5 => {
                let i = *g.pick(&out);
                let free = free_at(&chans[i], &ch[i]);
                if free > tick[c] {
                    stalls += 1;
                    tick[c] = free;
                }
                ops[c].push(Op::Avail(i));
            }
            6 => {
                let i = *g.pick(&out);
                ch[i].dropped = Some(tick[c]);
                ch[i].last = Some(known[c].clone());
                ops[c].push(Op::DropSender(i));
            }
            8 => {
                let i = *g.pick(&leavable);
                ch[i].gone = true;
                known[c].gone[i] = true;
                ops[c].push(Op::DropReceiver(i));
            }
            9 => {
                let i = *g.pick(&refusing);
                // It still waits for room which is sure to come.
                if room(&chans[i], &ch[i]) {
                    tick[c] = tick[c].max(free_at(&chans[i], &ch[i]));
                }
                refused += 1;
                ops[c].push(Op::EnqFail(i, if g.chance(1, 4) { Req::Abs(start + g.small(60)) } else { Req::Rel(g.small(k.future)) }));
            }
            _ => {
                let i = *g.pick(&closed);
                tick[c] = tick[c].max(ch[i].dropped.unwrap() + 1);
                let kind = g.chance(1, 3);
                let last = ch[i].last.clone().unwrap();
                known[c].learn(&last);
                ops[c].push(Op::Closed(i, kind, tick[c]));
            }
        }
    }
    // The end: everybody drops what they can still send on, then everything is drained.
    for i in 0..m {
        if ch[i].dropped.is_none() {
            let c = chans[i].src;
            ch[i].dropped = Some(tick[c]);
            ops[c].push(Op::DropSender(i));
        }
    }
    for i in 0..m {
        if ch[i].gone {
            continue;
        }
        let c = chans[i].dst;
        while ch[i].taken < ch[i].times.len() {
            tick[c] = tick[c].max(ch[i].times[ch[i].taken]);
            ch[i].taken += 1;
            let r = tick[c] + chans[i].rlat;
            ch[i].resp.push(r);
            ops[c].push(Op::Deq(i));
        }
        tick[c] = tick[c].max(ch[i].dropped.unwrap() + 1);
        let kind = i % 3 == 1;
        ops[c].push(Op::Closed(i, kind, tick[c]));
    }
    Program {
        cyclic,
        chans,
        ops,
        final_ticks: tick,
        stalls,
        future,
        waits,
        sent,
        peeks,
        refused,
        start,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Plain,
    /// Requested time.
    Sent(u64),
    SendFailed,
    Got(u64, u64),
    /// The clock before the advance to a common time.
    Closed(u64),
    Something(u64, u64),
    Nothing(u64),
    PeekClosed,
    Panicked(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub op: usize,
    pub before: u64,
    pub after: u64,
    pub out: Out,
}

pub type Log = Vec<Vec<Ev>>;

pub struct Ran {
    pub log: Log,
    pub elapsed: Option<u64>,
    pub passed: bool,
}

pub fn value(ch: usize, seq: usize) -> u64 {
    ((ch as u64 + 1) << 32) | (seq as u64 * 0x9E37 + 7)
}

impl Program {
    pub fn json(&self) -> Value {
        json!({
            "channels": self.chans.iter().enumerate().map(|(i, c)| format!(
                "ch{i}: ctx{} -> ctx{}, capacity {}, latency {}, response latency {}",
                c.src, c.dst, c.cap.map_or("none".to_string(), |c| c.to_string()), c.lat, c.rlat)).collect::<Vec<_>>(),
            "contexts": self.ops.iter().map(|o| o.iter().map(|x| x.text()).collect::<Vec<_>>()).collect::<Vec<_>>(),
        })
    }

    pub fn key(&self) -> u64 {
        crate::gen::hash_str(&format!("{:?}{:?}", self.chans, self.ops))
    }

    pub fn total_ops(&self) -> usize {
        self.ops.iter().map(|o| o.len()).sum()
    }

    /// Generous: any clock moves by at least one per round of waiting.
    pub fn step_limit(&self) -> u64 {
        let t: u64 = self.final_ticks.iter().max().copied().unwrap_or(0)
            .saturating_sub(self.start)
            + self.chans.iter().map(|c| c.lat + c.rlat).sum::<u64>();
        20_000 + 400 * (t + self.total_ops() as u64 + 50) * (self.ops.len() * self.ops.len()) as u64
    }

    pub fn execute(&self, plan: &Plan, infer: bool) -> RunOut<Ran> {
        self.execute_as(plan, infer, &None, &Dress::default())
    }

    pub fn execute_dressed(&self, plan: &Plan, infer: bool, dress: &Dress) -> RunOut<Ran> {
        self.execute_as(plan, infer, &None, dress)
    }

    pub fn execute_logged(&self, plan: &Plan, infer: bool, logging: &Option<Arc<LogSetup>>) -> RunOut<Ran> {
        let dress = logging.as_ref().map(|l| l.dress.clone()).unwrap_or_default();
        self.execute_as(plan, infer, logging, &dress)
    }

    fn execute_as(&self, plan: &Plan, infer: bool, logging: &Option<Arc<LogSetup>>, dress: &Dress) -> RunOut<Ran> {
        let logs: Arc<Mutex<Log>> = Arc::new(Mutex::new(vec![vec![]; self.ops.len()]));
        let inner = logs.clone();
        let out = run(plan, || self.build_and_run(plan, infer, &inner, logging, dress));
        let log = std::mem::take(&mut *logs.lock().unwrap_or_else(|e| e.into_inner()));
        RunOut {
            end: out.end,
            schedule: out.schedule,
            switches: out.switches,
            steps: out.steps,
            result: match out.result {
                Ok((elapsed, passed)) => Ok(Ran {
                    log,
                    elapsed,
                    passed,
                }),
                Err(e) => {
                    let more: Vec<String> = log
                        .iter()
                        .flatten()
                        .filter_map(|e| match &e.out {
                            Out::Panicked(m) => Some(m.clone()),
                            _ => None,
                        })
                        .collect();
                    Err(if more.is_empty() {
                        e
                    } else {
                        format!("{e}: {}", more.join("; "))
                    })
                }
            },
        }
    }

    fn build_and_run(&self, plan: &Plan, infer: bool, logs: &Arc<Mutex<Log>>, logging: &Option<Arc<LogSetup>>, dress: &Dress) -> (Option<u64>, bool) {
        let mut builder = ProgramBuilder::default();
        let mut snd = HashMap::new();
        let mut rcv = HashMap::new();
        for (i, c) in self.chans.iter().enumerate() {
            let (s, r) = match c.cap {
                Some(cap) if c.lat == 1 && c.rlat == 1 => builder.bounded::<u64>(cap),
                Some(cap) => builder.bounded_with_latency::<u64>(cap, c.lat, c.rlat),
                None if c.lat == 1 && c.rlat == 1 => builder.unbounded::<u64>(),
                None => builder.unbounded_with_latency::<u64>(c.lat, c.rlat),
            };
            if let Some(l) = logging {
                l.channels.lock().unwrap().push(s.id());
            }
            snd.insert(i, s);
            rcv.insert(i, r);
        }
        let mut parts: Vec<Vec<Actor>> = (0..dress.composites).map(|_| vec![]).collect();
        for (ctx, ops) in self.ops.iter().enumerate() {
            let style = dress.styles.get(ctx).copied().unwrap_or_default();
            let mut shell = match style.kind {
                Kind::Function => Shell::Function(FunctionContext::new()),
                _ => Shell::Actor(Actor::new()),
            };
            macro_rules! fc {
                ($f:ident => $e:expr) => {
                    match &mut shell {
                        Shell::Function($f) => $e,
                        Shell::Actor($f) => $e,
                    }
                };
            }
            let void = style.void.then(|| {
                let s = builder.void::<u64>();
                fc!(f => s.attach_sender(f));
                s
            });
            let mut outs = HashMap::new();
            let mut ins = HashMap::new();
            for (i, c) in self.chans.iter().enumerate() {
                if c.src == ctx {
                    let s = snd.remove(&i).unwrap();
                    fc!(f => s.attach_sender(f));
                    outs.insert(i, s);
                }
                if c.dst == ctx {
                    let r = rcv.remove(&i).unwrap();
                    fc!(f => r.attach_receiver(f));
                    ins.insert(i, r);
                }
            }
            if let Shell::Actor(a) = &mut shell {
                let ins: Vec<_> = ins.values().map(|r: &dam::channel::Receiver<u64>| r.id()).collect();
                let outs: Vec<_> = outs.values().map(|s: &dam::channel::Sender<u64>| s.id()).chain(void.iter().map(|v| v.id())).collect();
                a.groups = match style.groups {
                    Groups::Unsaid => None,
                    // Without inputs or outputs there is nothing to connect.
                    Groups::Fine if ins.is_empty() || outs.is_empty() => Some(
                        ins.into_iter().map(|i| (vec![i], vec![])).chain(outs.into_iter().map(|o| (vec![], vec![o]))).collect(),
                    ),
                    Groups::Pairs => Some(
                        ins.iter().map(|i| (vec![*i], outs.clone())).collect(),
                    ),
                    Groups::Fine | Groups::One => Some(vec![(ins, outs)]),
                };
            }
            let ops = ops.clone();
            let logs = logs.clone();
            if let Some(l) = logging {
                l.add_context(fc!(f => dam::structures::Identifiable::id(f)));
                if !matches!(style.kind, Kind::Part(_)) {
                    l.add_child(ctx, fc!(f => dam::structures::Identifiable::id(f)));
                }
            }
            let logging = logging.clone();
            let mut jit = if crate::SCHED {
                0
            } else {
                crate::gen::mix(&[plan.seed, ctx as u64]) | 1
            };
            let body: ActorBody = Box::new(move |time: &mut dam::structures::TimeManager| {
                if let Some(v) = &void {
                    v.enqueue(time, ChannelElement::new(Time::new(7), 1)).expect("a void takes anything");
                }
                if let Some(l) = &logging {
                    l.install(ctx);
                }
                let mut log: Vec<Ev> = vec![];
                let mut seq: HashMap<usize, usize> = HashMap::new();
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    for (index, op) in ops.iter().enumerate() {
                        jitter(&mut jit);
                        let before = time.tick().time();
                        let mut stop = false;
                        let mut close_tick = None;
                        let out = match op {
                            Op::Enq(ch, req) => {
                                let n = seq.entry(*ch).or_default();
                                let at = match req {
                                    Req::Abs(t) => *t,
                                    Req::Rel(t) => before + *t,
                                };
                                let v = value(*ch, *n);
                                *n += 1;
                                match outs[ch].enqueue(time, ChannelElement::new(Time::new(at), v)) {
                                    Ok(()) => Out::Sent(at),
                                    Err(_) => {
                                        stop = true;
                                        Out::SendFailed
                                    }
                                }
                            }
                            Op::Deq(ch) => match ins[ch].dequeue(time) {
                                Ok(ce) => Out::Got(ce.time.time(), ce.data),
                                Err(_) => {
                                    stop = true;
                                    close_tick = Some(time.tick().time());
                                    Out::Closed(0)
                                }
                            },
                            Op::PeekNext(ch) => match ins[ch].peek_next(time) {
                                Ok(ce) => Out::Something(ce.time.time(), ce.data),
                                Err(_) => {
                                    stop = true;
                                    close_tick = Some(time.tick().time());
                                    Out::Closed(0)
                                }
                            },
                            Op::Peek(ch) => match ins[ch].peek() {
                                PeekResult::Something(ce) => Out::Something(ce.time.time(), ce.data),
                                PeekResult::Nothing(t) if t.is_infinite() => Out::Nothing(u64::MAX),
                                PeekResult::Nothing(t) => Out::Nothing(t.time()),
                                PeekResult::Closed => Out::PeekClosed,
                            },
                            Op::Incr(n) => {
                                time.incr_cycles(*n);
                                Out::Plain
                            }
                            Op::Adv(n) => {
                                time.advance(Time::new(*n));
                                Out::Plain
                            }
                            Op::Avail(ch) => match outs[ch].wait_until_available(time) {
                                Ok(()) => Out::Plain,
                                Err(_) => {
                                    stop = true;
                                    Out::SendFailed
                                }
                            },
                            Op::DropSender(ch) => {
                                drop(outs.remove(ch));
                                Out::Plain
                            }
                            Op::DropReceiver(ch) => {
                                drop(ins.remove(ch));
                                Out::Plain
                            }
                            Op::EnqFail(ch, req) => {
                                let at = match req {
                                    Req::Abs(t) => *t,
                                    Req::Rel(t) => before + *t,
                                };
                                match outs[ch].enqueue(time, ChannelElement::new(Time::new(at), value(*ch, usize::MAX >> 40))) {
                                    Ok(()) => Out::Sent(at),
                                    Err(_) => Out::SendFailed,
                                }
                            }
                            Op::Closed(ch, peek, to) => {
                                let got = if *peek {
                                    ins[ch].peek_next(time)
                                } else {
                                    ins[ch].dequeue(time)
                                };
                                match got {
                                    Ok(ce) => {
                                        stop = true;
                                        Out::Got(ce.time.time(), ce.data)
                                    }
                                    Err(_) => {
                                        let now = time.tick().time();
                                        time.advance(Time::new(*to));
                                        Out::Closed(now)
                                    }
                                }
                            }
                        };
                        let out = match (out, close_tick) {
                            (Out::Closed(_), Some(t)) => Out::Closed(t),
                            (o, _) => o,
                        };
                        log.push(Ev {
                            op: index,
                            before,
                            after: time.tick().time(),
                            out,
                        });
                        if let Some(l) = &logging {
                            l.mark(ctx, index);
                        }
                        if stop {
                            break;
                        }
                    }
                }));
                if res.is_err() {
                    log.push(Ev {
                        op: log.len(),
                        before: 0,
                        after: 0,
                        out: Out::Panicked(crate::sim::last_panic()),
                    });
                }
                logs.lock().unwrap_or_else(|e| e.into_inner())[ctx] = log;
                if let Some(v) = &void {
                    v.enqueue(time, ChannelElement::new(Time::new(7), 1)).expect("a void takes anything");
                }
                if let Err(e) = res {
                    std::panic::resume_unwind(e);
                }
            });
            match (shell, style.kind) {
                (Shell::Function(mut f), _) => {
                    f.set_run(body);
                    builder.add_child(f);
                }
                (Shell::Actor(mut a), kind) => {
                    a.body(move |t| {
                        body(t);
                        Ok(())
                    });
                    match kind {
                        Kind::Part(k) => parts[k].push(a),
                        _ => builder.add_child(a),
                    }
                }
            }
        }
        for (k, p) in parts.into_iter().enumerate() {
            if !p.is_empty() {
                let whole = Parallel::new(p);
                if let Some(l) = logging {
                    let first = dress.styles.iter().position(|s| s.kind == Kind::Part(k)).unwrap();
                    l.add_child(first, dam::structures::Identifiable::id(&whole));
                }
                builder.add_child(whole);
            }
        }
        let options = InitializationOptionsBuilder::default()
            .run_flavor_inference(infer)
            .build()
            .unwrap();
        let init = builder.initialize(options).expect("initialize");
        let executed = init.run(match logging {
            Some(l) => l.options(),
            None if dress.fifo => RunOptionsBuilder::default().mode(dam::shim::RunMode::FIFO).build().unwrap(),
            None => RunOptions::default(),
        });
        (executed.elapsed_cycles(), executed.passed())
    }
}

type ActorBody = Box<dyn FnOnce(&mut dam::structures::TimeManager) + Send + Sync>;

enum Shell {
    Function(FunctionContext<ActorBody>),
    Actor(Actor<'static>),
}

/// What kind of context runs the operations.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum Kind {
    #[default]
    Function,
    Actor,
    /// Part of that composite, on a thread of its own.
    Part(usize),
}

/// What a context says about which of its inputs affect which of its outputs: always the truth.
#[derive(Clone, Copy, Debug, Default)]
pub enum Groups {
    #[default]
    Unsaid,
    One,
    /// Every input on its own, with all outputs.
    Pairs,
    /// As many groups as possible when there are no inputs or no outputs.
    Fine,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    pub kind: Kind,
    pub groups: Groups,
    pub void: bool,
}

/// How a program is put into contexts, which may not matter for what it does.
#[derive(Clone, Debug, Default)]
pub struct Dress {
    pub styles: Vec<Style>,
    pub composites: usize,
    /// Asks for real-time scheduling of its threads.
    pub fifo: bool,
}

impl Dress {
    pub fn draw(g: &mut Gen, contexts: usize) -> Self {
        if g.chance(1, 2) {
            return Self::default();
        }
        let composites = g.below(3) as usize;
        let say = g.weighted(&[1, 2, 1]);
        let styles = (0..contexts)
            .map(|_| {
                let kind = match g.below(4) {
                    0 => Kind::Function,
                    1 => Kind::Actor,
                    _ if composites == 0 => Kind::Actor,
                    _ => Kind::Part(g.below(composites as u64) as usize),
                };
                let said = match say {
                    0 => false,
                    1 => g.chance(1, 2),
                    _ => true,
                };
                let groups = match g.below(3) {
                    _ if !said => Groups::Unsaid,
                    0 => Groups::One,
                    1 => Groups::Pairs,
                    _ => Groups::Fine,
                };
                Style { kind, groups, void: g.chance(1, 4) }
            })
            .collect();
        Self { styles, composites, fifo: false }
    }

    pub fn json(&self) -> Value {
        json!(self
            .styles
            .iter()
            .map(|s| format!(
                "{}{}{}",
                match s.kind {
                    Kind::Function => "function context".to_string(),
                    Kind::Actor => "own context type".to_string(),
                    Kind::Part(k) => format!("part of composite {k}"),
                },
                match s.groups {
                    Groups::Unsaid => "",
                    Groups::One => ", connections declared",
                    Groups::Pairs => ", connections declared per input",
                    Groups::Fine => ", connections declared one by one",
                },
                if s.void { ", also writes to a void" } else { "" }
            ))
            .collect::<Vec<_>>())
    }

    pub fn declares(&self) -> bool {
        self.styles.iter().any(|s| s.kind != Kind::Function && !matches!(s.groups, Groups::Unsaid))
    }
}

/// Logging of a program: who logs what, and to where.
pub struct LogSetup {
    /// None: this context has no logger.
    pub filters: Vec<Option<dam::logging::LogFilter>>,
    /// Taken by each context when it starts.
    pub sinks: Mutex<Vec<Option<crossbeam::channel::Sender<dam::logging::LogEntry>>>>,
    pub start: std::time::Instant,
    pub contexts: Mutex<Vec<dam::structures::Identifier>>,
    pub channels: Mutex<Vec<dam::channel::ChannelID>>,
    /// How often a deferred event was built, per context.
    pub built: Vec<std::sync::atomic::AtomicUsize>,
    /// Instead of the sinks: the library's own logger, which writes to this database and collection.
    pub database: Option<(String, String)>,
    /// With a database: one filter for all contexts.
    pub blanket: bool,
    pub dress: Dress,
}

/// The filters of the contexts of programs which log to a database.
static FILTERS: Mutex<std::collections::BTreeMap<usize, dam::logging::LogFilter>> = Mutex::new(std::collections::BTreeMap::new());

impl LogSetup {
    fn add_context(&self, id: dam::structures::Identifier) {
        self.contexts.lock().unwrap().push(id);
    }

    fn add_child(&self, ctx: usize, id: dam::structures::Identifier) {
        if self.database.is_some() {
            FILTERS.lock().unwrap().insert(id.id, self.filter(ctx));
        }
    }

    fn filter(&self, ctx: usize) -> dam::logging::LogFilter {
        self.filters[ctx].clone().unwrap_or(dam::logging::LogFilter::Some(Default::default()))
    }

    #[cfg(not(feature = "mongo"))]
    fn options(&self) -> RunOptions {
        RunOptions::default()
    }

    #[cfg(feature = "mongo")]
    fn options(&self) -> RunOptions {
        let Some((db, collection)) = &self.database else { return RunOptions::default() };
        let filter = if self.blanket {
            LogFilterKind::Blanket(self.filter(0))
        } else {
            LogFilterKind::PerChild(|id| FILTERS.lock().unwrap().remove(&id.id).expect("a context of this program"))
        };
        let to = MongoOptionsBuilder::default()
            .uri(format!("mongodb://127.0.0.1:{}", crate::props::mongo::port()))
            .db(db.clone())
            .collection(collection.clone())
            .build()
            .unwrap();
        RunOptionsBuilder::default().logging(LoggingOptions::Mongo(to)).log_filter(filter).build().unwrap()
    }

    fn install(&self, ctx: usize) {
        if self.database.is_some() {
            return;
        }
        let id = self.contexts.lock().unwrap()[ctx];
        let sink = self.sinks.lock().unwrap()[ctx].take();
        if let (Some(f), Some(s)) = (&self.filters[ctx], sink) {
            dam::logging::initialize_log(dam::logging::LogInterface::new(id, s, self.start, f.clone(), Time::new(0)));
        }
    }

    /// The harness's own event after each operation.
    fn mark(&self, ctx: usize, index: usize) {
        let e = crate::props::logging::mark(ctx, index);
        let res = if index % 2 == 0 {
            dam::logging::log_event(&e)
        } else {
            dam::logging::log_event_cb(|| {
                self.built[ctx].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                e
            })
        };
        if let Err(e) = res {
            panic!("logging failed: {e}");
        }
    }
}

/// What one channel saw, put together from the logs of both of its ends.
pub struct ChanLog<'a> {
    pub chan: &'a Chan,
    /// (before, after, requested) of each successful send.
    pub sends: Vec<(u64, u64, u64)>,
    /// (before, after, element time, value) of each dequeue.
    pub takes: Vec<(u64, u64, u64, u64)>,
}

pub fn channels<'a>(p: &'a Program, log: &Log) -> Vec<ChanLog<'a>> {
    p.chans
        .iter()
        .enumerate()
        .map(|(i, chan)| {
            let mut c = ChanLog {
                chan,
                sends: vec![],
                takes: vec![],
            };
            for e in &log[chan.src] {
                if let (Some(Op::Enq(x, _)), Out::Sent(at)) = (p.ops[chan.src].get(e.op), &e.out) {
                    if *x == i {
                        c.sends.push((e.before, e.after, *at));
                    }
                }
            }
            for e in &log[chan.dst] {
                if let (Some(Op::Deq(x) | Op::Closed(x, ..)), Out::Got(t, v)) =
                    (p.ops[chan.dst].get(e.op), &e.out)
                {
                    if *x == i {
                        c.takes.push((e.before, e.after, *t, *v));
                    }
                }
            }
            c
        })
        .collect()
}

/// Everything sent arrives once, in order, unchanged; closed is seen only after all of it.
pub fn check_fifo(p: &Program, log: &Log) -> Result<(), String> {
    for (ctx, l) in log.iter().enumerate() {
        for e in l {
            let op = &p.ops[ctx].get(e.op);
            match (&e.out, op) {
                (Out::SendFailed, Some(Op::EnqFail(..))) => {}
                (Out::Sent(_), Some(op @ Op::EnqFail(..))) => {
                    return Err(format!("ctx{ctx} op {} ({}) succeeded although its receiver is gone, and it knows", e.op, op.text()))
                }
                (Out::SendFailed, Some(op)) => {
                    return Err(format!("ctx{ctx} op {} ({}) failed although its receiver is still reading", e.op, op.text()))
                }
                (Out::Closed(_), Some(op @ (Op::Deq(_) | Op::PeekNext(_)))) => {
                    return Err(format!("ctx{ctx} op {} ({}) found the channel closed with elements still to come", e.op, op.text()))
                }
                (Out::Got(t, v), Some(op @ Op::Closed(..))) => {
                    return Err(format!("ctx{ctx} op {} ({}) got {v:#x}@{t} after everything was taken", e.op, op.text()))
                }
                (Out::Something(_, v), Some(Op::Peek(ch) | Op::PeekNext(ch))) => {
                    let taken = l[..]
                        .iter()
                        .take_while(|x| x.op < e.op)
                        .filter(|x| matches!((&p.ops[ctx][x.op], &x.out), (Op::Deq(c), Out::Got(..)) if c == ch))
                        .count();
                    if *v != value(*ch, taken) {
                        return Err(format!("ctx{ctx} op {} peeked {v:#x} on ch{ch}, but element {taken} is {:#x}", e.op, value(*ch, taken)));
                    }
                }
                _ => {}
            }
        }
        if l.len() != p.ops[ctx].len() {
            return Err(format!("ctx{ctx} only got through {} of {} operations", l.len(), p.ops[ctx].len()));
        }
    }
    for (i, c) in channels(p, log).iter().enumerate() {
        for (k, (_, _, t, v)) in c.takes.iter().enumerate() {
            if *v != value(i, k) {
                return Err(format!("ch{i}: dequeue {k} gave {v:#x}@{t}, but element {k} sent was {:#x}", value(i, k)));
            }
        }
        let gone = p.ops[c.chan.dst].iter().any(|o| matches!(o, Op::DropReceiver(x) if *x == i));
        if c.takes.len() != c.sends.len() && !gone {
            return Err(format!("ch{i}: {} sent but {} received before it closed", c.sends.len(), c.takes.len()));
        }
    }
    Ok(())
}

/// Both sides notice when the other is gone, and not before.
pub fn check_ends(p: &Program, log: &Log) -> Result<(), String> {
    for (ctx, l) in log.iter().enumerate() {
        for e in l {
            let Some(op) = p.ops[ctx].get(e.op) else { continue };
            let bad = match (op, &e.out) {
                (Op::EnqFail(..), Out::SendFailed) => continue,
                (Op::EnqFail(..), _) => "succeeded although its receiver is gone, and the context knows",
                (_, Out::SendFailed) => "failed although its receiver is there",
                (Op::Closed(..), Out::Closed(_)) => continue,
                (Op::Closed(..), _) => "did not find the channel closed after its sender went away",
                (_, Out::Closed(_)) => "found the channel closed before its last element",
                _ => continue,
            };
            return Err(format!("ctx{ctx} op {} ({}) {bad}", e.op, op.text()));
        }
        if l.len() != p.ops[ctx].len() {
            return Err(format!("ctx{ctx} only got through {} of {} operations", l.len(), p.ops[ctx].len()));
        }
    }
    Ok(())
}

/// Element times and the clocks of both ends follow the latency law.
pub fn check_latency(p: &Program, log: &Log) -> Result<(), String> {
    for (i, c) in channels(p, log).iter().enumerate() {
        for (k, (s, r)) in c.sends.iter().zip(c.takes.iter()).enumerate() {
            let want = s.2.max(s.1 + c.chan.lat);
            if r.2 != want {
                return Err(format!(
                    "ch{i} element {k}: sent at clock {} asking for {} over latency {}, so its time must be {want}, but it is {}",
                    s.1, s.2, c.chan.lat, r.2
                ));
            }
            let after = r.0.max(r.2);
            if r.1 != after {
                return Err(format!(
                    "ch{i} element {k} at time {} was dequeued at clock {}, so the clock must become {after}, but it is {}",
                    r.2, r.0, r.1
                ));
            }
        }
    }
    for (ctx, l) in log.iter().enumerate() {
        let mut last = 0;
        for e in l {
            let Some(op) = p.ops[ctx].get(e.op) else { continue };
            if e.before != last || e.after < e.before {
                return Err(format!("ctx{ctx}: clock went from {last} to {} and {} around op {}", e.before, e.after, e.op));
            }
            last = e.after;
            let want = match (op, &e.out) {
                (Op::PeekNext(ch), Out::Something(t, _)) => {
                    let taken = l
                        .iter()
                        .take_while(|x| x.op < e.op)
                        .filter(|x| matches!((&p.ops[ctx][x.op], &x.out), (Op::Deq(c), Out::Got(..)) if c == ch))
                        .count();
                    let cl = &channels(p, log)[*ch];
                    if let Some(s) = cl.sends.get(taken) {
                        let expect = s.2.max(s.1 + cl.chan.lat);
                        if *t != expect {
                            return Err(format!("ctx{ctx} op {}: peek_next gave time {t}, the element's time is {expect}", e.op));
                        }
                    }
                    e.before.max(*t)
                }
                (Op::Incr(n), _) => e.before + n,
                (Op::Adv(n), _) => e.before.max(*n),
                (Op::Peek(_) | Op::DropSender(_) | Op::DropReceiver(_), _) => e.before,
                (Op::Enq(ch, _) | Op::Avail(ch), _) if p.chans[*ch].cap.is_none() => e.before,
                _ => continue,
            };
            if e.after != want {
                return Err(format!(
                    "ctx{ctx} op {} ({}) moved the clock from {} to {}, not to {want}",
                    e.op, op.text(), e.before, e.after
                ));
            }
        }
    }
    Ok(())
}

/// A send on a full channel waits for exactly the response which frees its slot.
pub fn check_backpressure(p: &Program, log: &Log) -> Result<(), String> {
    let cl = channels(p, log);
    for (ctx, l) in log.iter().enumerate() {
        let mut sent = vec![0usize; p.chans.len()];
        for e in l {
            let (ch, is_send) = match p.ops[ctx].get(e.op) {
                Some(Op::Enq(ch, _)) => (*ch, true),
                Some(Op::Avail(ch)) => (*ch, false),
                _ => continue,
            };
            if e.out == Out::SendFailed {
                return Err(format!("ctx{ctx} op {}: the channel refused although its receiver keeps reading", e.op));
            }
            let chan = &p.chans[ch];
            let k = sent[ch];
            if is_send {
                sent[ch] += 1;
            }
            let Some(cap) = chan.cap else { continue };
            let want = if k >= cap {
                match cl[ch].takes.get(k - cap) {
                    Some(t) => e.before.max(t.1 + chan.rlat),
                    None => return Err(format!("ch{ch}: element {k} went into a full channel (capacity {cap})")),
                }
            } else {
                e.before
            };
            if e.after != want {
                return Err(format!(
                    "ctx{ctx} op {} ({}, element {k}, capacity {cap}) began at {} and finished at {}; the slot it needs is free at {}, so it must finish at {want}",
                    e.op, p.ops[ctx][e.op].text(), e.before, e.after,
                    if k >= cap { cl[ch].takes[k - cap].1 + chan.rlat } else { 0 }
                ));
            }
        }
    }
    Ok(())
}

/// What a peek says is true of everything which arrives afterwards.
pub fn check_peek(p: &Program, log: &Log) -> Result<(), String> {
    let cl = channels(p, log);
    // The k-th element of a channel, even if its receiver went away without taking it.
    let element = |ch: usize, k: usize| -> Option<(u64, u64)> {
        let c = &cl[ch];
        c.takes.get(k).map(|t| (t.2, t.3)).or_else(|| c.sends.get(k).map(|s| (s.2.max(s.1 + c.chan.lat), value(ch, k))))
    };
    for (ctx, l) in log.iter().enumerate() {
        let mut taken = vec![0usize; p.chans.len()];
        for e in l {
            let Some(op) = p.ops[ctx].get(e.op) else { continue };
            match (op, &e.out) {
                (Op::Deq(ch), Out::Got(..)) => taken[*ch] += 1,
                (Op::Peek(ch), out) => {
                    let next = element(*ch, taken[*ch]);
                    let place = format!("ctx{ctx} op {} (peek ch{ch} at clock {})", e.op, e.before);
                    if e.after != e.before {
                        return Err(format!("{place} moved the clock to {}", e.after));
                    }
                    match (out, next) {
                        (Out::Something(t, v), Some(n)) => {
                            if (*t, *v) != (n.0, n.1) {
                                return Err(format!("{place} saw {v:#x}@{t}, but the next element is {:#x}@{}", n.1, n.0));
                            }
                        }
                        (Out::Something(t, v), None) => {
                            return Err(format!("{place} saw {v:#x}@{t}, but nothing ever arrives"))
                        }
                        (Out::Nothing(u), n) => {
                            if *u < e.before {
                                return Err(format!("{place} only promises nothing up to {u}"));
                            }
                            if let Some(n) = n {
                                if n.0 <= *u {
                                    return Err(format!("{place} promised nothing up to {u}, but an element at {} follows", n.0));
                                }
                            }
                        }
                        (Out::PeekClosed, Some(n)) => {
                            return Err(format!("{place} said closed, but an element at {} follows", n.0))
                        }
                        _ => {}
                    }
                }
                (Op::PeekNext(ch), Out::Something(t, v)) => {
                    match element(*ch, taken[*ch]) {
                        Some(n) if (n.0, n.1) == (*t, *v) => {}
                        n => return Err(format!("ctx{ctx} op {}: peek_next gave {v:#x}@{t}, the next dequeue {n:?}", e.op)),
                    }
                    if e.after != e.before.max(*t) {
                        return Err(format!("ctx{ctx} op {}: peek_next of an element at {t} moved the clock from {} to {}", e.op, e.before, e.after));
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

/// Seeing the end of a channel costs no more time than its sender took to end it.
pub fn check_closing(p: &Program, log: &Log) -> Result<(), String> {
    for (ctx, l) in log.iter().enumerate() {
        for e in l {
            if let (Some(Op::Closed(ch, _, to)), Out::Closed(now)) = (p.ops[ctx].get(e.op), &e.out) {
                if *now < e.before || *now > *to {
                    return Err(format!(
                        "ctx{ctx} op {}: seeing ch{ch} closed moved the clock from {} to {now}; its sender ended before {to}",
                        e.op, e.before
                    ));
                }
                let mut dropped = None;
                for x in &log[p.chans[*ch].src] {
                    if matches!(p.ops[p.chans[*ch].src].get(x.op), Some(Op::DropSender(c)) if c == ch) {
                        dropped = Some(x.before);
                    }
                }
                if let Some(d) = dropped {
                    if *now > e.before.max(d + 1) {
                        return Err(format!(
                            "ctx{ctx} op {}: seeing ch{ch} closed moved the clock from {} to {now}, though its sender went away at {d}",
                            e.op, e.before
                        ));
                    }
                }
            }
        }
    }
    Ok(())
}

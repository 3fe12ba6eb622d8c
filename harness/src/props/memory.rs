//! C15 and C16: the memory unit and the DRAM.
use super::model::*;
use super::util::*;
use crate::gen::Gen;
use crate::runner::{Case, Part};
use crate::sim::Plan;
use dam::channel::ChannelElement;
use dam::context_tools::DAMType;
use dam::structures::Time;
use dam::templates::datastore::Behavior;
#[cfg(dam_verif)]
use dam::templates::dram::verif_hooks;
use dam::templates::dram::DRAM;
use dam::templates::pmu::{PMUReadBundle, PMUWriteBundle, PMU};
use dam::utility_contexts::FunctionContext;
use serde::Serialize;
use serde_json::json;

/// Should the constructors not compile (see `check.py`), everything about the DRAM is left out.
#[cfg(not(dam_verif))]
mod verif_hooks {
    use dam::templates::dram::*;
    pub fn config(_: usize, _: usize, _: dam::structures::Time, _: usize) -> DRAMConfig {
        unimplemented!()
    }
    pub fn read_bundle<I: Clone, D: Clone>(_: dam::channel::Receiver<I>, _: dam::channel::Receiver<I>, _: dam::channel::Sender<D>) -> DRAMReadBundle<I, D> {
        unimplemented!()
    }
    pub fn write_bundle<I: super::DAMType, D: super::DAMType, A: Clone>(_: dam::channel::Receiver<I>, _: dam::channel::Receiver<I>, _: dam::channel::Receiver<D>, _: dam::channel::Sender<A>) -> DRAMWriteBundle<I, D, A> {
        unimplemented!()
    }
}

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![
        ("C15", vec![
            Part { name: "streams", rule: "a memory unit with 0-3 read and 0-3 write ports fed by independent request streams over random channels, under one schedule; non-trivial when at least two reads and two writes are served and some address is both written and read", run: pmu_streams, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
            Part { name: "clients", rule: "1-3 clients of a memory unit which read, write and wait for replies (some with the addresses sent by other contexts, so that what is read is handed on to be written), with or without flavor inference, under one schedule; non-trivial when at least two reads and two writes are served and some address is both written and read", run: pmu_clients, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
        ]),
        ("C16", vec![
            Part { name: "streams", rule: "a DRAM with random configuration and 1-4 ports fed by independent request streams over random channels, under one schedule; non-trivial when at least three requests are served and two of them overlap in addresses", run: dram_streams, quick: (25_000, 2_500), thorough: (1_000_000, 100_000) },
            Part { name: "clients", rule: "1-3 clients of a DRAM which read, write and wait for replies, with or without flavor inference, under one schedule; non-trivial when at least three requests are served and two of them overlap in addresses", run: dram_clients, quick: (20_000, 2_000), thorough: (800_000, 80_000) },
        ]),
    ]
}

#[derive(Clone, Debug, Serialize)]
struct ReadPort {
    addr: Shape,
    resp: Shape,
    items: Vec<Item<u16>>,
    delays: Vec<u64>,
}

#[derive(Clone, Debug, Serialize)]
struct WritePort {
    addr: Shape,
    data: Shape,
    ack: Shape,
    addrs: Vec<Item<u16>>,
    values: Vec<Item<u64>>,
    delays: Vec<u64>,
}

fn draw_delays(g: &mut Gen) -> Vec<u64> {
    if g.chance(1, 2) {
        (0..g.usize(1, 3)).map(|_| g.small(12)).collect()
    } else {
        vec![]
    }
}

/// One element seen on a reply channel: its time and value.
type Seen<T> = Vec<Vec<(u64, T)>>;

#[derive(Clone)]
struct Served {
    tick: u64,
    feeds: Vec<Vec<Feed>>,
    sinks: Vec<Sink>,
    /// When, which port, which request of that port.
    log: Vec<(u64, usize, usize)>,
}

impl Served {
    /// The ports whose next request is the earliest, and its time.
    fn earliest(&mut self) -> (Vec<usize>, u64) {
        let heads: Vec<Option<u64>> = self
            .feeds
            .iter_mut()
            .map(|f| f.iter_mut().map(|x| x.head()).try_fold(0, |m, h| h.map(|h| m.max(h))))
            .collect();
        let Some(first) = heads.iter().flatten().min().copied() else { return (vec![], 0) };
        ((0..heads.len()).filter(|i| heads[*i] == Some(first)).collect(), first)
    }

    /// One pipeline of the memory unit: the earliest request first, one each cycle.
    fn step<T>(&mut self, what: &str, seen: &Seen<T>, mut right: impl FnMut(u64, usize, usize) -> Result<(), String>) -> Step<Served> {
        let (ports, at) = self.earliest();
        let depth = self.log.len();
        if ports.is_empty() {
            for (p, s) in self.sinks.iter().enumerate() {
                if seen[p].len() != s.times.len() {
                    return Step::Wrong(depth, format!("{what} port {p} gave {} replies, expected {}", seen[p].len(), s.times.len()));
                }
            }
            return Step::Done;
        }
        let mut wrong = String::new();
        let mut next = vec![];
        for p in ports {
            let mut s = self.clone();
            s.tick = s.tick.max(at);
            let k = s.feeds[p][0].next();
            for f in &mut s.feeds[p] {
                s.tick = f.take(s.tick).expect("its head was seen");
            }
            let now = s.tick;
            s.log.push((now, p, k));
            let t = s.sinks[p].push(&mut s.tick, now);
            s.tick += 1;
            let got = seen[p].get(k).map(|x| x.0);
            if got != Some(t) {
                wrong = format!("reply {k} of {what} port {p} came at {got:?}, expected {t} (served at {now})");
                continue;
            }
            match right(now, p, k) {
                Ok(()) => next.push(s),
                Err(e) => wrong = e,
            }
        }
        if next.is_empty() {
            Step::Wrong(depth, wrong)
        } else {
            Step::Next(next)
        }
    }
}

/// What a read at `now` gives after these writes (time, address, value).
fn latest(writes: &[(u64, usize, u64)], addr: usize, now: u64) -> u64 {
    writes.iter().filter(|w| w.1 == addr && w.0 <= now).max_by_key(|w| w.0).map_or(0, |w| w.2)
}

struct PmuSeen {
    reads: Seen<u64>,
    acks: Seen<bool>,
}

/// Compares what a memory unit did with what was asked of it.
fn judge_pmu(
    cells: usize,
    readers: (Vec<Vec<Feed>>, Vec<Sink>, Vec<Vec<u16>>),
    writers: (Vec<Vec<Feed>>, Vec<Sink>, Vec<Vec<(u16, u64)>>),
    seen: &PmuSeen,
    case: &mut Case,
) -> (usize, usize, bool) {
    let start = Served { tick: 0, feeds: writers.0, sinks: writers.1, log: vec![] };
    let found = explore(start, 32, |s| s.step("write", &seen.acks, |_, _, _| Ok(())));
    let ways = match found {
        None => {
            case.inconclusive = Some("too many ties among writes".into());
            return (0, 0, false);
        }
        Some(Err(e)) => {
            case.fail(e);
            return (0, 0, false);
        }
        Some(Ok(ways)) => ways,
    };
    let mut first_wrong = None;
    let mut counts = (0, 0, false);
    let mut fine = false;
    for w in ways {
        let writes: Vec<(u64, usize, u64)> = w
            .log
            .iter()
            .map(|(t, p, k)| {
                let (a, v) = writers.2[*p][*k];
                (*t, a as usize % cells, v)
            })
            .collect();
        let start = Served { tick: 0, feeds: readers.0.clone(), sinks: readers.1.clone(), log: vec![] };
        let found = explore(start, 1, |s| {
            s.step("read", &seen.reads, |now, p, k| {
                let addr = readers.2[p][k] as usize % cells;
                let want = latest(&writes, addr, now);
                let got = seen.reads[p][k].1;
                if got == want {
                    Ok(())
                } else {
                    Err(format!("read {k} of port {p}, of address {addr} at time {now}, gave {got}, expected {want}; writes (time, address, value): {writes:?}"))
                }
            })
        });
        match found {
            None => case.inconclusive = Some("too many ties among reads".into()),
            Some(Err(e)) => first_wrong = first_wrong.or(Some(e)),
            Some(Ok(r)) => {
                let both = r[0].log.iter().any(|(_, p, k)| writes.iter().any(|w| w.1 == readers.2[*p][*k] as usize % cells));
                counts = (r[0].log.len(), writes.len(), both);
                fine = true;
                break;
            }
        }
    }
    if let (false, None, Some(e)) = (fine, &case.inconclusive, first_wrong) {
        case.fail(e);
    }
    counts
}

pub fn pmu_streams(g: &mut Gen) -> Case {
    let cells = g.count(1, 4);
    let wraps = g.chance(1, 3);
    let infer = g.infer(1, 4);
    let bounded = !infer;
    let top = if wraps { 3 * cells as u64 } else { cells as u64 };
    let start = g.start();
    let readers: Vec<ReadPort> = (0..g.count(0, 3))
        .map(|_| {
            let n = g.length(0, 7);
            ReadPort { addr: Shape::draw(g, bounded, 3), resp: Shape::draw(g, true, 3), items: draw_items(g, n, |g, _| g.below(top) as u16), delays: draw_delays(g) }
        })
        .collect();
    let writers: Vec<WritePort> = (0..g.count(if readers.is_empty() { 1 } else { 0 }, 3))
        .map(|p| {
            let n = g.length(0, 7);
            let m = if g.chance(1, 6) { g.usize(0, 7) } else { n };
            WritePort {
                addr: Shape::draw(g, bounded, 3),
                data: Shape::draw(g, bounded, 3),
                ack: Shape::draw(g, true, 3),
                addrs: draw_items(g, n, |g, _| g.below(top) as u16),
                values: draw_items(g, m, |_, i| (p * 100 + i + 1) as u64),
                delays: draw_delays(g),
            }
        })
        .collect();
    let (mut readers, mut writers) = (readers, writers);
    readers.iter_mut().for_each(|r| later(&mut r.items, start));
    writers.iter_mut().for_each(|w| {
        later(&mut w.addrs, start);
        later(&mut w.values, start);
    });
    let plan = Plan::draw(g, 10_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{cells}{readers:?}{writers:?}{}{}", plan.seed, plan.policy)),
        sample: json!({"cells": cells, "read ports": readers, "write ports": writers, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };
    let logs = shared((vec![], vec![]));
    let out = simulate(&plan, infer, |b| {
        let mut pmu = PMU::<u64, u16, bool>::new(cells, Behavior { mod_address: wraps, use_default_value: true });
        for r in &readers {
            let (s, addr) = r.addr.make(b);
            feeder(b, s, r.items.clone());
            let (resp, d) = r.resp.make(b);
            logs.lock().unwrap().0.push(drainer(b, d, r.delays.clone()));
            pmu.add_reader(PMUReadBundle { addr, resp });
        }
        for w in &writers {
            let (s, addr) = w.addr.make(b);
            feeder(b, s, w.addrs.clone());
            let (s, data) = w.data.make(b);
            feeder(b, s, w.values.clone());
            let (ack, d) = w.ack.make(b);
            logs.lock().unwrap().1.push(drainer(b, d, w.delays.clone()));
            pmu.add_writer(PMUWriteBundle { addr, data, ack });
        }
        b.add_child(pmu);
    });
    case.class("bounded", bounded);
    match out.done() {
        Ok(s) if s.passed => {}
        Ok(s) => case.fail(format!("failures: {:?}", s.failures)),
        Err(e) => case.fail(e),
    }
    if case.violation.is_some() {
        return case;
    }
    let (rl, wl) = take(&logs);
    let seen = PmuSeen {
        reads: rl.iter().map(|l| take(l).into_iter().map(|x| (x.0, x.2)).collect()).collect(),
        acks: wl.iter().map(|l| take(l).into_iter().map(|x| (x.0, x.2)).collect()).collect(),
    };
    case.history = Some(seen.reads.iter().map(|r| format!("{r:?}")).chain(seen.acks.iter().map(|a| format!("{a:?}"))).collect());
    let r = (
        readers.iter().map(|r| vec![Feed::new(&r.items, r.addr)]).collect(),
        readers.iter().map(|r| Sink::new(r.resp, &r.delays)).collect(),
        readers.iter().map(|r| r.items.iter().map(|i| i.value).collect()).collect(),
    );
    let w = (
        writers.iter().map(|w| vec![Feed::new(&w.addrs, w.addr), Feed::new(&w.values, w.data)]).collect(),
        writers.iter().map(|w| Sink::new(w.ack, &w.delays)).collect(),
        writers.iter().map(|w| w.addrs.iter().zip(&w.values).map(|(a, v)| (a.value, v.value)).collect()).collect(),
    );
    let (reads, writes, both) = judge_pmu(cells, r, w, &seen, &mut case);
    case.nontrivial = reads >= 2 && writes >= 2 && both;
    case.class("several ports on a side", readers.len() > 1 || writers.len() > 1);
    case
}

/// What a client does.
#[derive(Clone, Debug, Serialize)]
enum Ask {
    Wait(u64),
    /// Address, size, how far ahead, and whether the reply is waited for at once.
    Read(u16, u16, u64, bool),
    /// The same; the values are one more than the last one read, or fresh.
    Write(u16, u16, u64, bool, bool),
}

/// One pair of bundles of a client.
#[derive(Clone, Debug, Serialize)]
struct Port {
    addr: Shape,
    resp: Shape,
    waddr: Shape,
    data: Shape,
    ack: Shape,
    size: Shape,
    wsize: Shape,
    reads: bool,
    writes: bool,
    /// How the context which takes the acknowledgements (see `Client::apart`) delays.
    delays: Vec<u64>,
    /// The addresses are sent by contexts of their own: those of the reads and of the writes.
    fed: Option<(Vec<Item<u16>>, Vec<Item<u16>>)>,
}

#[derive(Clone, Debug, Serialize)]
struct Client {
    /// Which port, and what of it.
    asks: Vec<(usize, Ask)>,
    ports: Vec<Port>,
    /// Another context takes the acknowledgements.
    apart: bool,
}

fn draw_client(g: &mut Gen, cells: u64, top: u64, max_size: u64, infer: bool, start: u64, feeding: bool) -> Client {
    let n = if g.chance(1, 3) { 2 } else { 1 };
    let kinds: Vec<(bool, bool)> = (0..n)
        .map(|_| {
            let reads = !g.chance(1, if n == 1 { 6 } else { 3 });
            (reads, !reads || !g.chance(1, 6))
        })
        .collect();
    let apart = g.chance(1, 3);
    // What a client sends must find room without what it does later, which is so when it asks
    // with all parts of a request at once; and with flavor inference, only channels on a cycle may have bounds here
    // (finding F-INFER), which takes a reply to come back.
    let bounded = g.chance(1, 2) && (!infer || !apart || kinds.iter().any(|k| k.0));
    let mut asks: Vec<(usize, Ask)> = (0..g.length(1, 9))
        .map(|_| {
            let port = g.below(n) as usize;
            let (reads, writes) = kinds[port];
            let ask = match g.weighted(&[1, if reads { 3 } else { 0 }, if writes { 3 } else { 0 }]) {
                0 => Ask::Wait(g.small(30)),
                k => {
                    let size = 1 + g.below(max_size.min(cells)) as u16;
                    let addr = g.below(if top > cells { top } else { cells + 1 - size as u64 }) as u16;
                    let ahead = if g.chance(1, 4) { g.small(12) } else { 0 };
                    let wait = g.chance(2, 3);
                    if k == 1 {
                        Ask::Read(addr, size, ahead, wait)
                    } else {
                        Ask::Write(addr, size, ahead, wait, g.chance(1, 3))
                    }
                }
            };
            (port, ask)
        })
        .collect();
    if start > 0 {
        asks.insert(0, (0, Ask::Wait(start)));
    }
    let ports = kinds
        .iter()
        .map(|(reads, writes)| {
            let s = |g: &mut Gen| Shape::draw(g, bounded, 3);
            Port {
                addr: s(g),
                resp: Shape::draw(g, false, 1),
                waddr: s(g),
                data: s(g),
                ack: Shape::draw(g, apart, 3),
                size: s(g),
                wsize: s(g),
                reads: *reads,
                writes: *writes,
                delays: if apart { draw_delays(g) } else { vec![] },
                fed: None,
            }
        })
        .collect();
    let mut ports: Vec<Port> = ports;
    for (i, p) in ports.iter_mut().enumerate() {
        if !feeding || !g.chance(1, 5) {
            continue;
        }
        let mut lists: Vec<Vec<Item<u16>>> = [false, true]
            .iter()
            .map(|writes| {
                let list: Vec<u16> = asks
                    .iter()
                    .filter_map(|(port, a)| match a {
                        Ask::Read(addr, ..) if *port == i && !writes => Some(*addr),
                        Ask::Write(addr, ..) if *port == i && *writes => Some(*addr),
                        _ => None,
                    })
                    .collect();
                let mut items = draw_items(g, list.len(), |_, i| list[i]);
                later(&mut items, start);
                items
            })
            .collect();
        let writes = lists.pop().unwrap();
        p.fed = Some((lists.pop().unwrap(), writes));
        if infer {
            // Not on a cycle.
            p.addr.cap = None;
            p.waddr.cap = None;
        }
    }
    Client { asks, ports, apart }
}

/// Everything a client sent and got, with times.
#[derive(Clone, Debug, Default)]
struct ClientLog {
    /// Time of the address, of the size, address, size.
    reads: Vec<(u64, u64, u16, u16)>,
    writes: Vec<(u64, u64, u16, u16)>,
    data: Vec<(u64, u64)>,
    resps: Vec<(u64, u64)>,
    acks: Vec<u64>,
    done: bool,
}

type Chan<T> = (Option<dam::channel::Sender<T>>, Option<dam::channel::Receiver<T>>);

struct Ends<D: Clone> {
    addr: Option<dam::channel::Sender<u16>>,
    size: Option<dam::channel::Sender<u16>>,
    resp: Option<dam::channel::Receiver<D>>,
    waddr: Option<dam::channel::Sender<u16>>,
    wsize: Option<dam::channel::Sender<u16>>,
    data: Option<dam::channel::Sender<D>>,
    ack: Option<dam::channel::Receiver<bool>>,
}

/// What a client (and the contexts taking its acknowledgements) did, per port.
struct ClientOut {
    logs: Shared<Vec<ClientLog>>,
    acks: Vec<Option<Shared<Taken<bool>>>>,
}

impl ClientOut {
    fn logs(&self) -> Vec<ClientLog> {
        let mut logs = take(&self.logs);
        for (l, a) in logs.iter_mut().zip(&self.acks) {
            if let Some(a) = a {
                l.acks = take(a).iter().map(|x| x.0).collect();
            }
        }
        logs
    }
}

/// Adds a client context; what it does goes into the returned logs, one per port.
fn client<'a, D: DAMType + 'a>(b: &mut dam::simulation::ProgramBuilder<'a>, c: &Client, id: usize, mut ends: Vec<Ends<D>>, make: fn(u64) -> D, value: fn(&D) -> u64) -> ClientOut {
    let log = shared(vec![ClientLog::default(); c.ports.len()]);
    let out = log.clone();
    let c = c.clone();
    let mut fc = FunctionContext::new();
    let mut drains = vec![];
    for (p, e) in c.ports.iter().zip(&mut ends) {
        if let Some((reads, writes)) = &p.fed {
            if let Some(s) = e.addr.take() {
                feeder(b, s, reads.clone());
            }
            if let Some(s) = e.waddr.take() {
                feeder(b, s, writes.clone());
            }
        }
        if p.reads {
            if let Some(s) = &e.addr {
                s.attach_sender(&fc);
            }
            e.resp.as_ref().unwrap().attach_receiver(&fc);
            if let Some(s) = &e.size {
                s.attach_sender(&fc);
            }
        }
        let mut drain = None;
        if p.writes {
            if let Some(s) = &e.waddr {
                s.attach_sender(&fc);
            }
            e.data.as_ref().unwrap().attach_sender(&fc);
            if let Some(s) = &e.wsize {
                s.attach_sender(&fc);
            }
            if c.apart {
                drain = Some(drainer(b, e.ack.take().unwrap(), p.delays.clone()));
            } else {
                e.ack.as_ref().unwrap().attach_receiver(&fc);
            }
        }
        drains.push(drain);
    }
    fc.set_run(move |time| {
        let mut logs = vec![ClientLog::default(); c.ports.len()];
        let mut last = 0u64;
        let mut fresh = (id as u64 + 1) * 1000;
        let mut wanted = vec![(0usize, 0usize); c.ports.len()];
        for (port, a) in &c.asks {
            let p = &c.ports[*port];
            let e = &ends[*port];
            let l = &mut logs[*port];
            let (want_resps, want_acks) = &mut wanted[*port];
            // When an element asked for at `t` and just sent over a channel arrives.
            let lands = |t: u64, s: &Shape| t.max(time.tick().time() + s.lat);
            match a {
                Ask::Wait(d) => time.incr_cycles(*d),
                Ask::Read(addr, size, ahead, wait) => {
                    let t = (time.tick() + *ahead).time();
                    if let Some(s) = &e.addr {
                        s.enqueue(time, ChannelElement::new(Time::new(t), *addr)).expect("the memory is there");
                    }
                    let t1 = lands(t, &p.addr);
                    if let Some(s) = &e.size {
                        s.enqueue(time, ChannelElement::new(Time::new(t), *size)).expect("the memory is there");
                    }
                    let t2 = lands(t, &p.size);
                    l.reads.push((t1, t2, *addr, *size));
                    *want_resps += *size as usize;
                    if *wait {
                        while l.resps.len() < *want_resps {
                            let ce = e.resp.as_ref().unwrap().dequeue(time).expect("a reply");
                            last = value(&ce.data);
                            l.resps.push((ce.time.time(), last));
                        }
                    }
                }
                Ask::Write(addr, size, ahead, wait, bump) => {
                    let t = (time.tick() + *ahead).time();
                    if let Some(s) = &e.waddr {
                        s.enqueue(time, ChannelElement::new(Time::new(t), *addr)).expect("the memory is there");
                    }
                    let t1 = lands(t, &p.waddr);
                    if let Some(s) = &e.wsize {
                        s.enqueue(time, ChannelElement::new(Time::new(t), *size)).expect("the memory is there");
                    }
                    let t2 = lands(t, &p.wsize);
                    for i in 0..*size as u64 {
                        fresh += 1;
                        let v = if *bump { last + 1 + i } else { fresh };
                        e.data.as_ref().unwrap().enqueue(time, ChannelElement::new(Time::new(t), make(v))).expect("the memory is there");
                        l.data.push((lands(t, &p.data), v));
                    }
                    l.writes.push((t1, t2, *addr, *size));
                    *want_acks += 1;
                    if *wait && !c.apart {
                        while l.acks.len() < *want_acks {
                            let ce = e.ack.as_ref().unwrap().dequeue(time).expect("an acknowledgement");
                            l.acks.push(ce.time.time());
                        }
                    }
                }
            }
        }
        let mut replies = vec![];
        for Ends { addr, size, resp, waddr, wsize, data, ack } in ends {
            drop((addr, size, waddr, wsize, data));
            replies.push((resp, ack));
        }
        for ((resp, ack), l) in replies.into_iter().zip(&mut logs) {
            if let Some(r) = resp {
                while let Ok(ce) = r.dequeue(time) {
                    l.resps.push((ce.time.time(), value(&ce.data)));
                }
            }
            if let Some(r) = ack {
                while let Ok(ce) = r.dequeue(time) {
                    l.acks.push(ce.time.time());
                }
            }
            l.done = true;
        }
        *out.lock().unwrap() = logs;
    });
    b.add_child(fc);
    ClientOut { logs: log, acks: drains }
}

fn channel<'a, T: DAMType + 'a>(b: &mut dam::simulation::ProgramBuilder<'a>, on: bool, s: &Shape) -> Chan<T> {
    if on {
        let (a, z) = s.make(b);
        (Some(a), Some(z))
    } else {
        (None, None)
    }
}

pub fn pmu_clients(g: &mut Gen) -> Case {
    let cells = g.count(1, 4);
    let wraps = g.chance(1, 3);
    let infer = g.infer(1, 2);
    let top = if wraps { 3 * cells as u64 } else { cells as u64 };
    let start = g.start();
    let clients: Vec<Client> = (0..g.count(1, 3)).map(|_| draw_client(g, cells as u64, top, 1, infer, start, true)).collect();
    let plan = Plan::draw(g, 10_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{cells}{clients:?}{infer}{}{}", plan.seed, plan.policy)),
        sample: json!({"cells": cells, "clients": clients, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };
    let logs = shared(vec![]);
    let out = simulate(&plan, infer, |b| {
        let mut pmu = PMU::<u64, u16, bool>::new(cells, Behavior { mod_address: wraps, use_default_value: true });
        for (i, c) in clients.iter().enumerate() {
            let mut ends = vec![];
            for p in &c.ports {
                let addr = channel(b, p.reads, &p.addr);
                let resp = channel(b, p.reads, &p.resp);
                let waddr = channel(b, p.writes, &p.waddr);
                let data = channel(b, p.writes, &p.data);
                let ack = channel(b, p.writes, &p.ack);
                if p.reads {
                    pmu.add_reader(PMUReadBundle { addr: addr.1.unwrap(), resp: resp.0.unwrap() });
                }
                if p.writes {
                    pmu.add_writer(PMUWriteBundle { addr: waddr.1.unwrap(), data: data.1.unwrap(), ack: ack.0.unwrap() });
                }
                ends.push(Ends { addr: addr.0, size: None, resp: resp.1, waddr: waddr.0, wsize: None, data: data.0, ack: ack.1 });
            }
            let l = client(b, c, i, ends, |v| v, |v| *v);
            logs.lock().unwrap().push(l);
        }
        b.add_child(pmu);
    });
    case.class("flavor inference", infer);
    case.class("bounded request channels", clients.iter().flat_map(|c| &c.ports).any(|p| p.waddr.cap.is_some() || p.addr.cap.is_some()));
    case.class("somebody else takes the acknowledgements", clients.iter().any(|c| c.apart));
    case.class("a client with two ports", clients.iter().any(|c| c.ports.len() > 1));
    case.class("addresses sent by others", clients.iter().any(|c| c.ports.iter().any(|p| p.fed.is_some())));
    match out.done() {
        Ok(s) if s.passed => {}
        Ok(s) => case.fail(format!("failures: {:?}", s.failures)),
        Err(e) => case.fail(e),
    }
    if case.violation.is_some() {
        return case;
    }
    let logs: Vec<ClientLog> = logs.lock().unwrap().iter().flat_map(|l: &ClientOut| l.logs()).collect();
    let ports: Vec<&Port> = clients.iter().flat_map(|c| &c.ports).collect();
    case.history = Some(logs.iter().map(|l| format!("{l:?}")).collect());
    let rs: Vec<usize> = (0..ports.len()).filter(|i| ports[*i].reads).collect();
    let ws: Vec<usize> = (0..ports.len()).filter(|i| ports[*i].writes).collect();
    let seen = PmuSeen {
        reads: rs.iter().map(|i| logs[*i].resps.clone()).collect(),
        acks: ws.iter().map(|i| logs[*i].acks.iter().map(|t| (*t, true)).collect()).collect(),
    };
    let r = (
        rs.iter().map(|i| vec![match &ports[*i].fed {
            Some(f) => Feed::new(&f.0, ports[*i].addr),
            None => Feed::fixed(logs[*i].reads.iter().map(|r| r.0).collect()),
        }]).collect(),
        rs.iter().map(|i| Sink::new(ports[*i].resp, &[])).collect(),
        rs.iter().map(|i| logs[*i].reads.iter().map(|r| r.2).collect()).collect(),
    );
    let w = (
        ws.iter().map(|i| vec![match &ports[*i].fed {
                Some(f) => Feed::new(&f.1, ports[*i].waddr),
                None => Feed::fixed(logs[*i].writes.iter().map(|w| w.0).collect()),
            }, Feed::fixed(logs[*i].data.iter().map(|d| d.0).collect())]).collect(),
        ws.iter().map(|i| Sink::new(ports[*i].ack, &ports[*i].delays)).collect(),
        ws.iter().map(|i| logs[*i].writes.iter().zip(&logs[*i].data).map(|(w, d)| (w.2, d.1)).collect()).collect(),
    );
    let (reads, writes, both) = judge_pmu(cells, r, w, &seen, &mut case);
    case.nontrivial = reads >= 2 && writes >= 2 && both;
    case
}

/// A value whose size depends on it.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Word(pub u64);

/// What every Word of a DRAM measures, by its value.
fn bits(v: u64) -> u64 {
    [8, 16, 5, 64, 0, 32, 1][(v % 7) as usize]
}

impl DAMType for Word {
    fn dam_size(&self) -> usize {
        bits(self.0) as usize
    }
}

#[derive(Clone, Debug, Serialize)]
struct Bank {
    requests: usize,
    bandwidth: usize,
    latency: u64,
    cells: usize,
    wraps: bool,
    filled: bool,
}

impl Bank {
    fn draw(g: &mut Gen) -> Self {
        Bank {
            requests: g.count(1, 3),
            bandwidth: *g.pick(&[8, 1, 3, 16, 64, 200]),
            latency: g.small(40),
            cells: g.count(1, 6),
            wraps: g.chance(1, 4),
            filled: g.chance(1, 2),
        }
    }

    fn make<'a>(&self) -> DRAM<u16, Word, bool> {
        let mut d = DRAM::new(
            verif_hooks::config(self.requests, self.bandwidth, Time::new(self.latency), self.cells),
            Behavior { mod_address: self.wraps, use_default_value: true },
        );
        if self.filled {
            d.fill(|i| Word(50_000 + 3 * i as u64));
        }
        d
    }

    fn start(&self) -> Vec<u64> {
        (0..self.cells).map(|i| if self.filled { 50_000 + 3 * i as u64 } else { 0 }).collect()
    }
}

#[derive(Clone)]
struct DramState {
    tick: u64,
    windows: std::collections::VecDeque<u64>,
    cells: Vec<u64>,
    /// Address, size and (for writes) data.
    feeds: Vec<Vec<Feed>>,
    sinks: Vec<Sink>,
    served: usize,
    /// A window was opened for the next request already.
    opened: bool,
}

struct DramAsked {
    /// Of each port: whether it writes, the address and size of each request, the values.
    ports: Vec<(bool, Vec<(u16, u16)>, Vec<u64>)>,
    /// Of each port: time and value of each reply (of acknowledgements only the time counts).
    seen: Seen<u64>,
}

impl DramState {
    fn step(&mut self, bank: &Bank, asked: &DramAsked) -> Step<DramState> {
        if !self.opened && self.windows.len() == bank.requests {
            let t = self.windows.pop_front().expect("at least one");
            self.tick = self.tick.max(t);
        }
        self.opened = true;
        let heads: Vec<Option<u64>> = self
            .feeds
            .iter_mut()
            .map(|f| f.iter_mut().map(|x| x.head()).try_fold(0, |m, h| h.map(|h| m.max(h))))
            .collect();
        let Some(first) = heads.iter().flatten().min().copied() else {
            for (p, s) in self.sinks.iter().enumerate() {
                if asked.seen[p].len() != s.times.len() {
                    return Step::Wrong(self.served, format!("port {p} gave {} replies, expected {}", asked.seen[p].len(), s.times.len()));
                }
            }
            return Step::Done;
        };
        let mut wrong = String::new();
        let mut next = vec![];
        for p in 0..heads.len() {
            if heads[p] != Some(first) {
                continue;
            }
            let mut s = self.clone();
            match s.serve(p, first, bank, asked) {
                Ok(()) => next.push(s),
                Err(e) => wrong = e,
            }
        }
        if next.is_empty() {
            Step::Wrong(self.served, wrong)
        } else {
            Step::Next(next)
        }
    }

    fn serve(&mut self, p: usize, at: u64, bank: &Bank, asked: &DramAsked) -> Result<(), String> {
        self.tick = self.tick.max(at);
        let previous = self.windows.back().copied().unwrap_or(0);
        let k = self.feeds[p][0].next();
        let (writes, requests, values) = &asked.ports[p];
        let (addr, size) = requests[k];
        let (addr, size) = (addr as usize, size as usize);
        for i in 0..2 {
            self.tick = self.feeds[p][i].take(self.tick).expect("its head was seen");
        }
        let expect = |s: &mut DramState, at: u64, value: Option<u64>| -> Result<(), String> {
            let n = s.sinks[p].times.len();
            let t = s.sinks[p].push(&mut s.tick, at);
            match asked.seen[p].get(n) {
                Some((time, v)) if *time == t && value.map_or(true, |x| x == *v) => Ok(()),
                got => Err(format!(
                    "reply {n} of port {p} (request {k}: address {addr}, size {size}, {}) is {got:?} (time, value), expected time {t}{}",
                    if *writes { "write" } else { "read" },
                    value.map_or(String::new(), |v| format!(" and value {v}"))
                )),
            }
        };
        if *writes {
            let mut amount = 0;
            let mut new = vec![];
            for _ in 0..size {
                let v = values[self.feeds[p][2].next()];
                self.tick = self.feeds[p][2].take(self.tick).ok_or("not enough data")?;
                amount += bits(v);
                new.push(v);
            }
            let start = (self.tick + bank.latency).max(previous);
            let end = start + amount / bank.bandwidth as u64;
            for (i, v) in new.into_iter().enumerate() {
                self.cells[(addr + i) % bank.cells] = v;
            }
            expect(self, end + 1, None)?;
            self.windows.push_back(self.tick.max(end) + 1);
        } else {
            let start = (self.tick + bank.latency).max(previous);
            let got: Vec<u64> = (0..size).map(|i| self.cells[(addr + i) % bank.cells]).collect();
            let mut end = start + got.iter().map(|v| bits(*v)).sum::<u64>() / bank.bandwidth as u64;
            for v in got {
                end = (self.tick + 1).max(end + 1);
                expect(self, end, Some(v))?;
            }
            self.windows.push_back(end);
        }
        self.served += 1;
        self.opened = false;
        Ok(())
    }
}

fn judge_dram(bank: &Bank, feeds: Vec<Vec<Feed>>, sinks: Vec<Sink>, asked: &DramAsked, case: &mut Case) {
    let start = DramState { tick: 0, windows: Default::default(), cells: bank.start(), feeds, sinks, served: 0, opened: false };
    match explore(start, 1, |s| s.step(bank, asked)) {
        None => case.inconclusive = Some("too many ties".into()),
        Some(Err(e)) => case.fail(e),
        Some(Ok(done)) => {
            let mut ranges = vec![];
            let mut overlap = false;
            for (_, requests, _) in &asked.ports {
                for (a, s) in requests {
                    for i in 0..*s as usize {
                        let x = (*a as usize + i) % bank.cells;
                        overlap |= ranges.contains(&x);
                    }
                    ranges.extend((0..*s as usize).map(|i| (*a as usize + i) % bank.cells));
                }
            }
            case.nontrivial = done[0].served >= 3 && overlap;
        }
    }
}

#[derive(Clone, Debug, Serialize)]
struct DramPort {
    writes: bool,
    shapes: [Shape; 4],
    addrs: Vec<Item<u16>>,
    sizes: Vec<Item<u16>>,
    values: Vec<Item<u64>>,
    delays: Vec<u64>,
}

pub fn dram_streams(g: &mut Gen) -> Case {
    let bank = Bank::draw(g);
    let infer = g.infer(1, 4);
    let n_cells = bank.cells as u64;
    let start = g.start();
    let mut ports: Vec<DramPort> = (0..g.count(1, 4))
        .map(|p| {
            let writes = g.chance(1, 2);
            let n = g.length(0, 5);
            let requests: Vec<(u16, u16)> = (0..n)
                .map(|_| {
                    let size = if writes || !g.chance(1, 10) { 1 + g.below(n_cells.min(4)) } else { 0 };
                    let addr = g.below(if bank.wraps { 3 * n_cells } else { n_cells + 1 - size });
                    (addr as u16, size as u16)
                })
                .collect();
            let m = if g.chance(1, 8) { g.usize(0, n) } else { n };
            let total: usize = requests.iter().map(|r| r.1 as usize).sum();
            let shapes = std::array::from_fn(|i| Shape::draw(g, i == 3 || !infer, 3));
            DramPort {
                writes,
                shapes,
                addrs: draw_items(g, n, |_, i| requests[i].0),
                sizes: draw_items(g, m, |_, i| requests[i].1),
                values: if writes { draw_items(g, total, |_, i| (p as u64 + 1) * 1000 + i as u64) } else { vec![] },
                delays: draw_delays(g),
            }
        })
        .collect();
    ports.iter_mut().for_each(|p| {
        later(&mut p.addrs, start);
        later(&mut p.sizes, start);
        later(&mut p.values, start);
    });
    let plan = Plan::draw(g, 10_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{bank:?}{ports:?}{}{}", plan.seed, plan.policy)),
        sample: json!({"bank": bank, "ports": ports, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };
    let logs = shared(vec![]);
    let out = simulate(&plan, infer, |b| {
        let mut dram = bank.make();
        for p in &ports {
            let (s, addr) = p.shapes[0].make(b);
            feeder(b, s, p.addrs.clone());
            let (s, size) = p.shapes[1].make(b);
            feeder(b, s, p.sizes.clone());
            if p.writes {
                let (s, data) = p.shapes[2].make(b);
                feeder(b, s, p.values.iter().map(|i| Item { wait: i.wait, ahead: i.ahead, value: Word(i.value) }).collect());
                let (ack, r) = p.shapes[3].make::<bool>(b);
                logs.lock().unwrap().push((Some(drainer(b, r, p.delays.clone())), None));
                dram.add_writer(verif_hooks::write_bundle(addr, size, data, ack));
            } else {
                let (data, r) = p.shapes[3].make::<Word>(b);
                logs.lock().unwrap().push((None, Some(drainer(b, r, p.delays.clone()))));
                dram.add_reader(verif_hooks::read_bundle(addr, size, data));
            }
        }
        b.add_child(dram);
    });
    match out.done() {
        Ok(s) if s.passed => {}
        Ok(s) => case.fail(format!("failures: {:?}", s.failures)),
        Err(e) => case.fail(e),
    }
    if case.violation.is_some() {
        return case;
    }
    let logs: Vec<(Option<Shared<Taken<bool>>>, Option<Shared<Taken<Word>>>)> = take(&logs);
    let seen: Vec<Vec<(u64, u64)>> = logs
        .iter()
        .map(|(a, d)| match (a, d) {
            (Some(a), _) => take(a).iter().map(|x| (x.0, 0)).collect(),
            (_, Some(d)) => take(d).iter().map(|x| (x.0, x.2 .0)).collect(),
            _ => vec![],
        })
        .collect();
    case.history = Some(seen.iter().map(|s| format!("{s:?}")).collect());
    let asked = DramAsked {
        ports: ports
            .iter()
            .map(|p| (p.writes, p.addrs.iter().zip(&p.sizes).map(|(a, s)| (a.value, s.value)).collect(), p.values.iter().map(|v| v.value).collect()))
            .collect(),
        seen,
    };
    let feeds = ports
        .iter()
        .map(|p| {
            let mut v = vec![Feed::new(&p.addrs, p.shapes[0]), Feed::new(&p.sizes, p.shapes[1])];
            if p.writes {
                v.push(Feed::new(&p.values, p.shapes[2]));
            }
            v
        })
        .collect();
    let sinks = ports.iter().map(|p| Sink::new(p.shapes[3], &p.delays)).collect();
    judge_dram(&bank, feeds, sinks, &asked, &mut case);
    case.class("one request at a time", bank.requests == 1);
    case.class("filled", bank.filled);
    case.class("several ports", ports.len() > 1);
    case.class("flavor inference", infer);
    case
}

pub fn dram_clients(g: &mut Gen) -> Case {
    let bank = Bank::draw(g);
    let infer = g.infer(1, 2);
    let n_cells = bank.cells as u64;
    let start = g.start();
    let clients: Vec<Client> = (0..g.count(1, 3)).map(|_| draw_client(g, n_cells, if bank.wraps { 3 * n_cells } else { n_cells }, 3, infer, start, false)).collect();
    let plan = Plan::draw(g, 10_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{bank:?}{clients:?}{infer}{}{}", plan.seed, plan.policy)),
        sample: json!({"bank": bank, "clients": clients, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };
    let logs = shared(vec![]);
    let out = simulate(&plan, infer, |b| {
        let mut dram = bank.make();
        for (i, c) in clients.iter().enumerate() {
            let mut ends = vec![];
            for p in &c.ports {
                let addr = channel(b, p.reads, &p.addr);
                let size = channel(b, p.reads, &p.size);
                let resp = channel(b, p.reads, &p.resp);
                let waddr = channel(b, p.writes, &p.waddr);
                let wsize = channel(b, p.writes, &p.wsize);
                let data = channel(b, p.writes, &p.data);
                let ack = channel(b, p.writes, &p.ack);
                if p.reads {
                    dram.add_reader(verif_hooks::read_bundle(addr.1.unwrap(), size.1.unwrap(), resp.0.unwrap()));
                }
                if p.writes {
                    dram.add_writer(verif_hooks::write_bundle(waddr.1.unwrap(), wsize.1.unwrap(), data.1.unwrap(), ack.0.unwrap()));
                }
                ends.push(Ends { addr: addr.0, size: size.0, resp: resp.1, waddr: waddr.0, wsize: wsize.0, data: data.0, ack: ack.1 });
            }
            let l = client(b, c, i, ends, Word, |w| w.0);
            logs.lock().unwrap().push(l);
        }
        b.add_child(dram);
    });
    case.class("flavor inference", infer);
    case.class("bounded request channels", clients.iter().flat_map(|c| &c.ports).any(|p| p.waddr.cap.is_some() || p.addr.cap.is_some()));
    case.class("somebody else takes the acknowledgements", clients.iter().any(|c| c.apart));
    case.class("a client with two ports", clients.iter().any(|c| c.ports.len() > 1));
    match out.done() {
        Ok(s) if s.passed => {}
        Ok(s) => case.fail(format!("failures: {:?}", s.failures)),
        Err(e) => case.fail(e),
    }
    if case.violation.is_some() {
        return case;
    }
    let logs: Vec<ClientLog> = logs.lock().unwrap().iter().flat_map(|l: &ClientOut| l.logs()).collect();
    let ports: Vec<&Port> = clients.iter().flat_map(|c| &c.ports).collect();
    case.history = Some(logs.iter().map(|l| format!("{l:?}")).collect());
    let (mut feeds, mut sinks) = (vec![], vec![]);
    let mut asked = DramAsked { ports: vec![], seen: vec![] };
    for (c, l) in ports.iter().zip(&logs) {
        if c.reads {
            feeds.push(vec![Feed::fixed(l.reads.iter().map(|r| r.0).collect()), Feed::fixed(l.reads.iter().map(|r| r.1).collect())]);
            sinks.push(Sink::new(c.resp, &[]));
            asked.ports.push((false, l.reads.iter().map(|r| (r.2, r.3)).collect(), vec![]));
            asked.seen.push(l.resps.clone());
        }
        if c.writes {
            feeds.push(vec![
                Feed::fixed(l.writes.iter().map(|r| r.0).collect()),
                Feed::fixed(l.writes.iter().map(|r| r.1).collect()),
                Feed::fixed(l.data.iter().map(|r| r.0).collect()),
            ]);
            sinks.push(Sink::new(c.ack, &c.delays));
            asked.ports.push((true, l.writes.iter().map(|r| (r.2, r.3)).collect(), l.data.iter().map(|d| d.1).collect()));
            asked.seen.push(l.acks.iter().map(|t| (*t, 0)).collect());
        }
    }
    judge_dram(&bank, feeds, sinks, &asked, &mut case);
    case
}

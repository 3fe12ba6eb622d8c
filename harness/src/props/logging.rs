//! C20: logging.
use super::util::*;
use crate::gen::Gen;
use crate::prog::{generate, Dress, Kind, Knobs, LogSetup, Op, Out, Program, Ran};
use crate::runner::{Case, Part};
use crate::sim::Plan;
use bson::Bson;
use crossbeam::channel::{unbounded, Receiver};
use dam::channel::ChannelElement;
use dam::context_tools::*;
use dam::logging::registry::get_metrics_vec;
use dam::logging::*;
use dam::structures::{Identifiable, Identifier, Time, TimeManager};
use dam::templates::datastore::Behavior;
use dam::templates::pmu::{PMUReadBundle, PMUWriteBundle, PMU};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[cfg(feature = "mongo")]
pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![("C20", vec![
        Part { name: "database", rule: "as programs, but with the library's own logger writing to a database (a stand-in on the loopback network), under one filter for all contexts or one each, some contexts being parts of composites which hand on their logger; non-trivial when at least two contexts record something and something is filtered out", run: database, quick: (0, 240), thorough: (0, 4_000) },
    ])]
}

#[cfg(not(feature = "mongo"))]
pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![("C20", vec![
        Part { name: "interface", rule: "events of four harness types and of attaching receivers, logged directly and deferred on one thread, under changing loggers, filters and clocks; non-trivial when a filter lets some events through and keeps some out", run: interface, quick: (20_000, 3_000), thorough: (600_000, 100_000) },
        Part { name: "programs", rule: "a random feasible program whose contexts each have their own filter (or no logger), under one schedule, against the operations they performed; non-trivial when at least two contexts record something and something is filtered out", run: programs, quick: (12_000, 2_000), thorough: (500_000, 60_000) },
        Part { name: "units", rule: "a memory unit with its own reader and writer threads and library contexts, run with and without logging; non-trivial when reader and writer both record events", run: units, quick: (6_000, 1_500), thorough: (250_000, 40_000) },
    ])]
}

/// The private fields of an entry, read through its serialised form.
#[derive(Debug, Clone, Deserialize)]
pub struct Entry {
    pub timestamp: i64,
    pub context: usize,
    pub ticks: Time,
    pub event_type: String,
    pub event_data: Bson,
}

impl Entry {
    fn tick(&self) -> (u64, bool) {
        (self.ticks.time(), self.ticks.is_infinite())
    }
    /// An enum variant and what it holds.
    pub fn variant(&self) -> (String, Bson) {
        match &self.event_data {
            Bson::String(s) => (s.clone(), Bson::Null),
            Bson::Document(d) if d.len() == 1 => {
                let (k, v) = d.iter().next().unwrap();
                (k.clone(), v.clone())
            }
            o => ("".into(), o.clone()),
        }
    }
}

pub fn entries(rx: &Receiver<LogEntry>) -> Vec<Entry> {
    rx.try_iter()
        .map(|e| {
            let b = bson::to_bson(&e).expect("an entry is serialisable");
            bson::from_bson(b).expect("an entry keeps its fields")
        })
        .collect()
}

#[dam::dam_macros::event_type]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct HarnessMark {
    pub ctx: u32,
    pub op: i64,
}

pub fn mark(ctx: usize, op: usize) -> HarnessMark {
    HarnessMark { ctx: ctx as u32, op: op as i64 }
}

#[dam::dam_macros::event_type]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum HarnessKind {
    Unit,
    One(String),
    Two(i32, f64),
    Named { flag: bool, list: Vec<i64>, maybe: Option<Time> },
}

#[dam::dam_macros::event_type]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct HarnessUnit;

/// Never registered: only loggable without a filter or with one that names it all the same.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Unlisted(pub i64);
impl LogEvent for Unlisted {
    const NAME: &'static str = "Unlisted";
}

fn draw_filter(g: &mut Gen, unknown: bool) -> (LogFilter, Option<HashSet<String>>) {
    if g.chance(1, 4) {
        return (LogFilter::AllowAll, None);
    }
    let mut set = HashSet::new();
    let den = g.range(1, 4);
    for m in get_metrics_vec() {
        if g.chance(1, den) {
            set.insert(m.to_string());
        }
    }
    if unknown {
        for u in ["Unlisted", "", "harnessmark", "SendEvent ", "TimeEvents"] {
            if g.chance(1, 4) {
                set.insert(u.to_string());
            }
        }
    }
    (LogFilter::Some(set.clone()), Some(set))
}

fn allows(f: &Option<HashSet<String>>, name: &str) -> bool {
    f.as_ref().is_none_or(|s| s.contains(name))
}

#[derive(Debug, Clone, PartialEq)]
enum Payload {
    Mark(HarnessMark),
    Kind(HarnessKind),
    Unit,
    Unlisted(Unlisted),
    Library(&'static str, Bson),
}

impl Payload {
    fn name(&self) -> &'static str {
        match self {
            Payload::Mark(_) => "HarnessMark",
            Payload::Kind(_) => "HarnessKind",
            Payload::Unit => "HarnessUnit",
            Payload::Unlisted(_) => "Unlisted",
            Payload::Library(n, _) => n,
        }
    }
}

fn emit<T: LogEvent + Clone>(e: &T, deferred: bool, built: &mut usize) -> Result<(), LogError> {
    if deferred {
        log_event_cb(|| {
            *built += 1;
            e.clone()
        })
    } else {
        log_event(e)
    }
}

fn decodes<T: DeserializeOwned + PartialEq + std::fmt::Debug>(e: &Entry, want: &T) -> Result<(), String> {
    match bson::from_bson::<T>(e.event_data.clone()) {
        Ok(v) if v == *want => Ok(()),
        r => Err(format!("decodes to {r:?}, logged was {want:?}")),
    }
}

struct Expected {
    id: usize,
    payload: Payload,
    tick: (u64, bool),
}

fn same(e: &Entry, want: &Expected) -> Result<(), String> {
    if e.context != want.id || e.event_type != want.payload.name() || e.tick() != want.tick {
        return Err(format!(
            "recorded {e:?}, expected one of {} by context {} at clock {:?}",
            want.payload.name(), want.id, want.tick
        ));
    }
    match &want.payload {
        Payload::Mark(m) => decodes(e, m),
        Payload::Kind(m) => decodes(e, m),
        Payload::Unit => decodes(e, &HarnessUnit),
        Payload::Unlisted(m) => decodes(e, m),
        Payload::Library(_, b) if e.event_data == *b => Ok(()),
        Payload::Library(_, b) => Err(format!("recorded {e:?}, expected {b}")),
    }
}

fn compare(want: &[Expected], got: &[Entry]) -> Result<(), String> {
    let mut last = 0;
    for (i, e) in got.iter().enumerate() {
        let Some(w) = want.get(i) else {
            return Err(format!("entry {i} {e:?} was recorded, but nothing was left to record"));
        };
        same(e, w).map_err(|x| format!("entry {i}: {x}"))?;
        if e.timestamp < last {
            return Err(format!("entry {i} happened {} us after the start, the one before {last} us", e.timestamp));
        }
        last = e.timestamp;
    }
    match want.get(got.len()) {
        Some(w) => Err(format!("{} events recorded, missing {:?} at {:?}", got.len(), w.payload, w.tick)),
        None => Ok(()),
    }
}

/// As `compare`, in any order.
fn compare_sets(want: &[Expected], mut got: Vec<Entry>) -> Result<(), String> {
    for w in want {
        let Some(i) = got.iter().position(|e| same(e, w).is_ok()) else {
            return Err(format!("nothing recorded for {:?} at {:?}", w.payload, w.tick));
        };
        got.swap_remove(i);
    }
    match got.first() {
        Some(e) => Err(format!("{e:?} was recorded, but nothing was left to record")),
        None => Ok(()),
    }
}

struct Logger {
    id: usize,
    filter: Option<HashSet<String>>,
    queue: usize,
}

fn interface(g: &mut Gen) -> Case {
    // A thread of its own, since a logger stays with its thread.
    std::thread::scope(|s| s.spawn(|| crate::sim::catch(|| interface_on(g))).join().unwrap()).unwrap_or_else(|e| Case {
        violation: Some(format!("logging panicked: {e}")),
        ..Default::default()
    })
}

fn interface_on(g: &mut Gen) -> Case {
    let mut case = Case::default();
    let mut time = TimeManager::new();
    let mut tick = (0u64, false);
    let mut cur: Option<Logger> = None;
    // What each queue is to hold; no receiver: nobody reads it.
    let mut queues: Vec<(Option<Receiver<LogEntry>>, Vec<Expected>)> = vec![];
    let mut text: Vec<String> = vec![];
    let (mut kept_out, mut let_in) = (0, 0);
    let start = Instant::now();
    // Filters are checked against what is registered.
    let (filter, set) = draw_filter(g, true);
    let unknown: HashSet<String> = set
        .iter()
        .flatten()
        .filter(|n| !get_metrics_vec().contains(&n.as_str()))
        .cloned()
        .collect();
    match filter.check() {
        Ok(()) if unknown.is_empty() => {}
        Err(LogError::InvalidFilter(l)) if l.len() == unknown.len() && l.iter().cloned().collect::<HashSet<_>>() == unknown => {}
        r => case.fail(format!("checking the filter {filter:?} gave {r:?}, the unknown names are {unknown:?}")),
    }
    for (name, on) in [
        ("HarnessMark", filter.enabled::<HarnessMark>()),
        ("HarnessKind", filter.enabled::<HarnessKind>()),
        ("HarnessUnit", filter.enabled::<HarnessUnit>()),
        ("Unlisted", filter.enabled::<Unlisted>()),
    ] {
        if on != allows(&set, name) {
            case.fail(format!("the filter {filter:?} says {name} is enabled: {on}"));
        }
    }
    for want in ["SendEvent", "ReceiverEvent", "TimeEvent", "ContextViewEvent", "HarnessMark", "HarnessKind", "HarnessUnit"] {
        if !get_metrics_vec().contains(&want) {
            case.fail(format!("the registered event types are {:?}, without {want}", get_metrics_vec()));
        }
    }
    let mut kept = vec![];
    for _ in 0..g.usize(1, 30) {
        match g.weighted(&[2, 3, 10, 1]) {
            0 => {
                let id = Identifier::new();
                if cur.is_some() && g.chance(1, 3) {
                    // As nested contexts do: the same logger under a name of its own.
                    let Some(mut copy) = copy_log() else {
                        case.fail(format!("after {text:?} copy_log found no logger"));
                        break;
                    };
                    copy.id = id;
                    initialize_log(copy);
                    cur.as_mut().unwrap().id = id.id;
                    text.push("inherit the logger".into());
                } else {
                    if cur.is_none() && copy_log().is_some() {
                        case.fail("copy_log found a logger on a fresh thread");
                    }
                    let known = g.chance(1, 2);
                    let (filter, set) = draw_filter(g, !known);
                    let (tx, rx) = unbounded();
                    initialize_log(LogInterface::new(id, tx, start, filter, Time::from((tick.1, tick.0))));
                    let reads = !g.chance(1, 10);
                    text.push(format!("install a logger for {set:?}{}", if reads { "" } else { " which nobody reads" }));
                    cur = Some(Logger { id: id.id, filter: set, queue: queues.len() });
                    queues.push((reads.then_some(rx), vec![]));
                }
            }
            1 => {
                let d = if g.chance(1, 8) { g.small(1 << 40) } else { g.small(9) };
                match g.weighted(&[4, 4, 1]) {
                    0 if !tick.1 => {
                        time.incr_cycles(d);
                        tick.0 += d;
                        text.push(format!("incr {d}"));
                    }
                    0 | 1 => {
                        let to = (tick.0 + d).saturating_sub(g.small(5));
                        time.advance(Time::new(to));
                        if !tick.1 {
                            tick.0 = tick.0.max(to);
                        }
                        text.push(format!("advance to {to}"));
                    }
                    _ => {
                        time.advance(Time::infinite());
                        tick.1 = true;
                        text.push("advance to infinity".into());
                    }
                }
            }
            2 => {
                let deferred = g.chance(1, 2);
                let mut built = 0;
                let n = g.below(1 << 20) as i64 - (1 << 19);
                let (payload, res) = match g.weighted(&[3, 6, 2, 2]) {
                    0 => {
                        let e = HarnessMark { ctx: g.below(1 << 32) as u32, op: n };
                        (Payload::Mark(e.clone()), emit(&e, deferred, &mut built))
                    }
                    1 => {
                        let e = match g.below(4) {
                            0 => HarnessKind::Unit,
                            1 => HarnessKind::One(["", "x", "a.b$c", "\u{1F600}\0 \"q\""][g.usize(0, 3)].repeat(g.usize(1, 3))),
                            2 => HarnessKind::Two(n as i32, n as f64 / 8.0),
                            _ => HarnessKind::Named {
                                flag: n & 1 == 0,
                                list: (0..g.usize(0, 5)).map(|i| n * i as i64 * 1_000_000_007).collect(),
                                maybe: g.chance(1, 2).then(|| Time::from((n & 2 == 0, n.unsigned_abs()))),
                            },
                        };
                        (Payload::Kind(e.clone()), emit(&e, deferred, &mut built))
                    }
                    2 => (Payload::Unit, emit(&HarnessUnit, deferred, &mut built)),
                    _ => {
                        let e = Unlisted(n);
                        (Payload::Unlisted(e.clone()), emit(&e, deferred, &mut built))
                    }
                };
                text.push(format!("{}log {payload:?}", if deferred { "deferred " } else { "" }));
                let on = cur.as_ref().is_some_and(|l| allows(&l.filter, payload.name()));
                let reads = cur.as_ref().is_some_and(|l| queues[l.queue].0.is_some());
                match (&res, on, reads) {
                    (Ok(()), true, true) | (Ok(()), false, _) | (Err(LogError::SendError), true, false) => {}
                    _ => case.fail(format!("after {text:?} logging gave {res:?}, to be recorded: {on}, read by anybody: {reads}")),
                }
                if built != (deferred && on) as usize {
                    case.fail(format!("after {text:?} the deferred event was built {built} times, to be recorded: {on}"));
                }
                if let (true, Some(l)) = (on, &cur) {
                    queues[l.queue].1.push(Expected { id: l.id, payload, tick });
                    let_in += 1;
                } else if cur.is_some() {
                    kept_out += 1;
                }
            }
            _ => {
                // Attaching a receiver is an event as well.
                if cur.as_ref().is_some_and(|l| queues[l.queue].0.is_none()) {
                    continue;
                }
                let mut b = dam::simulation::ProgramBuilder::default();
                let (s, r) = b.unbounded::<u8>();
                let a = Actor::new();
                r.attach_receiver(&a);
                text.push("attach a receiver".into());
                if let Some(l) = cur.as_ref().filter(|l| allows(&l.filter, "ReceiverEvent")) {
                    let data = bson::bson!({"AttachReceiver": [bson::to_bson(&r.id()).unwrap(), bson::to_bson(&a.id()).unwrap()]});
                    queues[l.queue].1.push(Expected { id: l.id, payload: Payload::Library("ReceiverEvent", data), tick });
                }
                kept.push((a, s, r));
            }
        }
    }
    // A finished clock reports its end.
    if let Some(l) = cur.as_ref().filter(|l| allows(&l.filter, "TimeEvent")) {
        let data = bson::bson!({"Finish": bson::to_bson(&Time::from((true, tick.0))).unwrap()});
        queues[l.queue].1.push(Expected { id: l.id, payload: Payload::Library("TimeEvent", data), tick });
    }
    time.cleanup();
    for (rx, want) in &queues {
        if let Some(rx) = rx {
            if let Err(e) = compare(want, &entries(rx)) {
                case.fail(format!("after {text:?}: {e}"));
            }
        }
    }
    case.key = crate::gen::hash_str(&format!("{text:?}"));
    case.nontrivial = kept_out > 0 && let_in > 0;
    case.class("inherited", text.iter().any(|t| t.starts_with("inherit")));
    case.class("unknown names", !unknown.is_empty());
    case.sample = json!({"operations": text});
    case
}

/// Entries about waiting for other clocks depend on the schedule.
fn split_waits(all: Vec<Entry>) -> (Vec<Entry>, Vec<Entry>) {
    all.into_iter().partition(|e| e.event_type != "ContextViewEvent")
}

/// Waiting events: parking only while waiting, and waking from it; clocks never run backwards.
fn check_waits(all: &[Entry]) -> Result<(), String> {
    let mut parked = false;
    let mut waiting = false;
    let mut last = (false, 0);
    for e in all {
        let now = (e.ticks.is_infinite(), e.ticks.time());
        if now < last {
            return Err(format!("{e:?} is from before an earlier entry's clock {last:?}"));
        }
        last = now;
        if e.event_type != "ContextViewEvent" {
            if parked {
                return Err(format!("{e:?} was recorded while parked"));
            }
            continue;
        }
        match e.variant().0.as_str() {
            "WaitUntil" if !parked => waiting = true,
            "Park" if waiting && !parked => parked = true,
            "Unpark" if parked => {
                parked = false;
                waiting = false;
            }
            _ => return Err(format!("{e:?} does not follow from what came before it")),
        }
    }
    if parked {
        return Err("parked to the end".into());
    }
    Ok(())
}

fn setup(g: &mut Gen, n: usize) -> (Arc<LogSetup>, Vec<Option<Option<HashSet<String>>>>, Vec<Receiver<LogEntry>>) {
    let mut filters = vec![];
    let mut sets = vec![];
    let mut sinks = vec![];
    let mut rxs = vec![];
    for _ in 0..n {
        let (tx, rx) = unbounded();
        sinks.push(Some(tx));
        rxs.push(rx);
        if g.chance(1, 6) {
            filters.push(None);
            sets.push(None);
        } else {
            let (f, s) = draw_filter(g, false);
            filters.push(Some(f));
            sets.push(Some(s));
        }
    }
    let setup = LogSetup {
        filters,
        sinks: Mutex::new(sinks),
        start: Instant::now(),
        contexts: Default::default(),
        channels: Default::default(),
        built: (0..n).map(|_| AtomicUsize::new(0)).collect(),
        database: None,
        blanket: false,
        dress: Default::default(),
    };
    (Arc::new(setup), sets, rxs)
}

/// What a context which did this must have recorded, all filters open, without the waiting events.
fn expected_of(p: &Program, ran: &Ran, ctx: usize, setup: &LogSetup) -> Vec<Expected> {
    let id = setup.contexts.lock().unwrap()[ctx].id;
    let channels = setup.channels.lock().unwrap();
    let mut v = vec![];
    let mut last = 0;
    for e in &ran.log[ctx] {
        let mut add = |name: &'static str, variant: &str, ch: usize, tick: u64| {
            let mut d = bson::Document::new();
            d.insert(variant, bson::to_bson(&channels[ch]).unwrap());
            v.push(Expected { id, payload: Payload::Library(name, Bson::Document(d)), tick: (tick, false) });
        };
        match &p.ops[ctx][e.op] {
            Op::Enq(ch, _) | Op::EnqFail(ch, _) => {
                add("SendEvent", "EnqueueStart", *ch, e.before);
                add("SendEvent", "EnqueueFinish", *ch, e.after);
            }
            Op::Deq(ch) => {
                add("ReceiverEvent", "DequeueStart", *ch, e.before);
                add("ReceiverEvent", "DequeueFinish", *ch, e.after);
            }
            Op::PeekNext(ch) => {
                add("ReceiverEvent", "PeekNextStart", *ch, e.before);
                add("ReceiverEvent", "PeekNextFinish", *ch, e.after);
            }
            Op::Peek(ch) => add("ReceiverEvent", "Peek", *ch, e.before),
            Op::Closed(ch, peek, _) => {
                let Out::Closed(now) = e.out else { continue };
                add("ReceiverEvent", if *peek { "PeekNextStart" } else { "DequeueStart" }, *ch, e.before);
                add("ReceiverEvent", if *peek { "PeekNextFinish" } else { "DequeueFinish" }, *ch, now);
            }
            Op::Incr(_) | Op::Adv(_) | Op::Avail(_) | Op::DropSender(_) | Op::DropReceiver(_) => {}
        }
        v.push(Expected { id, payload: Payload::Mark(mark(ctx, e.op)), tick: (e.after, false) });
        last = e.after;
    }
    let data = bson::bson!({"Finish": bson::to_bson(&Time::from((true, last))).unwrap()});
    v.push(Expected { id, payload: Payload::Library("TimeEvent", data), tick: (last, false) });
    v
}

fn programs(g: &mut Gen) -> Case {
    programs_to(g, None)
}

#[cfg(feature = "mongo")]
fn database(g: &mut Gen) -> Case {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    let n = NEXT.fetch_add(1, SeqCst);
    let names = (format!("db{n}"), format!("c{}", g.below(1000)));
    programs_to(g, Some(names))
}

fn programs_to(g: &mut Gen, database: Option<(String, String)>) -> Case {
    let infer = g.chance(1, 4);
    // Now and then more events than anybody would send to a database at once.
    let max_ops = if database.is_some() && g.chance(1, 8) { 500 } else { 25 };
    let p = generate(g, &Knobs { infer, max_ops, ..Default::default() });
    let (mut setup, mut sets, rxs) = setup(g, p.ops.len());
    if database.is_some() {
        let s = Arc::get_mut(&mut setup).unwrap();
        s.database = database.clone();
        s.blanket = g.chance(1, 3);
        if s.blanket {
            s.filters = vec![s.filters[0].clone(); p.ops.len()];
            sets = vec![sets[0].clone(); p.ops.len()];
        }
        s.dress = Dress::draw(g, p.ops.len());
        s.dress.styles.iter_mut().for_each(|s| s.void = false);
        // The parts of a composite log through its logger.
        for ctx in 0..s.dress.styles.len() {
            let Kind::Part(k) = s.dress.styles[ctx].kind else { continue };
            let first = s.dress.styles.iter().position(|x| x.kind == Kind::Part(k)).unwrap();
            s.filters[ctx] = s.filters[first].clone();
            sets[ctx] = sets[first].clone();
        }
    }
    let composites = setup.dress.styles.iter().any(|s| matches!(s.kind, Kind::Part(_)));
    let plan = Plan::draw(g, p.step_limit());
    let mut case = Case {
        key: p.key() ^ crate::gen::hash_str(&format!("{sets:?}{}", plan.seed)),
        runs: 2,
        ..Default::default()
    };
    case.class("composites", composites);
    case.sample = json!({"program": p.json(), "filters": sets, "contexts": setup.dress.json(), "schedule": plan.json()});
    let out = p.execute_logged(&plan, infer, &Some(setup.clone()));
    let plain = p.execute(&plan, infer);
    let (Some(ran), Some(plain)) = (case.check(out.done()), case.check(plain.done())) else {
        return case;
    };
    // Logging leaves no trace in the results (what a peek sees may depend on the schedule).
    let strip = |r: &Ran| -> Vec<Vec<(usize, u64, u64, Option<Out>)>> {
        r.log
            .iter()
            .enumerate()
            .map(|(ctx, l)| {
                l.iter()
                    .map(|e| {
                        let out = match p.ops[ctx][e.op] {
                            Op::Peek(_) | Op::Closed(..) => None,
                            _ => Some(e.out.clone()),
                        };
                        (e.op, e.before, e.after, out)
                    })
                    .collect()
            })
            .collect()
    };
    if strip(&ran) != strip(&plain) || ran.elapsed != plain.elapsed || ran.passed != plain.passed {
        case.fail("the program's results differ with logging".to_string());
    }
    let (mut recording, mut dropped) = (0, 0);
    #[cfg(feature = "mongo")]
    let mut stored = {
        let target = database.unwrap();
        if super::mongo::created(&target) != 1 {
            case.fail(format!("the collection {target:?} was created {} times", super::mongo::created(&target)));
        }
        super::mongo::take(&target)
    };
    for ctx in 0..p.ops.len() {
        let name = format!("ctx{ctx}");
        let want = expected_of(&p, &ran, ctx, &setup);
        #[cfg(not(feature = "mongo"))]
        let (all, sure) = (entries(&rxs[ctx]), true);
        #[cfg(feature = "mongo")]
        let (all, sure) = stored.remove(&want[0].id).unwrap_or((vec![], true));
        let Some(set) = &sets[ctx] else {
            if !all.is_empty() {
                case.fail(format!("{name} has no logger, but recorded {:?}", all[0]));
            }
            continue;
        };
        let odd = ran.log[ctx].iter().filter(|e| e.op % 2 == 1).count();
        let built = setup.built[ctx].load(SeqCst);
        if built != if allows(set, "HarnessMark") { odd } else { 0 } {
            case.fail(format!("{name}: of {odd} deferred events {built} were built; its filter is {set:?}"));
        }
        if let Some(e) = all.iter().find(|e| !allows(set, &e.event_type) || e.context != want[0].id) {
            case.fail(format!("{name} ({}) with filter {set:?} recorded {e:?}", want[0].id));
        }
        recording += !all.is_empty() as usize;
        let total = want.len();
        let want: Vec<Expected> = want.into_iter().filter(|w| allows(set, w.payload.name())).collect();
        dropped += total - want.len();
        if !sure {
            case.class("order of entries unknown", true);
            let (rest, _) = split_waits(all);
            case.check(compare_sets(&want, rest).map_err(|e| format!("{name} with filter {set:?}: {e}")));
            continue;
        }
        case.check(check_waits(&all).map_err(|e| format!("{name}: {e}")));
        let (rest, waits) = split_waits(all);
        case.class("waiting recorded", !waits.is_empty());
        case.check(compare(&want, &rest).map_err(|e| format!("{name} with filter {set:?}: {e}")));
    }
    #[cfg(feature = "mongo")]
    if let Some((id, (l, _))) = stored.iter().next() {
        case.fail(format!("entries of a context {id} which is not in the program: {:?}", l[0]));
    }
    case.nontrivial = recording >= 2 && dropped > 0;
    case
}

struct UnitRun {
    elapsed: Option<u64>,
    responses: Vec<Taken<u64>>,
    acks: Vec<Taken<bool>>,
    entries: Vec<Entry>,
    /// The unit, its parts, and which channel ends belong to which part (write side: true).
    unit: usize,
    parts: HashSet<usize>,
    sends: HashMap<Bson2, (bool, usize)>,
    takes: HashMap<Bson2, (bool, usize)>,
}

/// Channel identifiers as text.
type Bson2 = String;

fn chan_text(c: dam::channel::ChannelID) -> String {
    bson::to_bson(&c).unwrap().to_string()
}

fn units(g: &mut Gen) -> Case {
    let cells = g.usize(1, 6);
    let readers = if g.chance(1, 8) { 0 } else { g.usize(1, 2) };
    let writers = if readers > 0 && g.chance(1, 8) { 0 } else { g.usize(1, 2) };
    let len = g.usize(1, 6);
    let (filter, set) = draw_filter(g, false);
    let mut reads: Vec<Vec<Item<u16>>> = vec![];
    for _ in 0..readers {
        let n = g.usize(0, len);
        reads.push(draw_items(g, n, |g, _| g.below(cells as u64) as u16));
    }
    let mut writes: Vec<(Vec<Item<u16>>, Vec<Item<u64>>)> = vec![];
    for w in 0..writers {
        let n = g.usize(0, len);
        writes.push((
            draw_items(g, n, |g, _| g.below(cells as u64) as u16),
            draw_items(g, n, |_, i| (w * 100 + i + 1) as u64),
        ));
    }
    let shape = Shape::draw(g, false, 1);
    let plan = Plan::draw(g, 2_000_000);
    let go = |log: bool| {
        let (tx, rx) = unbounded();
        let mut run = UnitRun { elapsed: None, responses: vec![], acks: vec![], entries: vec![], unit: 0, parts: HashSet::new(), sends: HashMap::new(), takes: HashMap::new() };
        let mut outs = vec![];
        let mut ack_outs = vec![];
        let out = simulate(&plan, false, |b| {
            let mut pmu = PMU::<u64, u16, bool>::new(cells, Behavior { mod_address: true, use_default_value: true });
            for r in &reads {
                let (s, addr) = shape.make::<u16>(b);
                let (resp, d) = shape.make::<u64>(b);
                run.takes.insert(chan_text(addr.id()), (false, r.len()));
                run.sends.insert(chan_text(resp.id()), (false, r.len()));
                feeder(b, s, r.clone());
                outs.push(drainer(b, d, vec![]));
                pmu.add_reader(PMUReadBundle { addr, resp });
            }
            for (a, d) in &writes {
                let (s, addr) = shape.make::<u16>(b);
                let (s2, data) = shape.make::<u64>(b);
                let (ack, r) = shape.make::<bool>(b);
                run.takes.insert(chan_text(addr.id()), (true, a.len()));
                run.takes.insert(chan_text(data.id()), (true, a.len()));
                run.sends.insert(chan_text(ack.id()), (true, a.len()));
                feeder(b, s, a.clone());
                feeder(b, s2, d.clone());
                ack_outs.push(drainer(b, r, vec![]));
                pmu.add_writer(PMUWriteBundle { addr, data, ack });
            }
            run.unit = pmu.id().id;
            run.parts = pmu.ids().keys().map(|v| v.id.id).filter(|i| *i != pmu.id().id).collect();
            let log = log.then(|| LogInterface::new(pmu.id(), tx, Instant::now(), filter.clone(), Time::new(0)));
            b.add_child(Around::new(pmu, move |pmu| {
                if let Some(l) = log {
                    initialize_log(l);
                }
                pmu.run_falliable()
            }));
        });
        run.responses = outs.iter().map(take).collect();
        run.acks = ack_outs.iter().map(take).collect();
        run.entries = entries(&rx);
        out.done().map(|s| {
            run.elapsed = s.elapsed;
            (run, s.passed)
        })
    };
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{reads:?}{writes:?}{set:?}{}", plan.seed)),
        runs: 2,
        ..Default::default()
    };
    case.sample = json!({"cells": cells, "reads": reads, "writes": writes.iter().map(|w| json!([w.0, w.1])).collect::<Vec<_>>(), "filter": set, "schedule": plan.json()});
    let (Some((run, ok)), Some((plain, ok2))) = (case.check(go(true)), case.check(go(false))) else {
        return case;
    };
    if !ok || !ok2 {
        case.fail("the run failed");
    }
    // Clocks after finding a channel closed depend on the schedule (F-CLOSE-CLOCK): one cycle per
    // channel on the way from the feeders through the unit to the drainers.
    if !near(run.elapsed, plain.elapsed, 3) || (&run.responses, &run.acks) != (&plain.responses, &plain.acks) {
        case.fail(format!(
            "with logging the unit answered {:?} / {:?} in {:?} cycles, without {:?} / {:?} in {:?}",
            run.responses, run.acks, run.elapsed, plain.responses, plain.acks, plain.elapsed
        ));
    }
    let mut by: HashMap<usize, Vec<Entry>> = HashMap::new();
    for e in run.entries {
        if !allows(&set, &e.event_type) {
            case.fail(format!("filter {set:?} let {e:?} through"));
        }
        by.entry(e.context).or_default().push(e);
    }
    // Every event is by one of the parts, and each part only works on its own channels.
    let mut side: HashMap<usize, HashSet<bool>> = HashMap::new();
    let mut counts: HashMap<(String, String), usize> = HashMap::new();
    for (ctx, list) in &by {
        if !run.parts.contains(ctx) {
            case.fail(format!("{:?} was recorded under context {ctx}; the unit is {} with parts {:?}", list[0], run.unit, run.parts));
        }
        case.check(check_waits(list).map_err(|e| format!("part {ctx}: {e}")));
        for e in list {
            let (variant, data) = e.variant();
            let ends = match e.event_type.as_str() {
                "SendEvent" => &run.sends,
                "ReceiverEvent" => &run.takes,
                _ => continue,
            };
            match ends.get(&data.to_string()) {
                None => case.fail(format!("{e:?} is about a channel end the unit does not have")),
                Some((write, _)) => {
                    side.entry(*ctx).or_default().insert(*write);
                    *counts.entry((variant, data.to_string())).or_default() += 1;
                }
            }
        }
        if allows(&set, "TimeEvent") && list.last().map(|e| e.event_type.as_str()) != Some("TimeEvent") {
            case.fail(format!("the last event of part {ctx} is {:?}", list.last()));
        }
    }
    if side.values().any(|s| s.len() > 1) {
        case.fail(format!("events of the read and the write side are recorded under one context: {side:?}"));
    }
    for (on, ends, start, finish) in [
        (allows(&set, "SendEvent"), &run.sends, "EnqueueStart", "EnqueueFinish"),
        (allows(&set, "ReceiverEvent"), &run.takes, "DequeueStart", "DequeueFinish"),
    ] {
        for (ch, (_, n)) in ends {
            for what in [start, finish] {
                let got = counts.get(&(what.to_string(), ch.clone())).copied().unwrap_or(0);
                if got != if on { *n } else { 0 } {
                    case.fail(format!("{got} events {what} on channel {ch}, which handled {n} elements; recorded: {on}"));
                }
            }
        }
    }
    if allows(&set, "TimeEvent") && by.len() != 2 {
        case.fail(format!("only {:?} recorded the end of their clocks, the parts are {:?}", by.keys(), run.parts));
    }
    case.nontrivial = by.len() == 2 && by.values().all(|l| l.len() >= 2);
    case
}

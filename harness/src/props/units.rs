//! C13 for the library's units: memory units and pipelines which are asked for something they must
//! refuse, or whose partners leave.
use super::util::*;
use crate::gen::Gen;
use crate::runner::Case;
use crate::sim::Plan;
use dam::channel::Receiver;
use dam::simulation::ProgramBuilder;
use dam::structures::Identifiable;
use dam::templates::datastore::Behavior;
use dam::templates::ops::{ALUOp, PipelineRegister};
use dam::templates::pcu::{PCUConfig, PipelineStage, PCU};
use dam::templates::pmu::{PMUReadBundle, PMUWriteBundle, PMU};
use dam::utility_contexts::FunctionContext;
use serde::Serialize;
use serde_json::json;

const BAD: u64 = 666;

/// How the replies of one port are taken.
#[derive(Clone, Debug, Serialize)]
struct Taker {
    shape: Shape,
    delays: Vec<u64>,
    /// Leaves after that many.
    leaves: Option<usize>,
}

impl Taker {
    fn draw(g: &mut Gen, n: usize) -> Self {
        Taker {
            shape: Shape::draw(g, true, 3),
            delays: (0..g.usize(0, 2)).map(|_| g.small(12)).collect(),
            leaves: if n > 0 && g.chance(1, 4) { Some(g.usize(0, n)) } else { None },
        }
    }

    fn make<'a>(&self, b: &mut ProgramBuilder<'a>, rcv: Receiver<u64>, log: Shared<Vec<u64>>) {
        let mut fc = FunctionContext::new();
        rcv.attach_receiver(&fc);
        let (delays, limit) = (self.delays.clone(), self.leaves.unwrap_or(usize::MAX));
        fc.set_run(move |time| {
            let mut i = 0;
            while i < limit {
                if !delays.is_empty() {
                    time.incr_cycles(delays[i % delays.len()]);
                }
                i += 1;
                match rcv.dequeue(time) {
                    Ok(ce) => log.lock().unwrap().push(ce.data),
                    Err(_) => break,
                }
            }
        });
        b.add_child(fc);
    }
}

/// What one half of a unit does: `good` replies, then a request which is refused, or the end.
struct Half<'a> {
    what: String,
    /// Replies, up to the first request which must be refused.
    good: usize,
    refused: bool,
    taker: &'a Taker,
    /// Their values, if known.
    values: Option<Vec<u64>>,
}

impl Half<'_> {
    /// Whether this must fail and whether it may.
    fn fails(&self) -> (bool, bool) {
        let sure = self.taker.leaves.is_some_and(|k| self.taker.shape.cap.is_some_and(|c| self.good > k + c));
        // Some takers leave while there is nothing more to come.
        let maybe = self.taker.leaves.is_some_and(|k| self.good > k);
        (self.refused || sure, self.refused || maybe)
    }

    fn check(&self, got: &[u64]) -> Result<(), String> {
        let n = self.good.min(self.taker.leaves.unwrap_or(usize::MAX));
        if got.len() != n {
            return Err(format!("{} gave {} replies, expected {n}", self.what, got.len()));
        }
        match &self.values {
            Some(v) => differ(&self.what, &v[..n], got),
            None => Ok(()),
        }
    }
}

/// The length of a list up to the first bad entry, and whether there is one.
fn until_bad<T>(items: &[Item<T>], n: usize, bad: impl Fn(&T) -> bool) -> (usize, bool) {
    match items[..n].iter().position(|i| bad(&i.value)) {
        Some(p) => (p, true),
        None => (n, false),
    }
}

#[derive(Clone, Debug, Serialize)]
enum Unit {
    Memory {
        cells: usize,
        wraps: bool,
        /// Cells never written may be read.
        lenient: bool,
        read: Option<(Shape, Vec<Item<u16>>, Taker)>,
        write: Option<(Shape, Vec<Item<u16>>, Shape, Vec<Item<u64>>, Taker)>,
    },
    Pipeline {
        depth: usize,
        /// In which of them, if any, one value is refused.
        stage: Option<usize>,
        ins: Vec<(Shape, Vec<Item<u64>>)>,
        out: Taker,
    },
}

fn addresses(g: &mut Gen, n: usize, cells: usize, spoil: bool) -> Vec<Item<u16>> {
    let mut v = draw_items(g, n, |g, _| g.below(cells as u64) as u16);
    if spoil && n > 0 {
        let at = g.usize(0, n - 1);
        v[at].value = (cells as u64 + g.small(50)) as u16;
    }
    v
}

impl Unit {
    fn draw(g: &mut Gen, infer: bool) -> Self {
        let start = g.start();
        if g.chance(2, 3) {
            let cells = g.count(1, 4);
            let wraps = g.chance(1, 5);
            let lenient = g.chance(3, 4);
            let sides = g.below(5);
            let mut read = (sides != 0).then(|| {
                let n = g.length(0, 7);
                let spoil = g.chance(1, 3);
                (Shape::draw(g, !infer, 3), addresses(g, n, cells, spoil), Taker::draw(g, n))
            });
            // Where unwritten cells may not be read, nothing is written.
            let mut write = (sides != 1).then(|| {
                let n = if lenient { g.length(0, 7) } else { 0 };
                let m = if g.chance(1, 4) { g.usize(0, 7) } else { n };
                let spoil = g.chance(1, 3);
                (
                    Shape::draw(g, !infer, 3),
                    addresses(g, n, cells, spoil),
                    Shape::draw(g, !infer, 3),
                    draw_items(g, m, |g, _| g.below(1000)),
                    Taker::draw(g, n),
                )
            });
            if let Some(r) = &mut read {
                later(&mut r.1, start);
            }
            if let Some(w) = &mut write {
                later(&mut w.1, start);
                later(&mut w.3, start);
            }
            Unit::Memory { cells, wraps, lenient, read, write }
        } else {
            let depth = g.count(0, 3);
            let n = g.length(0, 7);
            let n_in = g.usize(1, 2);
            let mut ins: Vec<(Shape, Vec<Item<u64>>)> = (0..n_in).map(|_| (Shape::draw(g, true, 3), draw_items(g, n, |g, _| g.below(600)))).collect();
            if g.chance(1, 2) && n > 0 {
                let at = g.usize(0, n - 1);
                ins[0].1[at].value = BAD;
            }
            ins.iter_mut().for_each(|i| later(&mut i.1, start));
            Unit::Pipeline { depth, stage: if depth > 0 { Some(g.usize(0, depth - 1)) } else { None }, ins, out: Taker::draw(g, n) }
        }
    }

    fn halves(&self) -> Vec<Half<'_>> {
        match self {
            Unit::Memory { cells, wraps, lenient, read, write } => {
                let mut v = vec![];
                if let Some((_, items, taker)) = read {
                    let (good, refused) = until_bad(items, items.len(), |a| !lenient || (!wraps && *a as usize >= *cells));
                    v.push(Half { what: "the reader of a memory unit".into(), good, refused, taker, values: None });
                }
                if let Some((_, addr, _, data, taker)) = write {
                    let (good, refused) = until_bad(addr, addr.len().min(data.len()), |a| !wraps && *a as usize >= *cells);
                    v.push(Half { what: "the writer of a memory unit".into(), good, refused, taker, values: None });
                }
                v
            }
            Unit::Pipeline { stage, ins, out, .. } => {
                let n = ins.iter().map(|i| i.1.len()).min().unwrap_or(0);
                let (good, refused) = until_bad(&ins[0].1, n, |v| stage.is_some() && *v == BAD);
                let values = Some(ins[0].1.iter().map(|i| i.value).collect());
                vec![Half { what: "a pipeline".into(), good, refused, taker: out, values }]
            }
        }
    }

    /// Adds it to the program; its identifier, and the replies of each half.
    fn make<'a>(&self, b: &mut ProgramBuilder<'a>, logs: &[Shared<Vec<u64>>]) -> usize {
        let mut logs = logs.iter();
        match self {
            Unit::Memory { cells, wraps, lenient, read, write } => {
                let mut pmu = PMU::<u64, u16, u64>::new(*cells, Behavior { mod_address: *wraps, use_default_value: *lenient });
                if let Some((shape, items, taker)) = read {
                    let (s, addr) = shape.make(b);
                    feeder(b, s, items.clone());
                    let (resp, d) = taker.shape.make(b);
                    taker.make(b, d, logs.next().unwrap().clone());
                    pmu.add_reader(PMUReadBundle { addr, resp });
                }
                if let Some((ashape, addrs, dshape, values, taker)) = write {
                    let (s, addr) = ashape.make(b);
                    feeder(b, s, addrs.clone());
                    let (s, data) = dshape.make(b);
                    feeder(b, s, values.clone());
                    let (ack, d) = taker.shape.make(b);
                    taker.make(b, d, logs.next().unwrap().clone());
                    pmu.add_writer(PMUWriteBundle { addr, data, ack });
                }
                let id = pmu.id().id;
                b.add_child(pmu);
                id
            }
            Unit::Pipeline { depth, stage, ins, out } => {
                let mut pcu = PCU::<u64>::new(
                    PCUConfig { pipeline_depth: *depth, num_registers: ins.len() },
                    PCU::<u64>::READ_ALL_INPUTS,
                    PCU::<u64>::WRITE_ALL_RESULTS,
                );
                for i in 0..*depth {
                    let op = if *stage == Some(i) {
                        ALUOp { func: |i: &[PipelineRegister<u64>], _: &[PipelineRegister<u64>]| { assert!(i[0].data != BAD, "refused"); i.to_vec() }, name: "picky" }
                    } else {
                        ALUOp { func: |i: &[PipelineRegister<u64>], _: &[PipelineRegister<u64>]| i.to_vec(), name: "copy" }
                    };
                    pcu.push_stage(PipelineStage { op, forward: vec![], prev_register_ids: vec![0], next_register_ids: vec![], output_register_ids: vec![0] });
                }
                for (shape, items) in ins {
                    let (s, r) = shape.make(b);
                    feeder(b, s, items.clone());
                    pcu.add_input_channel(r);
                }
                let (s, r) = out.shape.make(b);
                pcu.add_output_channel(s);
                out.make(b, r, logs.next().unwrap().clone());
                let id = pcu.id().id;
                b.add_child(pcu);
                id
            }
        }
    }
}

pub fn units(g: &mut Gen) -> Case {
    let infer = g.chance(1, 3);
    let units: Vec<Unit> = (0..g.count(1, 3)).map(|_| Unit::draw(g, infer)).collect();
    let plan = Plan::draw(g, 10_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{units:?}{infer}{}{}", plan.seed, plan.policy)),
        sample: json!({"units": units, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };
    let logs: Vec<Vec<Shared<Vec<u64>>>> = units.iter().map(|u| u.halves().iter().map(|_| shared(vec![])).collect()).collect();
    let ids = shared(vec![]);
    let out = simulate(&plan, infer, |b| {
        for (u, l) in units.iter().zip(&logs) {
            let id = u.make(b, l);
            ids.lock().unwrap().push(id);
        }
    });
    let failing = |u: &Unit| u.halves().iter().any(|h| h.fails().0);
    case.class("a memory unit", units.iter().any(|u| matches!(u, Unit::Memory { .. })));
    case.class("a pipeline", units.iter().any(|u| matches!(u, Unit::Pipeline { .. })));
    case.class("one half fails and the other has something to do", units.iter().any(|u| failing(u) && u.halves().iter().any(|h| !h.fails().1 && h.good > 0)));
    case.class("both halves fail", units.iter().any(|u| u.halves().iter().filter(|h| h.fails().0).count() > 1));
    case.class("a taker leaves", units.iter().any(|u| u.halves().iter().any(|h| h.taker.leaves.is_some_and(|k| h.good > k))));
    case.nontrivial = units.iter().any(failing);
    let s = match out.done() {
        Ok(s) => s,
        Err(e) => {
            case.fail(e);
            return case;
        }
    };
    let ids = take(&ids);
    for (u, id) in units.iter().zip(&ids) {
        let times = s.failures.iter().filter(|f| f.0 == *id).count();
        let must = failing(u);
        let may = u.halves().iter().any(|h| h.fails().1);
        if times > may as usize || times < must as usize {
            case.fail(format!("unit {id} was reported {times} times, though it must{} and may{} fail", if must { "" } else { " not" }, if may { "" } else { " not" }));
        }
    }
    for f in &s.failures {
        if !ids.contains(&f.0) {
            case.fail(format!("somebody else was reported: {f:?}"));
        } else if !f.1.contains("Panic occurred") {
            case.fail(format!("the failure of {} is given as {:?}", f.0, f.1));
        }
    }
    if s.passed != s.failures.is_empty() {
        case.fail(format!("passed() is {} with failures {:?}", s.passed, s.failures));
    }
    for (u, l) in units.iter().zip(&logs) {
        for (h, l) in u.halves().iter().zip(l) {
            let got = take(l);
            case.check(h.check(&got));
        }
    }
    case
}

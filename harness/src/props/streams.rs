//! C17, C18 and C19: the compute pipeline, the library's sources, broadcasts and sinks, and checkers.
use super::model::*;
use super::util::*;
use crate::gen::Gen;
use crate::prog::{Chan, Op, Req};
use crate::runner::{Case, Part};
use crate::sim::Plan;
use dam::channel::Receiver;
use dam::context_tools::{Context, DAMType};
use dam::structures::{Identifiable, Time};
use dam::templates::ops::{ALUAddOp, ALUDivOp, ALUMulOp, ALUOp, ALUSubOp, PipelineRegister};
use dam::templates::pcu::{PCUConfig, PipelineStage, PCU};
use dam::utility_contexts::*;
use dam::RegisterALUOp;
use serde::Serialize;
use serde_json::json;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![
        ("C17", vec![
            Part { name: "pipeline", rule: "a compute pipeline of random stages and registers with random input and output channels, under one schedule; non-trivial when it has at least one stage, two results and either an accumulation, a forward or more than one stage", run: pipeline, quick: (40_000, 4_000), thorough: (1_500_000, 150_000) },
            Part { name: "stages", rule: "one stage applied to random registers; non-trivial when an operation writes or something is forwarded", run: stages, quick: (100_000, 2_000), thorough: (2_000_000, 20_000) },
        ]),
        ("C18", vec![
            Part { name: "trees", rule: "1-2 sources (generator, trace, function), a tree of broadcasts, and sinks (consumer, function, checker), under one schedule; non-trivial when a broadcast has at least two targets, or a bounded channel holds somebody back, and at least two elements flow", run: trees, quick: (30_000, 3_000), thorough: (1_200_000, 120_000) },
            Part { name: "printer", rule: "1-2 printers fed by functions, under one schedule, with standard output read back; non-trivial when at least two elements are printed", run: printer, quick: (2_000, 200), thorough: (40_000, 4_000) },
            Part { name: "random-trace", rule: "one random trace; non-trivial when it has at least two elements", run: traces, quick: (2_000, 200), thorough: (100_000, 1_000) },
        ]),
        ("C19", vec![
            Part { name: "checkers", rule: "1-3 checkers (exact and approximate) on streams with random differences from what they expect, under one schedule; non-trivial when some stream differs or is longer, and has at least two elements", run: checkers, quick: (40_000, 4_000), thorough: (1_500_000, 150_000) },
        ]),
    ]
}

/// A number for the pipelines: wraps around, and dividing by zero gives zero.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Num(pub u64);

impl DAMType for Num {
    fn dam_size(&self) -> usize {
        64
    }
}

impl std::ops::Add for Num {
    type Output = Num;
    fn add(self, o: Num) -> Num {
        Num(self.0.wrapping_add(o.0))
    }
}
impl std::ops::Sub for Num {
    type Output = Num;
    fn sub(self, o: Num) -> Num {
        Num(self.0.wrapping_sub(o.0))
    }
}
impl std::ops::Mul for Num {
    type Output = Num;
    fn mul(self, o: Num) -> Num {
        Num(self.0.wrapping_mul(o.0))
    }
}
impl std::ops::Div for Num {
    type Output = Num;
    fn div(self, o: Num) -> Num {
        Num(self.0.checked_div(o.0).unwrap_or(0))
    }
}

RegisterALUOp!(Accumulate, |(i0), (o0)| [i0 + o0], T: std::ops::Add<T, Output = T>);
RegisterALUOp!(Swap, |(i0, i1), ()| [i1, i0],);
RegisterALUOp!(Twice, |(), (o0)| [o0.clone() + o0], T: std::ops::Add<T, Output = T>);
RegisterALUOp!(Mixed, |(i0, i1, i2), (o0, o1)| [i0 - o0.clone(), i1 * i2, o0 + o1], T: std::ops::Add<T, Output = T> + std::ops::Sub<T, Output = T> + std::ops::Mul<T, Output = T>);
RegisterALUOp!(Drop1, |(i0), ()| [],);
RegisterALUOp!(Wide, |(i0, i1, i2, i3), (o0, o1, o2, o3)| [o3 - i3, o2 - i0, o1 - i1, o0 - i2], T: std::ops::Sub<T, Output = T>);

/// Number of inputs, of registers read from the next row, of results.
const OPS: [(&str, usize, usize, usize); 10] = [
    ("add", 2, 0, 1),
    ("sub", 2, 0, 1),
    ("mul", 2, 0, 1),
    ("div", 2, 0, 1),
    ("accumulate", 1, 1, 1),
    ("swap", 2, 0, 2),
    ("twice", 0, 1, 1),
    ("mixed", 3, 2, 3),
    ("drop", 1, 0, 0),
    ("wide", 4, 4, 4),
];

fn alu(op: usize) -> ALUOp<Num> {
    match op {
        0 => ALUAddOp(),
        1 => ALUSubOp(),
        2 => ALUMulOp(),
        3 => ALUDivOp(),
        4 => Accumulate(),
        5 => Swap(),
        6 => Twice(),
        7 => Mixed(),
        8 => Drop1(),
        _ => Wide(),
    }
}

fn apply(op: usize, i: &[u64], o: &[u64]) -> Vec<u64> {
    match op {
        0 => vec![i[0].wrapping_add(i[1])],
        1 => vec![i[0].wrapping_sub(i[1])],
        2 => vec![i[0].wrapping_mul(i[1])],
        3 => vec![i[0].checked_div(i[1]).unwrap_or(0)],
        4 => vec![i[0].wrapping_add(o[0])],
        5 => vec![i[1], i[0]],
        6 => vec![o[0].wrapping_add(o[0])],
        7 => vec![i[0].wrapping_sub(o[0]), i[1].wrapping_mul(i[2]), o[0].wrapping_add(o[1])],
        8 => vec![],
        _ => [(3, 3), (2, 0), (1, 1), (0, 2)].iter().map(|(a, b)| o[*a].wrapping_sub(i[*b])).collect(),
    }
}

#[derive(Clone, Debug, Serialize)]
struct StageSpec {
    op: usize,
    forward: Vec<(usize, usize)>,
    prev: Vec<usize>,
    next: Vec<usize>,
    out: Vec<usize>,
}

impl StageSpec {
    fn draw(g: &mut Gen, regs: usize) -> Self {
        let choices: Vec<usize> = (0..OPS.len()).filter(|o| OPS[*o].3 <= regs).collect();
        let op = *g.pick(&choices);
        let r = |g: &mut Gen| g.below(regs as u64) as usize;
        // Every register of the next row is written by the operation or by a forward, not both.
        let mut free: Vec<usize> = (0..regs).collect();
        let mut out = vec![];
        for _ in 0..OPS[op].3 {
            let i = g.below(free.len() as u64) as usize;
            out.push(free.remove(i));
        }
        let mut forward = vec![];
        for _ in 0..g.usize(0, free.len().min(3)) {
            let i = g.below(free.len() as u64) as usize;
            let dst = free.remove(i);
            forward.push((r(g), dst));
        }
        StageSpec {
            op,
            forward,
            prev: (0..OPS[op].1).map(|_| r(g)).collect(),
            next: (0..OPS[op].2).map(|_| r(g)).collect(),
            out,
        }
    }

    fn real(&self) -> PipelineStage<Num> {
        PipelineStage {
            op: alu(self.op),
            forward: self.forward.clone(),
            prev_register_ids: self.prev.clone(),
            next_register_ids: self.next.clone(),
            output_register_ids: self.out.clone(),
        }
    }

    fn model(&self, prev: &[u64], next: &[u64]) -> Vec<u64> {
        let i: Vec<u64> = self.prev.iter().map(|r| prev[*r]).collect();
        let o: Vec<u64> = self.next.iter().map(|r| next[*r]).collect();
        let results = apply(self.op, &i, &o);
        let mut row = next.to_vec();
        for (r, v) in self.out.iter().zip(results) {
            row[*r] = v;
        }
        for (s, d) in &self.forward {
            row[*d] = prev[*s];
        }
        row
    }
}

fn value(g: &mut Gen) -> u64 {
    match g.below(4) {
        0 => g.bits(),
        1 => u64::MAX - g.below(3),
        _ => g.below(20),
    }
}

fn stages(g: &mut Gen) -> Case {
    let regs = g.usize(1, 5);
    let s = StageSpec::draw(g, regs);
    let prev: Vec<u64> = (0..regs).map(|_| value(g)).collect();
    let next: Vec<u64> = (0..regs).map(|_| value(g)).collect();
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{s:?}{prev:?}{next:?}")),
        nontrivial: !s.out.is_empty() || !s.forward.is_empty(),
        sample: json!({"operation": OPS[s.op].0, "stage": s, "previous registers": prev, "next registers": next}),
        ..Default::default()
    };
    let row = |v: &[u64]| v.iter().map(|x| PipelineRegister { data: Num(*x) }).collect::<Vec<_>>();
    let got: Vec<u64> = s.real().run(&row(&prev), &row(&next)).iter().map(|r| r.data.0).collect();
    case.check(differ("registers after the stage", &s.model(&prev, &next), &got));
    case
}

pub fn pipeline(g: &mut Gen) -> Case {
    let infer = g.infer(1, 3);
    let depth = g.count(0, 5);
    let regs = g.count(1, 5);
    let specs: Vec<StageSpec> = (0..g.usize(0, depth)).map(|_| StageSpec::draw(g, regs)).collect();
    let n_in = g.usize(1, regs);
    let n_out = g.usize(1, regs);
    let len = g.length(0, 8);
    let start = g.start();
    let ins: Vec<(Shape, Vec<Item<u64>>)> = (0..n_in)
        .map(|_| {
            let n = if g.chance(1, 5) { g.usize(0, 8) } else { len };
            let shape = Shape::draw(g, true, 3);
            let mut items = draw_items(g, n, |g, _| value(g));
            later(&mut items, start);
            (shape, items)
        })
        .collect();
    let outs: Vec<(Shape, Vec<u64>)> = (0..n_out)
        .map(|_| (Shape::draw(g, true, 3), (0..g.usize(0, 3)).map(|_| g.small(12)).collect()))
        .collect();
    let plan = Plan::draw(g, 5_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{specs:?}{ins:?}{outs:?}{depth}{}{}", plan.seed, plan.policy)),
        sample: json!({"depth": depth, "registers": regs, "stages": specs, "inputs": ins, "outputs": outs, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };

    // Values.
    let rounds = ins.iter().map(|i| i.1.len()).min().unwrap_or(0);
    let mut rows = vec![vec![0u64; regs]; depth + 1];
    let mut feeds: Vec<Feed> = ins.iter().map(|i| Feed::new(&i.1, i.0)).collect();
    let mut sinks: Vec<Sink> = outs.iter().map(|o| Sink::new(o.0, &o.1)).collect();
    let mut want: Vec<Vec<(u64, u64)>> = vec![vec![]; n_out];
    let mut tick = 0u64;
    for k in 0..rounds {
        for (i, (_, items)) in ins.iter().enumerate() {
            rows[0][i] = items[k].value;
        }
        for d in 0..depth {
            let next = match specs.get(d) {
                Some(s) => s.model(&rows[d], &rows[d + 1]),
                None => rows[d].clone(),
            };
            rows[d + 1] = next;
        }
        // Times: all inputs are there, then they are taken together.
        for f in &mut feeds {
            tick = tick.max(f.head().expect("there are enough"));
        }
        for f in &mut feeds {
            f.take(tick);
        }
        let ready = tick + depth as u64;
        for (i, s) in sinks.iter_mut().enumerate() {
            let t = s.push(&mut tick, ready);
            want[i].push((t, rows[depth][i]));
        }
        tick += 1;
    }

    let logs = shared(vec![]);
    let out = simulate(&plan, infer, |b| {
        let mut pcu = PCU::<Num>::new(
            PCUConfig { pipeline_depth: depth, num_registers: regs },
            PCU::<Num>::READ_ALL_INPUTS,
            PCU::<Num>::WRITE_ALL_RESULTS,
        );
        for s in &specs {
            pcu.push_stage(s.real());
        }
        for (shape, items) in &ins {
            let (s, r) = shape.make(b);
            feeder(b, s, items.iter().map(|i| Item { wait: i.wait, ahead: i.ahead, value: Num(i.value) }).collect());
            pcu.add_input_channel(r);
        }
        for (shape, delays) in &outs {
            let (s, r) = shape.make::<Num>(b);
            pcu.add_output_channel(s);
            logs.lock().unwrap().push(drainer(b, r, delays.clone()));
        }
        b.add_child(pcu);
    });
    let accumulates = specs.iter().any(|s| !s.next.is_empty());
    case.nontrivial = !specs.is_empty() && rounds >= 2 && (accumulates || specs.len() > 1 || specs.iter().any(|s| !s.forward.is_empty()));
    case.class("accumulates", accumulates);
    case.class("missing stages", specs.len() < depth);
    case.class("inputs of different length", ins.iter().any(|i| i.1.len() != rounds));
    case.class("flavor inference", infer);
    match out.done() {
        Ok(s) if s.passed => {}
        Ok(s) => case.fail(format!("failures: {:?}", s.failures)),
        Err(e) => case.fail(e),
    }
    if case.violation.is_some() {
        return case;
    }
    let mut history = vec![];
    for (i, l) in take(&logs).iter().enumerate() {
        let got: Vec<(u64, u64)> = take(l).iter().map(|x| (x.0, x.2 .0)).collect();
        history.push(format!("{got:?}"));
        case.check(differ(&format!("results (time, value) on output {i}"), &want[i], &got));
    }
    case.history = Some(history);
    case
}

#[derive(Clone, Debug, Serialize)]
enum Source {
    Generator(Vec<u64>),
    Trace(Vec<(u64, u64)>),
    Function(Vec<Item<u64>>),
}

#[derive(Clone, Debug, Serialize)]
enum Node {
    Broadcast(Vec<usize>),
    Consumer,
    Printer,
    Drainer(Vec<u64>),
    /// How many it expects.
    Checker(usize),
}

pub fn trees(g: &mut Gen) -> Case {
    let infer = g.infer(1, 2);
    let mut chans: Vec<Shape> = vec![];
    let mut sources: Vec<(Source, usize)> = vec![];
    // The context at the far end of each channel, by channel.
    let mut nodes: Vec<Node> = vec![];
    for _ in 0..g.count(1, 2) {
        let n = g.length(0, 8);
        let start = g.start();
        let s = match g.below(3) {
            0 => Source::Generator((0..n).map(|_| g.below(1000)).collect()),
            1 => {
                let mut at = start;
                Source::Trace(
                    (0..n)
                        .map(|_| {
                            at += if g.chance(1, 2) { g.small(15) } else { 0 };
                            (g.below(1000), at)
                        })
                        .collect(),
                )
            }
            _ => {
                let mut items = draw_items(g, n, |g, _| g.below(1000));
                later(&mut items, start);
                Source::Function(items)
            }
        };
        let root = chans.len();
        chans.push(Shape::draw(g, true, 3));
        nodes.push(Node::Consumer);
        sources.push((s, root));
        let mut open = vec![(root, 0)];
        while let Some((c, level)) = open.pop() {
            let kind = if level < 2 && chans.len() < 9 { g.weighted(&[6, 2, 6, 2, 1]) } else { 1 + g.weighted(&[2, 6, 2, 1]) };
            nodes[c] = match kind {
                0 => {
                    let targets: Vec<usize> = (0..g.count(0, 3))
                        .map(|_| {
                            chans.push(Shape::draw(g, true, 3));
                            nodes.push(Node::Consumer);
                            chans.len() - 1
                        })
                        .collect();
                    open.extend(targets.iter().map(|t| (*t, level + 1)));
                    Node::Broadcast(targets)
                }
                1 => Node::Consumer,
                2 => Node::Drainer((0..g.usize(0, 3)).map(|_| g.small(12)).collect()),
                3 => Node::Checker(n),
                _ => Node::Printer,
            };
        }
    }
    let plan = Plan::draw(g, 5_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{sources:?}{chans:?}{nodes:?}{}{}", plan.seed, plan.policy)),
        sample: json!({"sources": sources, "channels": chans, "ends": nodes, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };

    // The same as lists of operations, for the model. Process c reads channel c; sources come after.
    let m = chans.len();
    let mut values: Vec<Vec<u64>> = vec![vec![]; m];
    let mut writer = vec![0; m];
    for (i, (s, c)) in sources.iter().enumerate() {
        values[*c] = match s {
            Source::Generator(v) => v.clone(),
            Source::Trace(v) => v.iter().map(|x| x.0).collect(),
            Source::Function(v) => v.iter().map(|x| x.value).collect(),
        };
        writer[*c] = m + i;
    }
    let mut ops: Vec<Vec<Op>> = vec![vec![]; m + sources.len()];
    // Targets always have higher numbers.
    for c in 0..m {
        let n = values[c].len();
        match &nodes[c] {
            Node::Broadcast(ts) => {
                for t in ts {
                    values[*t] = values[c].clone();
                    writer[*t] = c;
                }
                for _ in 0..n {
                    ops[c].push(Op::Deq(c));
                    ops[c].extend(ts.iter().map(|t| Op::Avail(*t)));
                    ops[c].extend(ts.iter().map(|t| Op::Enq(*t, Req::Rel(1))));
                }
            }
            Node::Consumer | Node::Printer => {
                for _ in 0..n {
                    ops[c].extend([Op::Deq(c), Op::Incr(1)]);
                }
            }
            Node::Drainer(d) => ops[c] = drain_ops(n, d, c),
            Node::Checker(k) => {
                for _ in 0..*k {
                    ops[c].push(Op::Deq(c));
                }
            }
        }
    }
    for (i, (s, c)) in sources.iter().enumerate() {
        ops[m + i] = match s {
            Source::Generator(v) => v.iter().flat_map(|_| [Op::Enq(*c, Req::Rel(1)), Op::Incr(1)]).collect(),
            Source::Trace(v) => v.iter().flat_map(|x| [Op::Adv(x.1.saturating_sub(1)), Op::Enq(*c, Req::Rel(1))]).collect(),
            Source::Function(v) => feed_ops(v, *c),
        };
    }
    let model: Vec<Chan> = (0..m).map(|c| chans[c].chan(writer[c], c)).collect();
    let want = match predict(&model, &ops) {
        Ok(p) => p,
        Err(e) => {
            case.inconclusive = Some(format!("the model says this cannot finish: {e}"));
            return case;
        }
    };

    let again: Vec<bool> = (0..sources.len() + m).map(|_| g.chance(1, 4)).collect();
    let complaints = shared(vec![]);
    let logs = shared(vec![]);
    let out = simulate(&plan, infer, |b| {
        let mut ends: Vec<(Option<dam::channel::Sender<u64>>, Option<Receiver<u64>>)> = chans
            .iter()
            .map(|s| {
                let (a, z) = s.make(b);
                (Some(a), Some(z))
            })
            .collect();
        // Some are asked to run a second time.
        macro_rules! add {
            ($again:expr, $c:expr) => {{
                let c = $c;
                if $again {
                    b.add_child(twice(c, &complaints));
                } else {
                    b.add_child(c);
                }
            }};
        }
        for ((s, c), again) in sources.iter().zip(&again) {
            let snd = ends[*c].0.take().unwrap();
            match s.clone() {
                Source::Generator(v) => add!(*again, GeneratorContext::new(move || v.into_iter(), snd)),
                Source::Trace(v) => add!(*again, TraceContext::new(move || v.into_iter().map(|x| (x.0, Time::new(x.1))), snd)),
                Source::Function(v) => add!(*again, feed(snd, v)),
            }
        }
        for c in 0..m {
            let rcv = ends[c].1.take().unwrap();
            match &nodes[c] {
                Node::Broadcast(ts) => {
                    let mut x = BroadcastContext::new(rcv);
                    for t in ts {
                        x.add_target(ends[*t].0.take().unwrap());
                    }
                    b.add_child(x);
                }
                Node::Consumer => b.add_child(ConsumerContext::new(rcv)),
                Node::Printer => b.add_child(PrinterContext::new(rcv)),
                Node::Drainer(d) => {
                    let l = drainer(b, rcv, d.clone());
                    logs.lock().unwrap().push((c, l));
                }
                Node::Checker(_) => {
                    let v = values[c].clone();
                    add!(again[sources.len() + c], CheckerContext::new(move || v.into_iter(), rcv));
                }
            }
        }
    });
    let wide = nodes.iter().any(|n| matches!(n, Node::Broadcast(t) if t.len() >= 2));
    case.nontrivial = (wide || want.stalls > 0) && values.iter().any(|v| v.len() >= 2);
    case.class("a wide broadcast", wide);
    case.class("somebody is held back", want.stalls > 0);
    case.class("a trace", sources.iter().any(|s| matches!(s.0, Source::Trace(_))));
    case.class("a trace from time zero", sources.iter().any(|s| matches!(&s.0, Source::Trace(v) if v.first().map_or(false, |x| x.1 == 0))));
    case.class("flavor inference", infer);
    if let Some(t) = take(&complaints).first() {
        case.fail(t.clone());
    }
    let s = match out.done() {
        Ok(s) if s.passed => s,
        Ok(s) => {
            case.fail(format!("failures: {:?}", s.failures));
            return case;
        }
        Err(e) => {
            case.fail(e);
            return case;
        }
    };
    let mut history = vec![];
    for (c, l) in take(&logs) {
        let got: Vec<(u64, u64)> = take(&l).iter().map(|x| (x.0, x.2)).collect();
        history.push(format!("{got:?}"));
        let expected: Vec<(u64, u64)> = want.times[c].iter().copied().zip(values[c].iter().copied()).collect();
        case.check(differ(&format!("elements (time, value) arriving on channel {c}"), &expected, &got));
    }
    case.history = Some(history);
    // The clock of whoever noticed a channel closing is not settled further than this.
    let end = want.ticks.iter().filter_map(|t| t.last()).max().copied().unwrap_or(0);
    if !s.elapsed.is_some_and(|e| e >= end && e <= end + 20) {
        case.fail(format!("elapsed cycles {:?}, but the last operation is at {end}", s.elapsed));
    }
    case
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// What is printed to standard output meanwhile. The parts run one at a time, and of this one
/// one case at a time.
fn printed<R>(f: impl FnOnce() -> R) -> (R, String) {
    use std::io::{Read, Seek, Write};
    use std::os::fd::AsRawFd;
    static ONE: std::sync::Mutex<u64> = std::sync::Mutex::new(0);
    let mut one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    *one += 1;
    let path = std::env::temp_dir().join(format!("damcheck-{}-{}", std::process::id(), *one));
    let mut file = std::fs::File::options().read(true).write(true).create_new(true).open(&path).expect("scratch file");
    std::fs::remove_file(&path).expect("own scratch file");
    let mut out = std::io::stdout();
    out.flush().unwrap();
    // Safety: plain descriptors of our own.
    let old = unsafe { dup(1) };
    unsafe { dup2(file.as_raw_fd(), 1) };
    let r = f();
    out.flush().unwrap();
    unsafe {
        dup2(old, 1);
        close(old);
    }
    let mut text = String::new();
    file.rewind().unwrap();
    file.read_to_string(&mut text).unwrap();
    (r, text)
}

fn printer(g: &mut Gen) -> Case {
    let infer = g.infer(1, 2);
    let feeds: Vec<(Shape, Vec<Item<u64>>)> = (0..g.usize(1, 2))
        .map(|i| {
            let shape = Shape::draw(g, true, 3);
            let n = g.usize(0, 6);
            // Every value is printed as a number which appears nowhere else.
            (shape, draw_items(g, n, |_, k| 7_000_000 + 1000 * i as u64 + k as u64))
        })
        .collect();
    let plan = Plan::draw(g, 5_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{feeds:?}{}{}", plan.seed, plan.policy)),
        nontrivial: feeds.iter().any(|f| f.1.len() >= 2),
        sample: json!({"feeds": feeds, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };
    let (out, text) = printed(|| {
        simulate(&plan, infer, |b| {
            for (shape, items) in &feeds {
                let (s, r) = shape.make(b);
                feeder(b, s, items.clone());
                b.add_child(PrinterContext::new(r));
            }
        })
    });
    match out.done() {
        Ok(s) if s.passed => {}
        Ok(s) => case.fail(format!("failures: {:?}", s.failures)),
        Err(e) => {
            case.fail(e);
            return case;
        }
    }
    let seen: Vec<u64> = text
        .split(|c: char| !c.is_ascii_digit())
        .filter_map(|w| w.parse().ok())
        .filter(|v| *v >= 7_000_000)
        .collect();
    for (i, (_, items)) in feeds.iter().enumerate() {
        let base = 7_000_000 + 1000 * i as u64;
        let got: Vec<u64> = seen.iter().copied().filter(|v| *v >= base && *v < base + 1000).collect();
        let want: Vec<u64> = items.iter().map(|x| x.value).collect();
        case.check(differ(&format!("values printed by printer {i}"), &want, &got));
    }
    case
}

fn traces(g: &mut Gen) -> Case {
    let n = g.usize(0, 20);
    let lo = g.small(20);
    let hi = lo + g.small(20);
    let got: Vec<(usize, Time)> = random_trace(n, lo, hi).collect();
    let mut case = Case {
        key: crate::gen::mix(&[n as u64, lo, hi]),
        nontrivial: n >= 2,
        sample: json!({"length": n, "least step": lo, "largest step": hi}),
        ..Default::default()
    };
    let mut at = 0;
    if got.len() != n {
        case.fail(format!("{} elements, expected {n}", got.len()));
    }
    for (i, (k, t)) in got.iter().enumerate() {
        let t = time_of(*t);
        if *k != i || t < at + lo || t > at + hi {
            case.fail(format!("element {i} is number {k} at {t}, after {at}, with steps {lo} to {hi}"));
        }
        at = t;
    }
    case
}

#[derive(Clone, Debug, Serialize)]
struct Check {
    chan: Shape,
    expect: Vec<u64>,
    stream: Vec<Item<u64>>,
    /// For the approximate one.
    tolerance: Option<u64>,
    generator: bool,
    /// Asked to run a second time.
    again: bool,
}

impl Check {
    fn fits(&self, e: u64, x: u64) -> bool {
        match self.tolerance {
            None => e == x,
            // Not symmetric, so that a swapped comparison shows.
            Some(t) => x >= e && x - e <= t,
        }
    }

    /// Where it goes wrong, and whether because the stream ended.
    fn wrong(&self) -> Option<(usize, bool)> {
        (0..self.expect.len()).find_map(|i| match self.stream.get(i) {
            None => Some((i, true)),
            Some(x) if !self.fits(self.expect[i], x.value) => Some((i, false)),
            _ => None,
        })
    }
}

fn checkers(g: &mut Gen) -> Case {
    let infer = g.infer(1, 3);
    let checks: Vec<Check> = (0..g.count(1, 3))
        .map(|_| {
            let n = g.length(0, 8);
            let tolerance = if g.chance(1, 3) { Some(g.below(4)) } else { None };
            let expect: Vec<u64> = (0..n).map(|_| g.below(50)).collect();
            let mut stream: Vec<u64> = expect.iter().map(|e| e + g.below(tolerance.unwrap_or(0) + 1)).collect();
            let edits = if g.chance(1, 2) { g.usize(1, 3) } else { 0 };
            for _ in 0..edits {
                let i = g.below(stream.len() as u64 + 1) as usize;
                match g.below(5) {
                    0 => stream.truncate(i),
                    1 => stream.insert(i, g.below(50)),
                    2 if i < stream.len() => stream[i] += 1 + g.below(5),
                    3 if i < stream.len() => stream[i] = stream[i].saturating_sub(1),
                    4 if i < stream.len() => drop(stream.remove(i)),
                    _ => stream.push(g.below(50)),
                }
            }
            let values = stream.clone();
            // A source which fails when nobody listens any more would fail on its own account.
            let generator = stream.len() <= expect.len() && g.chance(1, 2);
            Check { chan: Shape::draw(g, true, 3), expect, stream: draw_items(g, values.len(), |_, i| values[i]), tolerance, generator, again: g.chance(1, 4) }
        })
        .collect();
    let plan = Plan::draw(g, 5_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{checks:?}{}{}", plan.seed, plan.policy)),
        sample: json!({"checkers": checks, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };
    let ids = shared(vec![]);
    let mut generators = vec![];
    let gens = shared(vec![]);
    // Where each checker says its stream ended.
    let ends: Vec<Shared<Option<(usize, dam::channel::ChannelID)>>> = checks.iter().map(|_| shared(None)).collect();
    let mut channels = vec![];
    let complaints = shared(vec![]);
    let out = simulate(&plan, infer, |b| {
        for (c, end) in checks.iter().zip(&ends) {
            let (s, r) = c.chan.make::<u64>(b);
            channels.push(r.id());
            macro_rules! add {
                ($again:expr, $c:expr) => {{
                    let end = end.clone();
                    let run = move |x: &mut dyn FnMut() -> anyhow::Result<()>| {
                        let r = x();
                        if let Err(Some(UtilityError::Receiver { iteration, channel })) = r.as_ref().map_err(|e| e.downcast_ref()) {
                            *end.lock().unwrap() = Some((*iteration, *channel));
                        }
                        r
                    };
                    if $again {
                        b.add_child(Around::new(twice($c, &complaints), move |c| run(&mut || c.run_falliable())));
                    } else {
                        b.add_child(Around::new($c, move |c| run(&mut || c.run_falliable())));
                    }
                }};
            }
            if c.generator {
                let v: Vec<u64> = c.stream.iter().map(|i| i.value).collect();
                let x = GeneratorContext::new(move || v.into_iter(), s);
                gens.lock().unwrap().push(x.id().id);
                b.add_child(x);
            } else {
                feeder(b, s, c.stream.clone());
            }
            let e = c.expect.clone();
            match c.tolerance {
                None => {
                    let x = CheckerContext::new(move || e.into_iter(), r);
                    ids.lock().unwrap().push(x.id().id);
                    add!(c.again, x);
                }
                Some(t) => {
                    let x = ApproxCheckerContext::new(move || e.into_iter(), r, move |e: &u64, x: &u64| *x >= *e && *x - *e <= t);
                    ids.lock().unwrap().push(x.id().id);
                    add!(c.again, x);
                }
            }
        }
    });
    generators.extend(take(&gens));
    let wrong: Vec<Option<(usize, bool)>> = checks.iter().map(|c| c.wrong()).collect();
    // An approximate checker panics, which takes the whole run down.
    let panics = checks.iter().zip(&wrong).any(|(c, w)| c.tolerance.is_some() && matches!(w, Some((_, false))));
    case.class("matching", wrong.iter().all(|w| w.is_none()));
    case.class("differs", wrong.iter().any(|w| matches!(w, Some((_, false)))));
    case.class("ends early", wrong.iter().any(|w| matches!(w, Some((_, true)))));
    case.class("goes on longer", checks.iter().any(|c| c.stream.len() > c.expect.len()));
    case.nontrivial = checks.iter().zip(&wrong).any(|(c, w)| c.stream.len() >= 2 && (w.is_some() || c.stream.len() > c.expect.len()));
    let s = match (out.done(), panics) {
        (Err(e), true) if e.contains("panicked") => return { let _ = e; case },
        (Err(e), _) => {
            case.fail(e);
            return case;
        }
        (Ok(s), true) => {
            // Reported without a panic is as good.
            if s.passed {
                case.fail("an approximate checker saw a value out of tolerance, and the run passed");
            }
            return case;
        }
        (Ok(s), false) => s,
    };
    let said: Vec<_> = ends.iter().map(take).collect();
    let short: Vec<_> = wrong.iter().zip(&channels).map(|(w, c)| w.filter(|w| w.1).map(|w| (w.0, *c))).collect();
    case.check(differ("where the checkers say their streams ended early", &short, &said));
    if let Some(t) = take(&complaints).first() {
        case.fail(t.clone());
    }
    let ids = take(&ids);
    let mut want: Vec<(usize, String)> = wrong
        .iter()
        .enumerate()
        .filter_map(|(i, w)| w.map(|(at, early)| (ids[i], if early { "prematurely closed".into() } else { format!("on iteration {at}:") })))
        .collect();
    want.sort();
    // A generator whose checker has left fails itself; that is not the checker's verdict.
    let mut got: Vec<(usize, String)> = s.failures.iter().filter(|f| !generators.contains(&f.0)).cloned().collect();
    got.sort();
    if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| a.0 != b.0 || !a.1.contains(&b.1)) {
        case.fail(format!("failures reported {got:?}, expected {want:?}"));
    }
    if want.is_empty() && !s.passed && s.failures.iter().all(|f| !generators.contains(&f.0)) {
        case.fail("the run did not pass although no checker failed");
    }
    if !want.is_empty() && s.passed {
        case.fail("the run passed although a checker failed");
    }
    case
}

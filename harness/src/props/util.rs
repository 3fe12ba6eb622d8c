//! Shared pieces: running a program, feeding and draining channels, and a timed reference model of
//! any network whose processes perform fixed lists of channel operations.
use crate::prog::{Chan, Op, Req};
use crate::sim::{run, Plan, RunOut};
use dam::channel::{ChannelElement, Receiver, Sender};
use dam::context_tools::DAMType;
use dam::simulation::*;
use dam::structures::Time;
use dam::utility_contexts::FunctionContext;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
pub struct Summary {
    pub elapsed: Option<u64>,
    pub passed: bool,
    /// Identifier and error of each failed context.
    pub failures: Vec<(usize, String)>,
}

pub type Shared<T> = Arc<Mutex<T>>;

pub fn shared<T>(v: T) -> Shared<T> {
    Arc::new(Mutex::new(v))
}

pub fn take<T: Default>(s: &Shared<T>) -> T {
    std::mem::take(&mut *s.lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn options(infer: bool) -> InitializationOptions {
    InitializationOptionsBuilder::default()
        .run_flavor_inference(infer)
        .build()
        .unwrap()
}

pub fn summary(e: &Executed) -> Summary {
    Summary {
        elapsed: e.elapsed_cycles(),
        passed: e.passed(),
        failures: e.run_failures(|f| {
            f.iter()
                .map(|x| {
                    let (id, text) = crate::props::failure_parts(x);
                    (id, text)
                })
                .collect()
        }),
    }
}

thread_local! {
    /// How `simulate` departs from what it is asked for: without flavor inference, and under another schedule.
    static VARIANT: std::cell::Cell<(bool, u64)> = const { std::cell::Cell::new((false, 0)) };
}

/// Runs `f` with every simulation in it without flavor inference, if `plain`, and under the `other`th other schedule.
pub fn varied<R>(plain: bool, other: u64, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            VARIANT.with(|v| v.set((false, 0)));
        }
    }
    let _reset = Reset;
    VARIANT.with(|v| v.set((plain, other)));
    f()
}

pub fn simulate<'a>(plan: &Plan, infer: bool, build: impl FnOnce(&mut ProgramBuilder<'a>)) -> RunOut<Summary> {
    let (plain, other) = VARIANT.with(|v| v.get());
    let infer = infer && !plain;
    let plan = &plan.another(other);
    run(plan, || {
        let mut b = ProgramBuilder::default();
        build(&mut b);
        let e = b.initialize(options(infer)).expect("initialize").run(RunOptions::default());
        summary(&e)
    })
}

/// A latency: mostly small, now and then more than a byte holds.
pub fn latency(g: &mut crate::gen::Gen, most: u64) -> u64 {
    1 + if g.chance(1, 50) { 200 + g.below(500) } else { g.small(most) }
}

/// The shape of one channel.
#[derive(Clone, Copy, Debug, serde::Serialize)]
pub struct Shape {
    pub cap: Option<usize>,
    pub lat: u64,
    pub rlat: u64,
}

impl Shape {
    pub fn draw(g: &mut crate::gen::Gen, bounded: bool, max_cap: u64) -> Self {
        Shape {
            cap: if bounded && g.chance(2, 3) { Some(g.count(1, max_cap as usize)) } else { None },
            lat: latency(g, 6),
            rlat: latency(g, 6),
        }
    }

    pub fn unbounded() -> Self {
        Shape { cap: None, lat: 1, rlat: 1 }
    }

    pub fn make<'a, T: Clone + 'a>(&self, b: &mut ProgramBuilder<'a>) -> (Sender<T>, Receiver<T>) {
        match self.cap {
            Some(c) if self.lat == 1 && self.rlat == 1 => b.bounded(c),
            Some(c) => b.bounded_with_latency(c, self.lat, self.rlat),
            None if self.lat == 1 && self.rlat == 1 => b.unbounded(),
            None => b.unbounded_with_latency(self.lat, self.rlat),
        }
    }

    pub fn chan(&self, src: usize, dst: usize) -> Chan {
        Chan { src, dst, cap: self.cap, lat: self.lat, rlat: self.rlat }
    }
}

/// One element to send: cycles to wait before, how far ahead to ask for, the value.
#[derive(Clone, Debug, serde::Serialize)]
pub struct Item<T> {
    pub wait: u64,
    pub ahead: u64,
    pub value: T,
}

pub fn draw_items<T>(g: &mut crate::gen::Gen, n: usize, mut value: impl FnMut(&mut crate::gen::Gen, usize) -> T) -> Vec<Item<T>> {
    (0..n)
        .map(|i| Item {
            wait: if g.chance(1, 2) { g.small(20) } else { 0 },
            ahead: if g.chance(1, 4) { g.small(20) } else { 0 },
            value: value(g, i),
        })
        .collect()
}

/// Moves the start of a stream. Everybody who feeds the same context moves by as much, as otherwise
/// one of them may wait for the others cycle by cycle.
pub fn later<T>(items: &mut [Item<T>], start: u64) {
    if let Some(i) = items.first_mut() {
        i.wait += start;
    }
}

/// The operations of a feeder on channel `ch`, for the model.
pub fn feed_ops<T>(items: &[Item<T>], ch: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in items {
        if i.wait > 0 {
            v.push(Op::Incr(i.wait));
        }
        v.push(Op::Enq(ch, Req::Rel(i.ahead)));
    }
    v.push(Op::DropSender(ch));
    v
}

pub fn feeder<'a, T: DAMType + 'a>(b: &mut ProgramBuilder<'a>, snd: Sender<T>, items: Vec<Item<T>>) {
    b.add_child(feed(snd, items));
}

pub fn feed<'a, T: DAMType + 'a>(snd: Sender<T>, items: Vec<Item<T>>) -> impl dam::context_tools::Context + 'a {
    let mut fc = FunctionContext::new();
    snd.attach_sender(&fc);
    fc.set_run(move |time| {
        for i in items {
            if i.wait > 0 {
                time.incr_cycles(i.wait);
            }
            let at = time.tick() + i.ahead;
            if snd.enqueue(time, ChannelElement::new(at, i.value)).is_err() {
                return;
            }
        }
        drop(snd);
    });
    fc
}

/// Element time, clock after, value.
pub type Taken<T> = Vec<(u64, u64, T)>;

pub fn drain_ops(n: usize, delays: &[u64], ch: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n {
        if !delays.is_empty() && delays[i % delays.len()] > 0 {
            v.push(Op::Incr(delays[i % delays.len()]));
        }
        v.push(Op::Deq(ch));
    }
    v
}

/// Takes everything until the channel closes.
pub fn drainer<'a, T: DAMType + 'a>(b: &mut ProgramBuilder<'a>, rcv: Receiver<T>, delays: Vec<u64>) -> Shared<Taken<T>> {
    let log = shared(vec![]);
    let out = log.clone();
    let mut fc = FunctionContext::new();
    rcv.attach_receiver(&fc);
    fc.set_run(move |time| {
        let mut i = 0;
        loop {
            if !delays.is_empty() && delays[i % delays.len()] > 0 {
                time.incr_cycles(delays[i % delays.len()]);
            }
            i += 1;
            match rcv.dequeue(time) {
                Ok(ce) => {
                    let entry = (ce.time.time(), time.tick().time(), ce.data);
                    out.lock().unwrap().push(entry);
                }
                Err(_) => return,
            }
        }
    });
    b.add_child(fc);
    log
}

#[derive(Debug, Default, Clone)]
pub struct Predicted {
    /// The clock after each operation of each process.
    pub ticks: Vec<Vec<u64>>,
    /// The time of each element of each channel.
    pub times: Vec<Vec<u64>>,
    /// The receiver's clock after taking each element.
    pub taken: Vec<Vec<u64>>,
    pub stalls: usize,
}

/// Runs fixed operation lists on the reference model. Err: somebody can never continue.
pub fn predict(chans: &[Chan], ops: &[Vec<Op>]) -> Result<Predicted, String> {
    let n = ops.len();
    let m = chans.len();
    let mut p = Predicted {
        ticks: vec![vec![]; n],
        times: vec![vec![]; m],
        taken: vec![vec![]; m],
        stalls: 0,
    };
    let mut tick = vec![0u64; n];
    let mut dropped: Vec<Option<u64>> = vec![None; m];
    loop {
        let mut moved = false;
        for c in 0..n {
            while let Some(op) = ops[c].get(p.ticks[c].len()) {
                let slot = |ch: usize, p: &Predicted| match chans[ch].cap {
                    Some(cap) if p.times[ch].len() >= cap => p.taken[ch]
                        .get(p.times[ch].len() - cap)
                        .map(|t| t + chans[ch].rlat),
                    _ => Some(0),
                };
                match op {
                    Op::Enq(ch, req) => {
                        let at = match req {
                            Req::Abs(t) => *t,
                            Req::Rel(t) => tick[c] + t,
                        };
                        let Some(free) = slot(*ch, &p) else { break };
                        if free > tick[c] {
                            p.stalls += 1;
                            tick[c] = free;
                        }
                        let t = at.max(tick[c] + chans[*ch].lat);
                        p.times[*ch].push(t);
                    }
                    Op::Avail(ch) => {
                        let Some(free) = slot(*ch, &p) else { break };
                        if free > tick[c] {
                            p.stalls += 1;
                            tick[c] = free;
                        }
                    }
                    Op::Deq(ch) => {
                        let k = p.taken[*ch].len();
                        let Some(t) = p.times[*ch].get(k) else { break };
                        tick[c] = tick[c].max(*t);
                        p.taken[*ch].push(tick[c]);
                    }
                    Op::PeekNext(ch) => {
                        let k = p.taken[*ch].len();
                        let Some(t) = p.times[*ch].get(k) else { break };
                        tick[c] = tick[c].max(*t);
                    }
                    Op::Peek(_) | Op::DropReceiver(_) => {}
                    Op::EnqFail(..) => unreachable!("receivers stay"),
                    Op::Incr(d) => tick[c] += d,
                    Op::Adv(t) => tick[c] = tick[c].max(*t),
                    Op::DropSender(ch) => dropped[*ch] = Some(tick[c]),
                    Op::Closed(ch, ..) => {
                        if dropped[*ch].is_none() || p.taken[*ch].len() < p.times[*ch].len() {
                            break;
                        }
                    }
                }
                p.ticks[c].push(tick[c]);
                moved = true;
            }
        }
        if !moved {
            break;
        }
    }
    for c in 0..n {
        if p.ticks[c].len() < ops[c].len() {
            return Err(format!("process {c} stops before operation {}", p.ticks[c].len()));
        }
    }
    Ok(p)
}

/// Generous step limit for a run which ends by time `t` with `ops` operations in `n` contexts.
pub fn steps(t: u64, ops: usize, n: usize) -> u64 {
    30_000 + 600 * (t + ops as u64 + 50) * (n * n).max(4) as u64
}

pub fn time_of(t: Time) -> u64 {
    if t.is_infinite() {
        u64::MAX
    } else {
        t.time()
    }
}

/// The first place where two lists differ.
pub fn differ<T: PartialEq + std::fmt::Debug>(what: &str, want: &[T], got: &[T]) -> Result<(), String> {
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return Err(format!(
                "{what}: number {i} is {:?}, expected {:?} ({} seen, {} expected)",
                got.get(i), want.get(i), got.len(), want.len()
            ));
        }
    }
    Ok(())
}

pub type Body<'a> = Box<dyn FnOnce(&mut dam::structures::TimeManager) -> anyhow::Result<()> + Send + Sync + 'a>;

/// A context of the harness's own: runs a closure, counts how often it is initialised and run, may
/// declare which of its inputs can affect which of its outputs.
#[dam::context_tools::context_macro]
pub struct Actor<'a> {
    pub body: Option<Body<'a>>,
    /// Fails by panicking through the default shim around `run`.
    pub old_style: bool,
    pub inits: Arc<std::sync::atomic::AtomicUsize>,
    pub runs: Arc<std::sync::atomic::AtomicUsize>,
    pub groups: Option<Vec<(Vec<dam::channel::ChannelID>, Vec<dam::channel::ChannelID>)>>,
}

impl<'a> Actor<'a> {
    pub fn new() -> Self {
        Self {
            body: None,
            old_style: false,
            inits: Default::default(),
            runs: Default::default(),
            groups: None,
            context_info: Default::default(),
        }
    }

    pub fn body(&mut self, f: impl FnOnce(&mut dam::structures::TimeManager) -> anyhow::Result<()> + Send + Sync + 'a) {
        self.body = Some(Box::new(f));
    }
}

impl dam::context_tools::Context for Actor<'_> {
    fn init(&mut self) {
        self.inits.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }

    fn run(&mut self) {
        self.runs.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let f = self.body.take().expect("a body, once");
        f(&mut self.time).unwrap();
    }

    fn run_falliable(&mut self) -> anyhow::Result<()> {
        if self.old_style {
            // What the trait does by default, which an override cannot call.
            return OldStyle(self).run_falliable();
        }
        self.runs.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let f = self.body.take().expect("a body, once");
        f(&mut self.time)
    }

    fn edge_connections(&self) -> Option<dam::context::ExplicitConnections> {
        use dam::structures::Identifiable;
        self.groups.as_ref().map(|g| {
            std::collections::HashMap::from([(
                self.id(),
                g.iter()
                    .map(|(a, b)| (a.iter().copied().collect(), b.iter().copied().collect()))
                    .collect(),
            )])
        })
    }
}

struct OldStyle<'b, 'a>(&'b mut Actor<'a>);

impl dam::structures::Identifiable for OldStyle<'_, '_> {
    fn id(&self) -> dam::structures::Identifier {
        dam::structures::Identifiable::id(self.0)
    }
    fn name(&self) -> String {
        dam::structures::Identifiable::name(self.0)
    }
}

impl dam::structures::TimeViewable for OldStyle<'_, '_> {
    fn view(&self) -> dam::structures::TimeView {
        dam::structures::TimeViewable::view(self.0)
    }
}

impl dam::context_tools::Context for OldStyle<'_, '_> {
    fn run(&mut self) {
        dam::context_tools::Context::run(self.0)
    }
}

/// A context made of parts, which may be made of parts in turn, and which it runs one after the other.
pub struct Composite<'a> {
    pub parts: Vec<Piece<'a>>,
    pub identifier: dam::structures::Identifier,
    /// A clock of its own, and how far it takes it after its parts have run.
    pub own: Option<(dam::structures::TimeManager, u64)>,
}

impl<'a> Composite<'a> {
    pub fn new(parts: Vec<Actor<'a>>) -> Self {
        Self::nested(parts, 0)
    }

    /// Like `new`, but puts runs of consecutive parts into composites of their own; `fold` says how.
    pub fn nested(parts: Vec<Actor<'a>>, fold: u64) -> Self {
        let mut pieces = vec![];
        let mut rest = parts.into_iter();
        let mut fold = fold;
        while let Some(p) = rest.next() {
            let take = (fold % 4) as usize;
            fold /= 4;
            if take == 0 {
                pieces.push(Piece::Leaf(p.into()));
            } else {
                let inner: Vec<_> = std::iter::once(p).chain(rest.by_ref().take(take - 1)).collect();
                pieces.push(Piece::Inner(Box::new(Composite::nested(inner, fold).into())));
                fold /= 4;
            }
        }
        Self { parts: pieces, identifier: dam::structures::Identifier::new(), own: None }
    }

    pub fn depth(&self) -> usize {
        1 + self.parts.iter().map(|p| if let Piece::Inner(c) = p { c.depth() } else { 0 }).max().unwrap_or(0)
    }
}

pub enum Piece<'a> {
    Leaf(dam::context::ProxyContext<Actor<'a>>),
    Inner(Box<dam::context::ProxyContext<Composite<'a>>>),
}

impl Piece<'_> {
    /// Cleans up what is never going to run.
    fn abandon(&mut self) {
        use dam::types::Cleanable;
        match self {
            Piece::Leaf(x) => x.cleanup(),
            Piece::Inner(x) => {
                x.parts.iter_mut().for_each(|p| p.abandon());
                x.cleanup();
            }
        }
    }
}

/// The same expression on whichever kind of piece it is.
macro_rules! piece {
    ($p:expr, $x:ident => $e:expr) => {
        match $p {
            Piece::Leaf($x) => $e,
            Piece::Inner($x) => $e,
        }
    };
}

impl dam::structures::Identifiable for Composite<'_> {
    fn id(&self) -> dam::structures::Identifier {
        self.identifier
    }
    fn name(&self) -> String {
        "Composite".into()
    }
}

impl dam::structures::TimeViewable for Composite<'_> {
    fn view(&self) -> dam::structures::TimeView {
        if let Some((own, _)) = &self.own {
            return own.view().into();
        }
        dam::structures::ParentView {
            child_views: self.parts.iter().map(|p| piece!(p, x => x.view())).collect(),
        }
        .into()
    }
}

impl dam::context_tools::Context for Composite<'_> {
    fn init(&mut self) {
        self.parts.iter_mut().for_each(|p| piece!(p, x => x.init()));
    }

    fn run_falliable(&mut self) -> anyhow::Result<()> {
        use dam::types::Cleanable;
        let mut result = Ok(());
        for p in &mut self.parts {
            if result.is_ok() {
                result = piece!(p, x => x.run_falliable());
                piece!(p, x => x.cleanup());
            } else {
                p.abandon();
            }
        }
        if let (Some((own, far)), Ok(())) = (&self.own, &result) {
            own.advance(dam::structures::Time::new(*far));
        }
        result
    }

    fn ids(&self) -> std::collections::HashMap<dam::structures::VerboseIdentifier, std::collections::HashSet<dam::structures::VerboseIdentifier>> {
        use dam::structures::Identifiable;
        let mut m = std::collections::HashMap::from([(self.verbose(), self.parts.iter().map(|p| piece!(p, x => x.verbose())).collect())]);
        for p in &self.parts {
            m.extend(piece!(p, x => x.ids()));
        }
        m
    }

    fn summarize(&self) -> dam::context::ContextSummary {
        use dam::structures::{Identifiable, TimeViewable};
        dam::context::ContextSummary {
            id: self.verbose(),
            time: self.view(),
            children: self.parts.iter().map(|p| piece!(p, x => x.summarize())).collect(),
        }
    }
}

/// A context whose parts run side by side, each on a thread of its own, as the memory unit's do.
pub struct Parallel<'a> {
    pub parts: Vec<dam::context::ProxyContext<Actor<'a>>>,
    identifier: dam::structures::Identifier,
}

impl<'a> Parallel<'a> {
    pub fn new(parts: Vec<Actor<'a>>) -> Self {
        Self { parts: parts.into_iter().map(|p| p.into()).collect(), identifier: dam::structures::Identifier::new() }
    }
}

impl dam::structures::Identifiable for Parallel<'_> {
    fn id(&self) -> dam::structures::Identifier {
        self.identifier
    }
    fn name(&self) -> String {
        "Parallel".into()
    }
}

impl dam::structures::TimeViewable for Parallel<'_> {
    fn view(&self) -> dam::structures::TimeView {
        dam::structures::ParentView { child_views: self.parts.iter().map(|p| p.view()).collect() }.into()
    }
}

impl dam::context_tools::Context for Parallel<'_> {
    fn init(&mut self) {
        self.parts.iter_mut().for_each(|p| p.init());
    }

    fn run_falliable(&mut self) -> anyhow::Result<()> {
        use dam::types::Cleanable;
        let results = std::sync::Mutex::new(vec![]);
        let log = dam::logging::copy_log();
        dam::shim::scope(|s| {
            for p in &mut self.parts {
                let results = &results;
                let log = log.clone();
                dam::shim::spawn!(s, move || {
                    use dam::structures::Identifiable;
                    if let Some(mut l) = log {
                        l.id = p.id();
                        dam::logging::initialize_log(l);
                    }
                    let r = p.run_falliable();
                    p.cleanup();
                    results.lock().unwrap().push(r);
                })
                .unwrap();
            }
        });
        results.into_inner().unwrap().into_iter().collect()
    }

    fn ids(&self) -> std::collections::HashMap<dam::structures::VerboseIdentifier, std::collections::HashSet<dam::structures::VerboseIdentifier>> {
        use dam::structures::Identifiable;
        let mut m = std::collections::HashMap::from([(self.verbose(), self.parts.iter().map(|p| p.verbose()).collect())]);
        for p in &self.parts {
            m.extend(p.ids());
        }
        m
    }

    fn edge_connections(&self) -> Option<dam::context::ExplicitConnections> {
        let said: Vec<_> = self.parts.iter().filter_map(|p| p.edge_connections()).collect();
        if said.is_empty() {
            return None;
        }
        Some(said.into_iter().flatten().collect())
    }

    fn summarize(&self) -> dam::context::ContextSummary {
        use dam::structures::{Identifiable, TimeViewable};
        dam::context::ContextSummary {
            id: self.verbose(),
            time: self.view(),
            children: self.parts.iter().map(|p| p.summarize()).collect(),
        }
    }
}

/// Whether two elapsed times agree but for what finding closed channels may add.
pub fn near(a: Option<u64>, b: Option<u64>, slack: u64) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.abs_diff(b) <= slack,
        (a, b) => a.is_some() == b.is_some(),
    }
}

type Running<'a, C> = Box<dyn FnOnce(&mut C) -> anyhow::Result<()> + Send + Sync + 'a>;

/// A context which is run through the given function, and is the one inside in every other way.
pub struct Around<'a, C> {
    inner: C,
    run: Option<Running<'a, C>>,
}

impl<'a, C: dam::context_tools::Context> Around<'a, C> {
    pub fn new(inner: C, run: impl FnOnce(&mut C) -> anyhow::Result<()> + Send + Sync + 'a) -> Self {
        Self { inner, run: Some(Box::new(run)) }
    }
}

impl<C: dam::context_tools::Context> dam::structures::Identifiable for Around<'_, C> {
    fn id(&self) -> dam::structures::Identifier {
        self.inner.id()
    }
    fn name(&self) -> String {
        self.inner.name()
    }
}

impl<C: dam::context_tools::Context> dam::structures::TimeViewable for Around<'_, C> {
    fn view(&self) -> dam::structures::TimeView {
        self.inner.view()
    }
}

impl<C: dam::context_tools::Context> dam::context_tools::Context for Around<'_, C> {
    fn init(&mut self) {
        self.inner.init()
    }
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        let run = self.run.take().expect("a context is run once");
        run(&mut self.inner)
    }
    fn ids(&self) -> std::collections::HashMap<dam::structures::VerboseIdentifier, std::collections::HashSet<dam::structures::VerboseIdentifier>> {
        self.inner.ids()
    }
    fn edge_connections(&self) -> Option<dam::context::ExplicitConnections> {
        self.inner.edge_connections()
    }
    fn summarize(&self) -> dam::context::ContextSummary {
        self.inner.summarize()
    }
}

/// Runs the context a second time, which has to be refused and to change nothing, and keeps to the first result.
pub fn twice<'a, C: dam::context_tools::Context>(inner: C, complaints: &Shared<Vec<String>>) -> Around<'a, C> {
    let complaints = complaints.clone();
    Around::new(inner, move |c| {
        use dam::context_tools::ContextView;
        let first = c.run_falliable();
        let before = c.view().tick_lower_bound();
        let again = c.run_falliable();
        let refused = match &again {
            Err(e) => matches!(e.downcast_ref(), Some(dam::utility_contexts::UtilityError::DuplicateExec)),
            Ok(()) => false,
        };
        let after = c.view().tick_lower_bound();
        if !refused || before != after {
            let text = format!("{}, run a second time, gave {again:?} and went from {before} to {after}", c.name());
            complaints.lock().unwrap().push(text);
        }
        first
    })
}

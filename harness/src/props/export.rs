//! C21: the exported graph. C24: identifiers.
use super::util::*;
use crate::gen::Gen;
use crate::runner::{Case, Part};
use crate::sim::{catch, Plan};
use dam::channel::ChannelElement;
use dam::context::ContextSummary;
use dam::context::ProxyContext;
use dam::context_tools::*;
use dam::simulation::*;
use dam::structures::{Identifiable, Identifier, ParentView, TimeView, TimeViewable, VerboseIdentifier};
use dam::templates::datastore::Behavior;
use dam::templates::pmu::{PMUReadBundle, PMUWriteBundle, PMU};
use dam::types::Cleanable;
use dam::utility_contexts::*;
use graphviz_rust::dot_structures::{Attribute, EdgeTy, Graph, Id, NodeId, Stmt, Vertex};
use serde::Serialize;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![
        ("C21", vec![
            Part { name: "graphs", rule: "a random program of leaf contexts and nested groups, with named contexts, channels of all shapes and voids; exported as a graph and as text, before and after running; non-trivial when it has a group and at least two channels", run: graphs, quick: (8_000, 1_500), thorough: (300_000, 50_000) },
            Part { name: "library", rule: "a random program of the library's own contexts and memory units, exported before and after running; non-trivial when it has a memory unit", run: library, quick: (4_000, 800), thorough: (150_000, 20_000) },
        ]),
        ("C24", vec![
            Part { name: "millions", rule: "more than four million contexts' and as many channels' identifiers, from 4 threads; non-trivial always", run: millions, quick: (1, 1), thorough: (20, 20) },
            Part { name: "concurrent", rule: "2-8 threads create contexts, identifiers, channels and voids at the same time, thousands in all; non-trivial always", run: concurrent, quick: (150, 150), thorough: (5_000, 5_000) },
            Part { name: "everywhere", rule: "a random program of library and other contexts, some of them failing: identifiers from before the run against channel ends, part lists, summaries, errors and both exports; non-trivial when at least one context fails", run: everywhere, quick: (8_000, 1_500), thorough: (300_000, 40_000) },
        ]),
    ]
}

// ------------------------------------------------------------------------------------------------
// Reading a graph

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct DotNode {
    /// The clusters around it, outermost first.
    path: Vec<String>,
    id: String,
    attrs: Vec<(String, String)>,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct DotEdge {
    src: String,
    dst: String,
    attrs: Vec<(String, String)>,
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
struct Dot {
    name: String,
    nodes: Vec<DotNode>,
    /// Clusters: as nodes, with their own attributes.
    clusters: Vec<DotNode>,
    edges: Vec<DotEdge>,
}

fn id_text(id: &Id) -> String {
    match id {
        Id::Plain(s) | Id::Html(s) | Id::Anonymous(s) => s.clone(),
        Id::Escaped(s) => {
            let inner = s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(s);
            let mut out = String::new();
            let mut chars = inner.chars();
            while let Some(c) = chars.next() {
                match (c, c == '\\') {
                    (_, true) => match chars.next() {
                        Some('n') => out.push('\n'),
                        Some(x) => out.push(x),
                        None => out.push('\\'),
                    },
                    (c, _) => out.push(c),
                }
            }
            out
        }
    }
}

fn attrs(list: &[Attribute]) -> Vec<(String, String)> {
    let mut v: Vec<_> = list.iter().map(|a| (id_text(&a.0), id_text(&a.1))).collect();
    v.sort();
    v
}

fn node_name(n: &NodeId) -> String {
    id_text(&n.0)
}

fn read_stmts(stmts: &[Stmt], path: &[String], dot: &mut Dot) -> Result<Vec<(String, String)>, String> {
    let mut own = vec![];
    for s in stmts {
        match s {
            Stmt::Node(n) => dot.nodes.push(DotNode { path: path.to_vec(), id: node_name(&n.id), attrs: attrs(&n.attributes) }),
            Stmt::Attribute(a) => own.push((id_text(&a.0), id_text(&a.1))),
            Stmt::GAttribute(_) => {}
            Stmt::Subgraph(g) => {
                let name = id_text(&g.id);
                let mut inner = path.to_vec();
                inner.push(name.clone());
                let mut a = read_stmts(&g.stmts, &inner, dot)?;
                a.sort();
                dot.clusters.push(DotNode { path: path.to_vec(), id: name, attrs: a });
            }
            Stmt::Edge(e) => {
                let ends: Vec<&Vertex> = match &e.ty {
                    EdgeTy::Pair(a, b) => vec![a, b],
                    EdgeTy::Chain(v) => v.iter().collect(),
                };
                let name = |v: &Vertex| match v {
                    Vertex::N(n) => Ok(node_name(n)),
                    Vertex::S(_) => Err("an edge with a subgraph for an end".to_string()),
                };
                for p in ends.windows(2) {
                    dot.edges.push(DotEdge { src: name(p[0])?, dst: name(p[1])?, attrs: attrs(&e.attributes) });
                }
            }
        }
    }
    Ok(own)
}

fn read(g: &Graph) -> Result<Dot, String> {
    let Graph::DiGraph { id, stmts, strict } = g else { return Err("the graph is not directed".into()) };
    let mut dot = Dot { name: id_text(id), ..Default::default() };
    read_stmts(stmts, &[], &mut dot)?;
    if *strict {
        // A strict graph has one edge between two nodes, however many are written down.
        let mut seen = std::collections::BTreeSet::new();
        dot.edges.retain(|e| seen.insert((e.src.clone(), e.dst.clone())));
    }
    dot.nodes.sort();
    dot.clusters.sort();
    dot.edges.sort();
    Ok(dot)
}

fn attr<'a>(list: &'a [(String, String)], name: &str) -> Option<&'a str> {
    list.iter().find(|a| a.0 == name).map(|a| a.1.as_str())
}

/// `key: value` pairs of a tooltip.
fn fields(text: &str) -> BTreeMap<String, String> {
    text.split(['\n', ';'])
        .filter_map(|l| l.split_once(':'))
        .map(|(k, v)| (k.trim().to_string(), v.trim().to_string()))
        .collect()
}

// ------------------------------------------------------------------------------------------------
// What it has to show

#[derive(Debug, Clone, Serialize)]
struct Tree {
    id: String,
    name: String,
    parts: Vec<Tree>,
    /// What its clock ends at, if it is a leaf that finished.
    tick: Option<u64>,
}

impl Tree {
    fn leaves(&self) -> Vec<&Tree> {
        if self.parts.is_empty() {
            vec![self]
        } else {
            self.parts.iter().flat_map(|p| p.leaves()).collect()
        }
    }
}

#[derive(Debug, Clone, Serialize)]
struct Link {
    label: String,
    src: String,
    dst: String,
    cap: Option<usize>,
    lat: u64,
    rlat: u64,
}

/// `ID_7` is shown as node `Node_7`.
fn node_of(id: &str) -> String {
    format!("Node_{}", id.trim_start_matches("ID_"))
}

fn check_tree(t: &Tree, path: &[String], dot: &Dot, ran: bool) -> Result<usize, String> {
    let node = node_of(&t.id);
    let label = format!("{}({})", t.name, t.id);
    let list = if t.parts.is_empty() { &dot.nodes } else { &dot.clusters };
    let want = if t.parts.is_empty() { node.clone() } else { format!("cluster_{node}") };
    let found: Vec<_> = list.iter().filter(|n| n.id == want).collect();
    let [n] = found[..] else {
        return Err(format!("context {label} is shown {} times: {found:?}", found.len()));
    };
    if n.path != path {
        return Err(format!("context {label} is within {:?}, not within {path:?}", n.path));
    }
    if attr(&n.attrs, "label") != Some(&label) {
        return Err(format!("context {label} is labelled {:?}", attr(&n.attrs, "label")));
    }
    if ran {
        let text = attr(&n.attrs, "tooltip").ok_or_else(|| format!("context {label} does not show its elapsed ticks"))?;
        let got = fields(text).get("Elapsed").and_then(|x| x.parse::<u64>().ok());
        let possible: Vec<u64> = t.leaves().iter().filter_map(|l| l.tick).collect();
        let ok = if t.parts.is_empty() { t.tick.is_none() || got == t.tick } else { possible.is_empty() || got.is_some_and(|g| possible.contains(&g)) };
        if !ok {
            return Err(format!("context {label} shows {text:?}, it ended at {possible:?}"));
        }
    }
    let mut inner = path.to_vec();
    inner.push(want);
    let mut n = 1;
    for p in &t.parts {
        n += check_tree(p, &inner, dot, ran)?;
    }
    Ok(n)
}

fn judge(dot: &Dot, trees: &[Tree], links: &[Link], ran: bool) -> Result<(), String> {
    let mut n = 0;
    for t in trees {
        n += check_tree(t, &[], dot, ran)?;
    }
    // Voids may be shown as nodes of their own.
    let voids: BTreeSet<&str> = dot.edges.iter().filter(|e| attr(&e.attrs, "style") == Some("dotted")).map(|e| e.dst.as_str()).collect();
    let extra: Vec<_> = dot.nodes.iter().filter(|n| !voids.contains(n.id.as_str())).chain(&dot.clusters).collect();
    if extra.len() != n {
        return Err(format!("{} nodes and clusters for {n} contexts: {:?}", extra.len(), extra.iter().map(|e| &e.id).collect::<Vec<_>>()));
    }
    let edges: Vec<_> = dot.edges.iter().filter(|e| !voids.contains(e.dst.as_str())).collect();
    if edges.len() != links.len() {
        return Err(format!("{} edges for {} channels", edges.len(), links.len()));
    }
    for l in links {
        let (src, dst) = (node_of(&l.src), node_of(&l.dst));
        let found: Vec<_> = edges.iter().filter(|e| attr(&e.attrs, "label") == Some(&l.label)).collect();
        let [e] = found[..] else {
            return Err(format!("{} is shown {} times", l.label, found.len()));
        };
        if (&e.src, &e.dst) != (&src, &dst) {
            return Err(format!("{} goes from {} to {}, but is shown from {} to {}", l.label, src, dst, e.src, e.dst));
        }
        let f = fields(attr(&e.attrs, "tooltip").unwrap_or(""));
        let num = |k: &str| f.get(k).and_then(|x| x.parse::<u64>().ok());
        let cap = f.get("Capacity").map(|c| c.trim_start_matches("Some(").trim_end_matches(')').parse::<usize>().ok());
        if cap != Some(l.cap) || num("Latency") != Some(l.lat) || num("RespLatency") != Some(l.rlat) {
            return Err(format!("{} has capacity {:?} and latencies {} and {}, but is shown with {f:?}", l.label, l.cap, l.lat, l.rlat));
        }
    }
    Ok(())
}

/// Both forms of an export, which have to agree.
fn export(p: &impl DotConvertible) -> Result<Dot, String> {
    let dot = read(&p.to_dot())?;
    let text = p.to_dot_string();
    let back = match catch(|| graphviz_rust::parse(&text)) {
        Ok(Ok(g)) => read(&g)?,
        e => return Err(format!("the exported text does not parse: {e:?}: {text}")),
    };
    // Each export goes through the parts of a context in an order of its own, which does not matter.
    if back != dot {
        return Err(format!("the exported text reads as {back:?}, the graph is {dot:?}"));
    }
    Ok(dot)
}

// ------------------------------------------------------------------------------------------------
// C21, synthetic programs

/// A leaf context with a name of its own.
struct Leaf<'a> {
    inner: Actor<'a>,
    name: String,
}

impl Identifiable for Leaf<'_> {
    fn id(&self) -> Identifier {
        self.inner.id()
    }
    fn name(&self) -> String {
        self.name.clone()
    }
}

impl TimeViewable for Leaf<'_> {
    fn view(&self) -> TimeView {
        self.inner.view()
    }
}

impl Context for Leaf<'_> {
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        self.inner.run_falliable()
    }
}

struct Group<'a> {
    name: String,
    id: Identifier,
    leaves: Vec<ProxyContext<Leaf<'a>>>,
    groups: Vec<ProxyContext<Group<'a>>>,
}

impl Identifiable for Group<'_> {
    fn id(&self) -> Identifier {
        self.id
    }
    fn name(&self) -> String {
        self.name.clone()
    }
}

impl TimeViewable for Group<'_> {
    fn view(&self) -> TimeView {
        let mut child_views: Vec<TimeView> = self.leaves.iter().map(|p| p.view()).collect();
        child_views.extend(self.groups.iter().map(|p| p.view()));
        ParentView { child_views }.into()
    }
}

impl Context for Group<'_> {
    fn run_falliable(&mut self) -> anyhow::Result<()> {
        for p in &mut self.leaves {
            let r = p.run_falliable();
            p.cleanup();
            r?;
        }
        for p in &mut self.groups {
            let r = p.run_falliable();
            p.cleanup();
            r?;
        }
        Ok(())
    }
    fn ids(&self) -> HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>> {
        let mut parts: HashSet<_> = self.leaves.iter().map(|p| p.verbose()).collect();
        parts.extend(self.groups.iter().map(|p| p.verbose()));
        let mut m = HashMap::from([(self.verbose(), parts)]);
        m.extend(self.leaves.iter().flat_map(|p| p.ids()));
        m.extend(self.groups.iter().flat_map(|p| p.ids()));
        m
    }
    fn summarize(&self) -> ContextSummary {
        ContextSummary {
            id: self.verbose(),
            time: self.view(),
            children: self.leaves.iter().map(|p| p.summarize()).chain(self.groups.iter().map(|p| p.summarize())).collect(),
        }
    }
}

/// Which leaves (by number) and groups it is made of.
#[derive(Clone, Debug, Serialize)]
enum Shape2 {
    Leaf(usize),
    Group(String, Vec<Shape2>),
}

const NAMES: [&str; 16] = ["say \"hi\"", "back\\slash", "end\\", "two\nlines", "Actor", "Reader", "a b", "x-1", "Wide<u8, 4>", "Node_3", "\u{e4}\u{f6}", "1st", "graph", "ID_0", "", "a->b"];

fn draw_group(g: &mut Gen, depth: usize, leaves: &mut Vec<(String, u64)>) -> Shape2 {
    if depth == 0 || g.chance(1, 2) {
        leaves.push((g.pick(&NAMES).to_string(), g.small(20)));
        return Shape2::Leaf(leaves.len() - 1);
    }
    let n = g.count(1, 3);
    let parts = (0..n).map(|_| draw_group(g, depth - 1, leaves)).collect();
    Shape2::Group(g.pick(&NAMES).to_string(), parts)
}

fn assemble<'a>(s: &Shape2, actors: &mut Vec<Option<Leaf<'a>>>) -> Result<Leaf<'a>, Group<'a>> {
    match s {
        Shape2::Leaf(i) => Ok(actors[*i].take().unwrap()),
        Shape2::Group(name, parts) => {
            let mut g = Group { name: name.clone(), id: Identifier::new(), leaves: vec![], groups: vec![] };
            for p in parts {
                match assemble(p, actors) {
                    Ok(l) => g.leaves.push(l.into()),
                    Err(x) => g.groups.push(x.into()),
                }
            }
            Err(g)
        }
    }
}

fn tree_of_leaf(l: &Leaf, tick: u64) -> Tree {
    Tree { id: l.id().to_string(), name: l.name(), parts: vec![], tick: Some(tick) }
}

fn tree_of(g: &Group, ticks: &HashMap<Identifier, u64>) -> Tree {
    let mut parts: Vec<Tree> = g.leaves.iter().map(|l| tree_of_leaf(l, ticks[&l.id()])).collect();
    parts.extend(g.groups.iter().map(|x| tree_of(x, ticks)));
    Tree { id: g.id().to_string(), name: g.name(), parts, tick: None }
}

fn graphs(g: &mut Gen) -> Case {
    let mut leaves = vec![];
    let shapes: Vec<Shape2> = (0..g.count(1, 4)).map(|_| draw_group(g, 3, &mut leaves)).collect();
    let n = leaves.len() as u64;
    let chans: Vec<(usize, Option<usize>, Shape)> = (0..g.count(0, 6))
        .map(|_| (g.below(n) as usize, if g.chance(1, 6) { None } else { Some(g.below(n) as usize) }, Shape::draw(g, true, 9)))
        .collect();
    let infer = g.chance(1, 3);
    let plan = Plan::draw(g, 500_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{shapes:?}{leaves:?}{chans:?}{infer}")),
        sample: json!({"contexts": shapes, "leaves (name, ticks)": leaves, "channels (from, to, shape)": chans, "flavor_inference": infer}),
        nontrivial: chans.iter().filter(|c| c.1.is_some()).count() >= 2 && shapes.iter().any(|s| matches!(s, Shape2::Group(..))),
        ..Default::default()
    };
    let verdict = shared(Option::<String>::None);
    let inner = verdict.clone();
    let out = crate::sim::run(&plan, || {
        let mut b = ProgramBuilder::default();
        let mut actors: Vec<Actor> = leaves.iter().map(|_| Actor::new()).collect();
        let mut kept: Vec<Vec<(Option<Sender<u16>>, Option<Receiver<u16>>)>> = leaves.iter().map(|_| vec![]).collect();
        let mut links = vec![];
        for (src, dst, shape) in &chans {
            match dst {
                Some(dst) => {
                    let (s, r) = shape.make::<u16>(&mut b);
                    s.attach_sender(&actors[*src]);
                    r.attach_receiver(&actors[*dst]);
                    links.push(Link { label: s.id().to_string(), src: actors[*src].id().to_string(), dst: actors[*dst].id().to_string(), cap: shape.cap, lat: shape.lat, rlat: shape.rlat });
                    kept[*src].push((Some(s), None));
                    kept[*dst].push((None, Some(r)));
                }
                None => {
                    let s = b.void::<u16>();
                    s.attach_sender(&actors[*src]);
                    kept[*src].push((Some(s), None));
                }
            }
        }
        let mut ticks = HashMap::new();
        for ((a, k), l) in actors.iter_mut().zip(kept).zip(&leaves) {
            ticks.insert(a.id(), l.1);
            let t = l.1;
            a.body(move |time| {
                time.incr_cycles(t);
                drop(k);
                Ok(())
            });
        }
        let mut actors: Vec<Option<Leaf>> = actors.into_iter().zip(&leaves).map(|(inner, l)| Some(Leaf { inner, name: l.0.clone() })).collect();
        let mut trees = vec![];
        for s in &shapes {
            match assemble(s, &mut actors) {
                Ok(l) => {
                    trees.push(tree_of_leaf(&l, ticks[&l.id()]));
                    b.add_child(l);
                }
                Err(x) => {
                    trees.push(tree_of(&x, &ticks));
                    b.add_child(x);
                }
            }
        }
        let init = b.initialize(options(infer)).expect("initialize");
        let before = export(&init).and_then(|d| judge(&d, &trees, &links, false)).map_err(|e| format!("initialised: {e}"));
        let ran = init.run(RunOptions::default());
        let after = export(&ran).and_then(|d| judge(&d, &trees, &links, true)).map_err(|e| format!("executed: {e}"));
        if let Err(e) = before.and(after) {
            *inner.lock().unwrap() = Some(e);
        }
    });
    case.check(out.done());
    if let Some(e) = take(&verdict) {
        case.fail(e);
    }
    case
}

// ------------------------------------------------------------------------------------------------
// Programs of library contexts

/// The context itself and its parts, as it says so before the run.
fn tree_of_context(c: &dyn Context) -> Tree {
    fn build(v: &VerboseIdentifier, map: &HashMap<VerboseIdentifier, HashSet<VerboseIdentifier>>) -> Tree {
        let parts = map.get(v).map(|s| s.iter().map(|x| build(x, map)).collect()).unwrap_or_default();
        Tree { id: v.id.to_string(), name: v.name.clone(), parts, tick: None }
    }
    build(&c.verbose(), &c.ids())
}

struct Built {
    trees: Vec<Tree>,
    links: Vec<Link>,
    /// Identifiers of those that fail.
    fails: BTreeSet<String>,
    bad: Vec<String>,
    has_pmu: bool,
}

impl Built {
    fn add<'a, C: Context + 'a>(&mut self, b: &mut ProgramBuilder<'a>, c: C, fails: bool) {
        let t = tree_of_context(&c);
        if t.id != c.id().to_string() || t.name != c.name() {
            self.bad.push(format!("{} calls itself {}", c.id(), t.id));
        }
        if fails {
            self.fails.insert(t.id.clone());
        }
        self.trees.push(t);
        b.add_child(c);
    }

    fn chan<'a, T: DAMType + 'a>(&mut self, b: &mut ProgramBuilder<'a>, shape: &Shape) -> (Sender<T>, Receiver<T>, usize) {
        let (s, r) = shape.make::<T>(b);
        if s.id() != r.id() {
            self.bad.push(format!("the ends of one channel are {} and {}", s.id(), r.id()));
        }
        self.links.push(Link { label: s.id().to_string(), src: String::new(), dst: String::new(), cap: shape.cap, lat: shape.lat, rlat: shape.rlat });
        (s, r, self.links.len() - 1)
    }
}

/// One line of contexts, or a memory unit with those around it.
#[derive(Clone, Debug, Serialize)]
enum Piece {
    /// A source (generator, trace or function), then broadcasts with sinks; which of them fail.
    Line { source: u64, len: usize, sinks: Vec<(u64, bool)>, shapes: Vec<Shape> },
    Unit { len: usize, shape: Shape },
    Lone { fails: bool, old_style: bool },
}

fn draw_piece(g: &mut Gen, failing: bool) -> Piece {
    match g.weighted(&[3, 2, 2]) {
        0 => {
            let sinks: Vec<(u64, bool)> = (0..g.usize(1, 3)).map(|_| (g.below(4), failing && g.chance(1, 3))).collect();
            let shapes = (0..=sinks.len()).map(|_| Shape::draw(g, true, 4)).collect();
            Piece::Line { source: g.below(3), len: g.usize(1, 4), sinks, shapes }
        }
        1 => Piece::Unit { len: g.usize(0, 4), shape: Shape::draw(g, false, 1) },
        _ => Piece::Lone { fails: failing && g.chance(1, 2), old_style: g.chance(1, 2) },
    }
}

fn build_piece<'a>(b: &mut ProgramBuilder<'a>, p: &Piece, x: &mut Built) {
    match p {
        Piece::Line { source, len, sinks, shapes } => {
            let len = *len;
            let (snd, rcv, l) = x.chan::<u32>(b, &shapes[0]);
            match source {
                0 => {
                    let c = GeneratorContext::new(move || 0..len as u32, snd);
                    x.links[l].src = c.id().to_string();
                    x.add(b, c, false);
                }
                1 => {
                    let c = TraceContext::new(move || (0..len as u32).map(|i| (i, dam::structures::Time::new(3 * i as u64))), snd);
                    x.links[l].src = c.id().to_string();
                    x.add(b, c, false);
                }
                _ => {
                    let mut c = FunctionContext::new();
                    snd.attach_sender(&c);
                    x.links[l].src = c.id().to_string();
                    c.set_run(move |time| {
                        for i in 0..len as u32 {
                            time.incr_cycles(2);
                            let at = time.tick();
                            snd.enqueue(time, ChannelElement::new(at, i)).unwrap();
                        }
                    });
                    x.add(b, c, false);
                }
            }
            let mut bc = BroadcastContext::new(rcv);
            x.links[l].dst = bc.id().to_string();
            let mut later: Vec<(u64, bool, Receiver<u32>, usize)> = vec![];
            for ((kind, fails), shape) in sinks.iter().zip(&shapes[1..]) {
                let (s, r, l) = x.chan::<u32>(b, shape);
                bc.add_target(s);
                x.links[l].src = bc.id().to_string();
                later.push((*kind, *fails, r, l));
            }
            x.add(b, bc, false);
            for (kind, fails, r, l) in later {
                let wrong = if fails { 1 } else { 0 };
                match kind {
                    0 if !fails => {
                        let c = ConsumerContext::new(r);
                        x.links[l].dst = c.id().to_string();
                        x.add(b, c, false);
                    }
                    1 => {
                        // Fails at its last element, so that nobody is left without a reader.
                        let c = CheckerContext::new(move || (0..len as u32).map(move |i| if i + 1 == len as u32 { i + wrong } else { i }), r);
                        x.links[l].dst = c.id().to_string();
                        x.add(b, c, fails);
                    }
                    2 => {
                        let c = ApproxCheckerContext::new(move || (0..len as u32).map(move |i| if i + 1 == len as u32 { i + wrong } else { i }), r, |a: &u32, b: &u32| a == b);
                        x.links[l].dst = c.id().to_string();
                        // It panics, which the program as a whole does not survive.
                        x.add(b, c, fails);
                    }
                    _ => {
                        let mut c = Actor::new();
                        r.attach_receiver(&c);
                        x.links[l].dst = c.id().to_string();
                        c.old_style = kind == 3;
                        c.body(move |time| {
                            while r.dequeue(time).is_ok() {}
                            if fails {
                                anyhow::bail!("as planned");
                            }
                            Ok(())
                        });
                        x.add(b, c, fails);
                    }
                }
            }
        }
        Piece::Unit { len, shape } => {
            x.has_pmu = true;
            let len = *len;
            let mut pmu = PMU::<u32, u16, bool>::new(4, Behavior { mod_address: true, use_default_value: true });
            let (ra_s, ra_r, l1) = x.chan::<u16>(b, shape);
            let (rd_s, rd_r, l2) = x.chan::<u32>(b, shape);
            let (wa_s, wa_r, l3) = x.chan::<u16>(b, shape);
            let (wd_s, wd_r, l4) = x.chan::<u32>(b, shape);
            let (ack_s, ack_r, l5) = x.chan::<bool>(b, shape);
            pmu.add_reader(PMUReadBundle { addr: ra_r, resp: rd_s });
            pmu.add_writer(PMUWriteBundle { addr: wa_r, data: wd_r, ack: ack_s });
            let t = tree_of_context(&pmu);
            let part = |name: &str| t.parts.iter().find(|p| p.name.contains(name)).map(|p| p.id.clone()).unwrap_or_default();
            let (reader, writer) = (part("Read"), part("Write"));
            x.links[l1].dst = reader.clone();
            x.links[l2].src = reader;
            x.links[l3].dst = writer.clone();
            x.links[l4].dst = writer.clone();
            x.links[l5].src = writer;
            x.add(b, pmu, false);
            let c = GeneratorContext::new(move || 0..len as u16, ra_s);
            x.links[l1].src = c.id().to_string();
            x.add(b, c, false);
            let c = GeneratorContext::new(move || 0..len as u16, wa_s);
            x.links[l3].src = c.id().to_string();
            x.add(b, c, false);
            let c = GeneratorContext::new(move || 0..len as u32, wd_s);
            x.links[l4].src = c.id().to_string();
            x.add(b, c, false);
            let c = ConsumerContext::new(rd_r);
            x.links[l2].dst = c.id().to_string();
            x.add(b, c, false);
            let c = ConsumerContext::new(ack_r);
            x.links[l5].dst = c.id().to_string();
            x.add(b, c, false);
        }
        Piece::Lone { fails, old_style } => {
            let mut c = Actor::new();
            c.old_style = *old_style;
            let fails = *fails;
            let void = b.void::<u64>();
            void.attach_sender(&c);
            c.body(move |time| {
                time.incr_cycles(5);
                let at = time.tick();
                void.enqueue(time, ChannelElement::new(at, 1))?;
                if fails {
                    anyhow::bail!("as planned");
                }
                Ok(())
            });
            x.add(b, c, fails);
        }
    }
}

fn everywhere(g: &mut Gen) -> Case {
    library_case(g, true)
}

fn library(g: &mut Gen) -> Case {
    library_case(g, false)
}

fn library_case(g: &mut Gen, failing: bool) -> Case {
    let mut pieces: Vec<Piece> = (0..g.usize(1, 4)).map(|_| draw_piece(g, failing)).collect();
    // An approximate checker's panic is the whole program's.
    for p in &mut pieces {
        if let Piece::Line { sinks, .. } = p {
            sinks.iter_mut().for_each(|s| if s.0 == 2 || s.0 == 0 { s.1 = false });
        }
    }
    let infer = g.chance(1, 3);
    let plan = Plan::draw(g, 2_000_000);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{pieces:?}{}{}{infer}", plan.seed, plan.policy)),
        sample: json!({"pieces": pieces, "flavor_inference": infer, "schedule": plan.json()}),
        ..Default::default()
    };
    let verdict = shared(Vec::<String>::new());
    let flags = shared((false, 0usize));
    let inner = (verdict.clone(), flags.clone());
    let out = crate::sim::run(&plan, || {
        let (verdict, flags) = inner;
        let fail = |e: String| verdict.lock().unwrap().push(e);
        let mut b = ProgramBuilder::default();
        let mut x = Built { trees: vec![], links: vec![], fails: BTreeSet::new(), bad: vec![], has_pmu: false };
        for p in &pieces {
            build_piece(&mut b, p, &mut x);
        }
        *flags.lock().unwrap() = (x.has_pmu, x.fails.len());
        x.bad.iter().for_each(|e| fail(e.clone()));
        if b.num_children() != x.trees.len() {
            fail(format!("{} contexts were added, the program counts {}", x.trees.len(), b.num_children()));
        }
        // No identifier twice, parts included.
        let mut seen = BTreeSet::new();
        fn walk(t: &Tree, seen: &mut BTreeSet<String>) -> Option<String> {
            if !seen.insert(t.id.clone()) {
                return Some(t.id.clone());
            }
            t.parts.iter().find_map(|p| walk(p, seen))
        }
        for t in &x.trees {
            if let Some(d) = walk(t, &mut seen) {
                fail(format!("two contexts are {d}"));
            }
        }
        let labels: BTreeSet<_> = x.links.iter().map(|l| l.label.clone()).collect();
        if labels.len() != x.links.len() {
            fail("two channels have the same identifier".into());
        }
        let init = match b.initialize(options(infer)) {
            Ok(i) => i,
            Err(e) => return fail(format!("initialisation failed: {e}")),
        };
        if let Err(e) = export(&init).and_then(|d| judge(&d, &x.trees, &x.links, false)) {
            fail(format!("initialised: {e}"));
        }
        let ran = init.run(RunOptions::default());
        let s = summary(&ran);
        let failed: BTreeSet<String> = s.failures.iter().map(|f| format!("ID_{}", f.0)).collect();
        if failed != x.fails || s.failures.len() != failed.len() {
            fail(format!("failures are reported for {:?}, those which failed are {:?}", s.failures, x.fails));
        }
        // Those that failed have no summary to show.
        let trees: Vec<Tree> = x.trees.iter().filter(|t| !x.fails.contains(&t.id)).cloned().collect();
        match export(&ran) {
            Ok(d) => {
                if let Err(e) = judge(&d, &trees, &x.links, true) {
                    fail(format!("executed: {e}"));
                }
                let most = d.nodes.iter().filter_map(|n| fields(attr(&n.attrs, "tooltip").unwrap_or("")).get("Elapsed").and_then(|e| e.parse::<u64>().ok())).max();
                if most != s.elapsed {
                    fail(format!("the slowest context shown took {most:?}, the run {:?}", s.elapsed));
                }
            }
            Err(e) => fail(format!("executed: {e}")),
        }
    });
    case.check(out.done());
    if let Some(e) = take(&verdict).first() {
        case.fail(e.clone());
    }
    let f = take(&flags);
    case.nontrivial = if failing { f.1 > 0 } else { f.0 };
    case.class("memory unit", f.0);
    case.class("failures", f.1 > 0);
    case
}

// ------------------------------------------------------------------------------------------------
// C24, many at once

fn millions(g: &mut Gen) -> Case {
    let each = 1_060_000 + g.below(1000) as usize;
    let mut case = Case {
        key: each as u64,
        nontrivial: true,
        sample: json!({"threads": 4, "each": each}),
        ..Default::default()
    };
    let (mut ids, mut chans) = (vec![], vec![]);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|_| {
                s.spawn(move || -> (Vec<usize>, Vec<dam::channel::ChannelID>) {
                    (0..each).map(|_| (Identifier::new().id, dam::channel::ChannelID::new())).unzip()
                })
            })
            .collect();
        for h in hs {
            let (i, c) = h.join().unwrap();
            ids.extend(i);
            chans.extend(c);
        }
    });
    ids.sort_unstable();
    chans.sort_unstable();
    if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
        case.fail(format!("the identifier {} was given out twice", w[0]));
    }
    if let Some(w) = chans.windows(2).find(|w| w[0] == w[1]) {
        case.fail(format!("{} was given out twice", w[0]));
    }
    case
}

fn concurrent(g: &mut Gen) -> Case {
    let threads = g.usize(2, 8);
    let each = *g.pick(&[1usize, 10, 100, 300, 1000]);
    let mix: Vec<u64> = (0..8).map(|_| g.below(7)).collect();
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{threads} {each} {mix:?}")),
        nontrivial: true,
        sample: json!({"threads": threads, "each": each, "mix": mix}),
        ..Default::default()
    };
    let gate = std::sync::Barrier::new(threads);
    let results: Vec<(Vec<Identifier>, Vec<dam::channel::ChannelID>, Vec<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (gate, mix) = (&gate, &mix);
                s.spawn(move || {
                    let (mut ids, mut chans, mut bad) = (vec![], vec![], vec![]);
                    let mut b = ProgramBuilder::default();
                    gate.wait();
                    for i in 0..each {
                        match mix[(t + i) % mix.len()] {
                            0 => ids.push(Identifier::new()),
                            1 => ids.push(Identifier::default()),
                            2 => {
                                let a = Actor::new();
                                if a.id() != a.id() || a.verbose().id != a.id() || a.summarize().id.id != a.id() {
                                    bad.push(format!("{} has several identifiers", a.id()));
                                }
                                ids.push(a.id());
                            }
                            3 => {
                                let (s, r) = b.bounded_with_latency::<u8>(1 + i % 3, 1 + i as u64 % 2, 1);
                                if s.id() != r.id() {
                                    bad.push(format!("the ends of one channel are {} and {}", s.id(), r.id()));
                                }
                                chans.push(s.id());
                            }
                            4 => {
                                let (s, r) = b.unbounded::<u64>();
                                if s.id() != r.id() {
                                    bad.push(format!("the ends of one channel are {} and {}", s.id(), r.id()));
                                }
                                chans.push(r.id());
                            }
                            5 => chans.push(b.void::<u8>().id()),
                            _ => {
                                let p = PMU::<u8, u16, bool>::new(1, Behavior { mod_address: true, use_default_value: true });
                                ids.extend(p.ids().keys().map(|v| v.id));
                                chans.push(dam::channel::ChannelID::new());
                            }
                        }
                    }
                    (ids, chans, bad)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut seen = HashSet::new();
    let mut seen_chans = HashSet::new();
    for (ids, chans, bad) in results {
        bad.into_iter().for_each(|e| case.fail(e));
        for i in ids {
            if !seen.insert(i) {
                case.fail(format!("{i} was given out twice"));
            }
        }
        for c in chans {
            if !seen_chans.insert(c) {
                case.fail(format!("{c} was given out twice"));
            }
        }
    }
    case
}

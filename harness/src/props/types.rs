//! C22: data types, placeholders and typed adapters.
use super::util::*;
use crate::gen::Gen;
use crate::runner::{Case, Part};
use crate::sim::{catch, Plan};
use dam::channel::adapters::{RecvAdapter, SendAdapter};
use dam::channel::{ChannelElement, DequeueError, PeekResult};
use dam::context_tools::*;
use dam::structures::{Time, TimeManager};
use dam::types::unevaluated::Unevaluated;
use dam::types::StaticallySized;
use ndarray::{ArrayD, Axis, IxDyn, ShapeBuilder};
use num::{Num, One, Zero};
use serde_json::json;
use std::str::FromStr;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![("C22", vec![
        Part { name: "sizes", rule: "arrays of scalars, pairs and placeholders with random shapes (also empty, transposed, sliced, reversed) and random scalars and pairs, against the widths of their parts; non-trivial for an array with at least two axes or an empty one", run: sizes, quick: (40_000, 5_000), thorough: (1_000_000, 100_000) },
        Part { name: "placeholders", rule: "random arithmetic on placeholders, and parsing of random texts as one and as the real type; non-trivial when at least one operation is with a real value and one text does not parse", run: placeholders, quick: (40_000, 5_000), thorough: (1_000_000, 100_000) },
        Part { name: "adapters", rule: "a network with channels of different element types, used through typed adapters (and placeholders) or directly, under one schedule: values and times agree; non-trivial when at least four elements pass", run: adapters, quick: (15_000, 2_000), thorough: (500_000, 60_000) },
        Part { name: "elements", rule: "a random element converted to another type, given a later time, and taken out of what a peek saw; non-trivial when its time is infinite or does not fit 32 bits", run: elements, quick: (20_000, 2_000), thorough: (500_000, 50_000) },
        Part { name: "failing", rule: "an adapter meets a value which the wanted type cannot hold; non-trivial when it does so after at least one good value", run: failing, quick: (8_000, 1_000), thorough: (200_000, 20_000) },
    ])]
}

/// A type with its own statically known size, as users write them.
#[derive(Debug, Clone, Default, PartialEq)]
struct Custom;
impl StaticallySized for Custom {
    const SIZE: usize = 12;
}

fn array_size<T: StaticallySized + PartialEq + std::fmt::Debug + Clone + Default + Send + Sync>(g: &mut Gen, width: usize, case: &mut Case, name: &str) {
    if T::SIZE != width || T::default().dam_size() != width {
        case.fail(format!("{name} says its size is {} / {}, not {width}", T::SIZE, T::default().dam_size()));
    }
    let axes = g.usize(0, 5);
    let shape: Vec<usize> = (0..axes).map(|_| if g.chance(1, 8) { 0 } else { g.usize(1, 4) }).collect();
    let mut a: ArrayD<T> = if g.chance(1, 2) {
        ArrayD::default(IxDyn(&shape))
    } else {
        ArrayD::default(IxDyn(&shape).f())
    };
    let mut text = format!("{name} array of shape {shape:?}");
    for _ in 0..g.usize(0, 3) {
        if a.ndim() == 0 {
            break;
        }
        let axis = Axis(g.usize(0, a.ndim() - 1));
        match g.below(5) {
            0 => {
                a = a.reversed_axes();
                text += ", reversed axes";
            }
            1 => {
                a.invert_axis(axis);
                text += ", inverted axis";
            }
            2 if a.len_of(axis) > 0 => {
                let n = a.len_of(axis);
                let (lo, hi) = { let lo = g.usize(0, n - 1); (lo, g.usize(lo, n)) };
                let step = g.usize(1, 2) as isize;
                a.slice_axis_inplace(axis, ndarray::Slice::new(lo as isize, Some(hi as isize), step));
                text += &format!(", sliced {lo}..{hi} by {step}");
            }
            3 => {
                a = a.insert_axis(axis);
                text += ", new axis";
            }
            _ if a.len_of(axis) > 0 => {
                a = a.index_axis_move(axis, 0);
                text += ", one of an axis";
            }
            _ => {}
        }
    }
    let want = a.shape().iter().product::<usize>() * width;
    let elements = a.iter().count();
    if elements * width != want {
        case.inconclusive = Some("the array library disagrees about its elements".into());
    }
    if a.dam_size() != want {
        case.fail(format!("{text} has {elements} elements of {width} bits, but says {}", a.dam_size()));
    }
    // The same as a fixed number of axes.
    let fixed = match a.ndim() {
        0 => a.clone().into_dimensionality::<ndarray::Ix0>().map(|x| x.dam_size()),
        1 => a.clone().into_dimensionality::<ndarray::Ix1>().map(|x| x.dam_size()),
        2 => a.clone().into_dimensionality::<ndarray::Ix2>().map(|x| x.dam_size()),
        3 => a.clone().into_dimensionality::<ndarray::Ix3>().map(|x| x.dam_size()),
        4 => a.clone().into_dimensionality::<ndarray::Ix4>().map(|x| x.dam_size()),
        _ => Ok(want),
    };
    match fixed {
        Ok(n) if n == want => {}
        r => case.fail(format!("{text} with a fixed number of axes says {r:?}, not {want}")),
    }
    case.nontrivial = a.ndim() >= 2 || elements == 0;
    case.class("empty", elements == 0);
    case.key = crate::gen::hash_str(&text);
    case.sample = json!({"array": text, "bits": want});
}

fn sizes(g: &mut Gen) -> Case {
    let mut case = Case::default();
    macro_rules! pick {
        ($($t:ty = $w:expr),* $(,)?) => {{
            let n = [$(stringify!($t)),*].len();
            let mut k = g.usize(0, n - 1) as isize;
            $(
                if k == 0 { array_size::<$t>(g, $w, &mut case, stringify!($t)); }
                k -= 1;
            )*
            let _ = k;
        }};
    }
    pick!(
        bool = 1, u8 = 8, i8 = 8, u16 = 16, i16 = 16, u32 = 32, i32 = 32, u64 = 64, i64 = 64,
        usize = usize::BITS as usize, f32 = 32, f64 = 64, () = 0, Custom = 12,
        (u8, bool) = 9, (f64, i16) = 80, ((), ()) = 0, (Custom, u32) = 44,
        ((u8, u16), (bool, (i64, ()))) = 89, (usize, (f32, u64)) = usize::BITS as usize + 96,
        ((((bool, bool), bool), bool), bool) = 5,
    );
    // Placeholders are as large as what they stand for; values do not matter.
    macro_rules! same {
        ($($t:ty = $v:expr),*) => { $(
            let v: $t = $v;
            let u: Unevaluated<$t> = v.clone().into();
            if (u.dam_size(), Unevaluated::<$t>::SIZE) != (v.dam_size(), <$t>::SIZE) || v.dam_size() != <$t as Default>::default().dam_size() {
                case.fail(format!("a placeholder for {} is {} bits, {:?} is {}", stringify!($t), u.dam_size(), v, v.dam_size()));
            }
            let both = (u.clone(), u);
            if both.dam_size() != 2 * v.dam_size() {
                case.fail(format!("a pair of placeholders for {} is {} bits", stringify!($t), both.dam_size()));
            }
        )* };
    }
    let n = g.below(u64::MAX);
    same!(
        bool = n & 1 == 0, u8 = n as u8, i8 = n as i8, u16 = n as u16, i16 = n as i16, u32 = n as u32, i32 = n as i32,
        u64 = n, i64 = n as i64, usize = n as usize, f32 = n as f32, f64 = n as f64,
        (u8, (i32, f64)) = (n as u8, (n as i32, n as f64))
    );
    case
}

fn placeholders(g: &mut Gen) -> Case {
    let mut case = Case::default();
    macro_rules! pick {
        ($($t:ty),*) => {{
            let n = [$(stringify!($t)),*].len();
            let mut k = g.usize(0, n - 1) as isize;
            $(
                if k == 0 { arithmetic::<$t>(g, &mut case, stringify!($t)); }
                k -= 1;
            )*
            let _ = k;
        }};
    }
    pick!(u8, i16, u32, i32, u64, i64, usize, f32, f64);
    case
}

fn arithmetic<T>(g: &mut Gen, case: &mut Case, name: &str)
where
    T: Num + FromStr + Clone + std::fmt::Debug + Default + PartialOrd + std::ops::AddAssign + StaticallySized + Send + Sync,
    <T as FromStr>::Err: std::fmt::Debug + PartialEq,
    <T as Num>::FromStrRadixErr: std::fmt::Debug,
{
    // Values which would overflow or divide by zero: a placeholder never computes.
    let mut u: Unevaluated<T> = T::zero().into();
    let mut text = vec![];
    let mut real = 0;
    for _ in 0..g.usize(1, 12) {
        let other: Unevaluated<T> = if g.chance(1, 2) { Unevaluated::one() } else { Unevaluated::zero() };
        let val = match g.below(3) {
            0 => T::zero(),
            1 => T::one(),
            _ => T::zero() - T::zero(),
        };
        let op = g.below(11);
        let r = catch(|| match op {
            0 => u + other,
            1 => u - other,
            2 => u * other,
            3 => u / other,
            4 => u % other,
            5 => u + val,
            6 => u - val,
            7 => u * val,
            8 => u / val,
            9 => u % val,
            _ => {
                let mut v = u;
                v += other;
                v
            }
        });
        real += (5..10).contains(&op) as usize;
        text.push(op);
        match r {
            Ok(v) => u = v,
            Err(e) => {
                case.fail(format!("operation {op} on placeholders for {name}: {e}"));
                return;
            }
        }
        if u.dam_size() != T::SIZE {
            case.fail(format!("after operations {text:?} a placeholder for {name} is {} bits", u.dam_size()));
        }
    }
    if u.partial_cmp(&Unevaluated::one()).is_some() {
        case.fail("a placeholder compares as if it had a value");
    }
    if catch(|| u == Unevaluated::one()).is_ok() || catch(|| u.is_zero()).is_ok() {
        case.fail("a placeholder answers a question about its value");
    }
    // Parsing accepts what the type accepts.
    let mut bad = false;
    let mut texts = vec![];
    for _ in 0..g.usize(1, 6) {
        let t: String = (0..g.usize(0, 4)).map(|_| *g.pick(&['0', '1', '7', '9', 'a', 'f', 'Z', '-', '+', '.', ' ', 'e'])).collect();
        let (a, b) = (T::from_str(&t), Unevaluated::<T>::from_str(&t));
        bad |= a.is_err();
        if a.as_ref().err() != b.as_ref().err() {
            case.fail(format!("parsing {t:?} as {name} gives {a:?}, as its placeholder {b:?}"));
        }
        let radix = *g.pick(&[2u32, 8, 10, 16, 36]);
        if name.starts_with('f') && radix != 10 {
            texts.push(t);
            continue;
        }
        let (a, b) = (catch(|| T::from_str_radix(&t, radix)), catch(|| Unevaluated::<T>::from_str_radix(&t, radix)));
        if format!("{:?}", a.as_ref().map(|x| x.as_ref().err())) != format!("{:?}", b.as_ref().map(|x| x.as_ref().err())) {
            case.fail(format!("parsing {t:?} to base {radix} as {name} gives {a:?}, as its placeholder {b:?}"));
        }
        texts.push(t);
    }
    case.nontrivial = real > 0 && bad;
    case.key = crate::gen::hash_str(&format!("{name}{text:?}{texts:?}"));
    case.sample = json!({"type": name, "operations": text, "texts": texts});
}

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize)]
enum How {
    Direct,
    Adapted,
    Placeholder,
}

/// How the receiving end looks before it takes an element.
#[derive(Clone, Copy, Debug, serde::Serialize)]
enum Look {
    No,
    Peek,
    Next,
}

trait SendEnd: Send + Sync {
    fn attach(&self, c: &dyn Context);
    fn send(&self, time: &TimeManager, at: Time, v: u16) -> bool;
    fn avail(&self, time: &TimeManager) -> bool;
}

impl SendEnd for Sender<u32> {
    fn attach(&self, c: &dyn Context) {
        Sender::attach_sender(self, c)
    }
    fn send(&self, time: &TimeManager, at: Time, v: u16) -> bool {
        Sender::enqueue(self, time, ChannelElement::new(at, v as u32)).is_ok()
    }
    fn avail(&self, time: &TimeManager) -> bool {
        Sender::wait_until_available(self, time).is_ok()
    }
}

impl SendEnd for Sender<Unevaluated<u32>> {
    fn attach(&self, c: &dyn Context) {
        Sender::attach_sender(self, c)
    }
    fn send(&self, time: &TimeManager, at: Time, v: u16) -> bool {
        let u: Unevaluated<u32> = (v as u32).into();
        Sender::enqueue(self, time, ChannelElement::new(at, u + 1)).is_ok()
    }
    fn avail(&self, time: &TimeManager) -> bool {
        Sender::wait_until_available(self, time).is_ok()
    }
}

impl SendEnd for Box<dyn SendAdapter<u16> + Send + Sync> {
    fn attach(&self, c: &dyn Context) {
        self.attach_sender(c)
    }
    fn send(&self, time: &TimeManager, at: Time, v: u16) -> bool {
        self.enqueue(time, ChannelElement::new(at, v)).is_ok()
    }
    fn avail(&self, time: &TimeManager) -> bool {
        self.wait_until_available(time).is_ok()
    }
}

/// Element time and value, or up to when there is nothing (None: closed).
type Looked = Result<(u64, u64), Option<Time>>;

trait RecvEnd: Send + Sync {
    fn attach(&self, c: &dyn Context);
    fn look(&self) -> Looked;
    fn next(&self, time: &TimeManager) -> Option<(u64, u64)>;
    fn take(&self, time: &TimeManager) -> Option<(u64, u64)>;
}

fn looked<T>(p: PeekResult<T>, f: impl Fn(T) -> u64) -> Looked {
    match p {
        PeekResult::Something(ce) => Ok((time_of(ce.time), f(ce.data))),
        PeekResult::Nothing(t) => Err(Some(t)),
        PeekResult::Closed => Err(None),
    }
}

fn got<T>(r: Result<ChannelElement<T>, DequeueError>, f: impl Fn(T) -> u64) -> Option<(u64, u64)> {
    r.ok().map(|ce| (time_of(ce.time), f(ce.data)))
}

macro_rules! recv_end {
    ($t:ty, $f:expr, [$($how:tt)*]) => {
        impl RecvEnd for $t {
            fn attach(&self, c: &dyn Context) {
                $($how)*::attach_receiver(self.end(), c)
            }
            fn look(&self) -> Looked {
                looked($($how)*::peek(self.end()), $f)
            }
            fn next(&self, time: &TimeManager) -> Option<(u64, u64)> {
                got($($how)*::peek_next(self.end(), time), $f)
            }
            fn take(&self, time: &TimeManager) -> Option<(u64, u64)> {
                got($($how)*::dequeue(self.end(), time), $f)
            }
        }
    };
}

trait End {
    type To: ?Sized;
    fn end(&self) -> &Self::To;
}
impl<T: Clone> End for Receiver<T> {
    type To = Self;
    fn end(&self) -> &Self {
        self
    }
}
type Adapted = Box<dyn RecvAdapter<u64> + Send + Sync>;
impl End for Adapted {
    type To = dyn RecvAdapter<u64> + Send + Sync;
    fn end(&self) -> &Self::To {
        &**self
    }
}
recv_end!(Receiver<u32>, |v: u32| v as u64, [Receiver]);
recv_end!(Receiver<Unevaluated<u32>>, |_| 0, [Receiver]);
recv_end!(Adapted, |v: u64| v, [RecvAdapter]);

/// What both ends of one stream saw: clocks after sends, and (time, clock, value) of takes.
#[derive(Default, Debug, Clone, PartialEq)]
struct StreamLog {
    sends: Vec<u64>,
    takes: Vec<(u64, u64, u64)>,
}

#[derive(Clone, Debug, serde::Serialize)]
struct Stream {
    how: How,
    items: Vec<Item<u16>>,
    shape: Shape,
    waits: Vec<bool>,
    looks: Vec<Look>,
    delays: Vec<u64>,
}

fn sending<'a>(b: &mut dam::simulation::ProgramBuilder<'a>, snd: impl SendEnd + 'a, s: &Stream, log: &Shared<StreamLog>) {
    let mut f = dam::utility_contexts::FunctionContext::new();
    snd.attach(&f);
    let (s, log) = (s.clone(), log.clone());
    f.set_run(move |time| {
        for (k, i) in s.items.iter().enumerate() {
            time.incr_cycles(i.wait);
            if s.waits[k % s.waits.len()] && !snd.avail(time) {
                return;
            }
            let at = time.tick() + i.ahead;
            if !snd.send(time, at, i.value) {
                return;
            }
            let now = time.tick().time();
            log.lock().unwrap().sends.push(now);
        }
    });
    b.add_child(f);
}

fn receiving<'a>(b: &mut dam::simulation::ProgramBuilder<'a>, rcv: impl RecvEnd + 'a, s: &Stream, log: &Shared<StreamLog>, bad: &Shared<Vec<String>>) {
    let mut r = dam::utility_contexts::FunctionContext::new();
    rcv.attach(&r);
    let (s, log, bad) = (s.clone(), log.clone(), bad.clone());
    r.set_run(move |time| {
        let complain = |t: String| bad.lock().unwrap().push(t);
        for k in 0.. {
            time.incr_cycles(s.delays[k % s.delays.len()]);
            let before = time.tick();
            let mut nothing = None;
            let mut seen = None;
            match s.looks[k % s.looks.len()] {
                Look::No => {}
                Look::Peek => match rcv.look() {
                    Ok(x) => seen = Some(Ok(x)),
                    Err(None) => seen = Some(Err(())),
                    Err(Some(t)) => {
                        nothing = Some(t);
                        if t < before || t.is_infinite() {
                            complain(format!("a peek at clock {before} promises nothing up to {t}"));
                        }
                    }
                },
                Look::Next => seen = Some(rcv.next(time).ok_or(())),
            }
            let took = rcv.take(time);
            match (took, seen) {
                (Some(x), Some(Ok(y))) if x == y => {}
                (None, Some(Err(()))) | (_, None) => {}
                _ => complain(format!("looked and saw {seen:?}, then took {took:?}")),
            }
            match took {
                Some((t, v)) => {
                    if nothing.is_some_and(|n| Time::new(t) <= n) {
                        complain(format!("a peek promised nothing up to {nothing:?}, then {v}@{t} came"));
                    }
                    let now = time.tick().time();
                    log.lock().unwrap().takes.push((t, now, v));
                }
                None => {
                    // Closed stays closed, however it is looked at.
                    let again = (rcv.look(), rcv.next(time), rcv.take(time), rcv.look());
                    if again != (Err(None), None, None, Err(None)) {
                        complain(format!("after the end, looking and taking again gave {again:?}"));
                    }
                    return;
                }
            }
        }
    });
    b.add_child(r);
}

fn adapters(g: &mut Gen) -> Case {
    let mut streams = vec![];
    for _ in 0..g.usize(1, 3) {
        let n = g.length(0, 8);
        streams.push(Stream {
            how: if g.chance(1, 3) { How::Placeholder } else { How::Adapted },
            items: draw_items(g, n, |g, _| g.below(1 << 16) as u16),
            shape: Shape::draw(g, true, 3),
            waits: (0..g.usize(1, 3)).map(|_| g.chance(1, 3)).collect(),
            looks: (0..g.usize(1, 3)).map(|_| *g.pick(&[Look::No, Look::Peek, Look::Next])).collect(),
            delays: (0..g.usize(1, 3)).map(|_| g.small(9)).collect(),
        });
    }
    let plan = Plan::draw(g, 2_000_000);
    let go = |direct: bool| {
        let logs: Vec<Shared<StreamLog>> = streams.iter().map(|_| shared(StreamLog::default())).collect();
        let bad = shared(vec![]);
        let out = simulate(&plan, false, |b| {
            for (s, log) in streams.iter().zip(&logs) {
                match if direct { How::Direct } else { s.how } {
                    How::Direct => {
                        let (snd, rcv) = s.shape.make::<u32>(b);
                        sending(b, snd, s, log);
                        receiving(b, rcv, s, log, &bad);
                    }
                    How::Adapted => {
                        let (snd, rcv) = s.shape.make::<u32>(b);
                        let snd: Box<dyn SendAdapter<u16> + Send + Sync> = Box::new(snd);
                        let rcv: Adapted = Box::new(rcv);
                        sending(b, snd, s, log);
                        receiving(b, rcv, s, log, &bad);
                    }
                    How::Placeholder => {
                        let (snd, rcv) = s.shape.make::<Unevaluated<u32>>(b);
                        sending(b, snd, s, log);
                        receiving(b, rcv, s, log, &bad);
                    }
                }
            }
        });
        out.done().map(|s| (s, logs.iter().map(take).collect::<Vec<_>>(), take(&bad)))
    };
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{streams:?}{}{}", plan.seed, plan.policy)),
        runs: 2,
        sample: json!({"streams": streams, "schedule": plan.json()}),
        nontrivial: streams.iter().map(|s| s.items.len()).sum::<usize>() >= 4,
        ..Default::default()
    };
    case.class("placeholders", streams.iter().any(|s| s.how == How::Placeholder));
    let (Some(a), Some(d)) = (case.check(go(false)), case.check(go(true))) else { return case };
    // A receiver's clock after it found its channel closed depends on the schedule (F-CLOSE-CLOCK).
    if !near(a.0.elapsed, d.0.elapsed, 1) || a.0.passed != d.0.passed {
        case.fail(format!("through adapters the run gives {:?}, directly {:?}", a.0, d.0));
    }
    if let Some(t) = a.2.first() {
        case.fail(format!("through an adapter, {t}"));
    }
    for (i, s) in streams.iter().enumerate() {
        let mut want = d.1[i].clone();
        if s.how == How::Placeholder {
            want.takes.iter_mut().for_each(|t| t.2 = 0);
        } else {
            let sent: Vec<u64> = s.items.iter().map(|x| x.value as u64).collect();
            let got: Vec<u64> = a.1[i].takes.iter().map(|x| x.2).collect();
            case.check(differ(&format!("stream {i}"), &sent, &got));
        }
        case.check(differ(&format!("clocks after sends of stream {i} ({:?})", s.how), &want.sends, &a.1[i].sends));
        case.check(differ(&format!("(time, clock, value) of stream {i} ({:?})", s.how), &want.takes, &a.1[i].takes));
    }
    case
}

/// A value which does not fit is refused loudly, wherever it is met.
fn failing(g: &mut Gen) -> Case {
    let n = g.usize(1, 5);
    let values: Vec<u32> = (0..n).map(|_| if g.chance(1, 3) { 256 + g.below(1 << 20) as u32 } else { g.below(256) as u32 }).collect();
    let looks: Vec<u64> = (0..n).map(|_| g.below(3)).collect();
    let plan = Plan::draw(g, 500_000);
    let first = values.iter().position(|v| *v > 255);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{values:?}{looks:?}{}", plan.seed)),
        nontrivial: first.is_some_and(|f| f > 0),
        sample: json!({"values": values, "looks": looks, "schedule": plan.json()}),
        ..Default::default()
    };
    let seen = shared(vec![]);
    let out = simulate(&plan, false, |b| {
        let (snd, rcv) = b.unbounded::<u32>();
        feeder(b, snd, values.iter().map(|v| Item { wait: 1, ahead: 0, value: *v }).collect());
        let rcv: Box<dyn RecvAdapter<u8> + Send + Sync> = Box::new(rcv);
        let mut a = Actor::new();
        rcv.attach_receiver(&a);
        a.old_style = true;
        let (looks, seen) = (looks.clone(), seen.clone());
        a.body(move |time| {
            for l in looks {
                match l {
                    0 => {}
                    1 => {
                        let _ = rcv.peek();
                    }
                    _ => {
                        let _ = rcv.peek_next(time);
                    }
                }
                let Ok(ce) = rcv.dequeue(time) else { return Ok(()) };
                seen.lock().unwrap().push(ce.data as u32);
            }
            Ok(())
        });
        b.add_child(a);
    });
    if let Some(s) = case.check(out.done()) {
        let want: Vec<u32> = values[..first.unwrap_or(n)].to_vec();
        case.check(differ("values through the adapter", &want, &take(&seen)));
        if s.passed != first.is_none() {
            case.fail(format!("with values {values:?} read as bytes the run passed: {}", s.passed));
        }
    }
    case
}

/// Elements outside of channels: converting them keeps value and time, and a peek's element is a dequeue's.
fn elements(g: &mut Gen) -> Case {
    let mut draw = |g: &mut Gen| {
        let t = if g.chance(1, 2) { g.small(100) } else { g.below(u64::MAX) };
        if g.chance(1, 5) { Time::from((true, t)) } else { Time::new(t) }
    };
    let (time, later) = (draw(g), draw(g));
    let value = g.below(1 << 16) as u16;
    let kind = g.below(3);
    let mut case = Case {
        key: crate::gen::hash_str(&format!("{time:?}{later:?}{value}{kind}")),
        nontrivial: time.is_infinite() || time.time() > u32::MAX as u64,
        sample: json!({"time": format!("{time:?}"), "updated to": format!("{later:?}"), "value": value, "peek saw": kind}),
        ..Default::default()
    };
    let e = ChannelElement::new(time, value);
    let same = |t: Time, x: Time| (t.is_infinite(), t.time()) == (x.is_infinite(), x.time());
    let result = catch(|| -> Result<(), String> {
        let wide: ChannelElement<u64> = e.clone().convert();
        if wide.data != value as u64 || !same(wide.time, time) {
            return Err(format!("converted to 64 bits it is {wide:?}"));
        }
        let narrow: Result<ChannelElement<u8>, _> = e.clone().try_convert();
        match narrow {
            Ok(n) if n.data as u16 == value && same(n.time, time) => {}
            Err(_) if value > 255 => {}
            n => return Err(format!("converted to 8 bits it is {n:?}")),
        }
        let mut moved = e.clone();
        moved.update_time(later);
        let want = if time.is_infinite() || (!later.is_infinite() && later.time() <= time.time()) { time } else { later };
        if moved.data != value || moved.time.is_infinite() != want.is_infinite() || (!want.is_infinite() && !same(moved.time, want)) {
            return Err(format!("given the time {later:?} it is {moved:?}"));
        }
        let peek = match kind {
            0 => PeekResult::Something(e.clone()),
            1 => PeekResult::Nothing(time),
            _ => PeekResult::Closed,
        };
        let taken: Result<Result<ChannelElement<u16>, DequeueError>, ()> = peek.try_into();
        match (kind, taken) {
            (0, Ok(Ok(x))) if x.data == value && same(x.time, time) => Ok(()),
            (1, Err(())) => Ok(()),
            (2, Ok(Err(DequeueError::Closed))) => Ok(()),
            (_, x) => Err(format!("what the peek saw becomes {x:?}")),
        }
    });
    match result {
        Ok(Ok(())) => {}
        Ok(Err(e)) => case.fail(e),
        Err(e) => case.fail(format!("a panic: {e}")),
    }
    case
}

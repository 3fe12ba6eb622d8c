//! C11 (timestamps) and C14 (datastore): stateful and algebraic checks without threads.
use crate::gen::Gen;
use crate::runner::{Case, Part};
use crate::sim::catch;
use dam::structures::Time;
use dam::templates::datastore::{Behavior, Datastore};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::HashMap;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    vec![
        ("C11", vec![
            Part { name: "order", rule: "three timestamps drawn from edge values and random ones, finite and infinite; non-trivial when at least two of them differ", run: order, quick: (400_000, 0), thorough: (20_000_000, 0) },
            Part { name: "arithmetic", rule: "a random chain of additions, subtractions and in-place additions on one timestamp against (ticks, infinite); non-trivial when at least two operations apply", run: arithmetic, quick: (300_000, 0), thorough: (15_000_000, 0) },
        ]),
        ("C14", vec![
            Part { name: "history", rule: "a random sequence of writes and reads over few addresses, with wrap, default and past-write variants, against a map of histories; non-trivial when some read falls between two writes of its address or before the first", run: history, quick: (150_000, 0), thorough: (8_000_000, 0) },
            Part { name: "concurrent", rule: "one thread writes at growing times while two others read at times already completed; non-trivial when at least two versions of an address exist", run: concurrent, quick: (1_500, 1_500), thorough: (60_000, 60_000) },
        ]),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct MT {
    t: u64,
    inf: bool,
}

impl MT {
    fn key(&self) -> (bool, u64) {
        (self.inf, if self.inf { 0 } else { self.t })
    }
    fn show(&self) -> String {
        format!("{}{}", if self.inf { "inf " } else { "" }, self.t)
    }
}

fn draw_time(g: &mut Gen, real: &mut Vec<Time>) -> MT {
    let t = match g.below(6) {
        0 => 0,
        1 => g.below(4),
        2 => *g.pick(&[1u64, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX / 2, u64::MAX - 1, u64::MAX]),
        3 => g.below(1 << 40),
        _ => g.bits(),
    };
    let kind = g.below(6);
    let (m, r) = match kind {
        0 | 1 => (MT { t, inf: false }, Time::new(t)),
        2 => (MT { t, inf: false }, Time::from(t)),
        3 => (MT { t, inf: true }, Time::from((true, t))),
        4 => {
            let mut x = Time::new(t);
            x.set_infinite();
            (MT { t, inf: true }, x)
        }
        _ => {
            if g.chance(1, 2) {
                (MT { t: 0, inf: true }, Time::infinite())
            } else {
                (MT { t, inf: false }, Time::from((false, t)))
            }
        }
    };
    real.push(r);
    m
}

fn same(m: &MT, r: &Time) -> Result<(), String> {
    if r.is_infinite() != m.inf || r.time() != m.t {
        return Err(format!("expected {}, got infinite={} ticks={}", m.show(), r.is_infinite(), r.time()));
    }
    Ok(())
}

fn order(g: &mut Gen) -> Case {
    let mut case = Case::default();
    let mut r = vec![];
    let mut m: Vec<MT> = vec![];
    for i in 0..3 {
        if i > 0 && g.chance(1, 4) {
            // Often equal or next to one another.
            let d = g.below(2);
            let prev = m[i - 1];
            let t = prev.t.saturating_add(d);
            let inf = if g.chance(1, 4) { !prev.inf } else { prev.inf };
            m.push(MT { t, inf });
            r.push(Time::from((inf, t)));
        } else {
            let x = draw_time(g, &mut r);
            m.push(x);
        }
    }
    case.key = crate::gen::hash_str(&format!("{m:?}"));
    case.nontrivial = m[0] != m[1] || m[1] != m[2];
    case.sample = json!(m.iter().map(|x| x.show()).collect::<Vec<_>>());
    case.class("an infinite one", m.iter().any(|x| x.inf));
    case.class("two infinite ones", m.iter().filter(|x| x.inf).count() > 1);
    for i in 0..3 {
        case.check(same(&m[i], &r[i]));
        for j in 0..3 {
            let want = m[i].key().cmp(&m[j].key());
            let (a, b) = (r[i], r[j]);
            let what = format!("{} against {}", m[i].show(), m[j].show());
            let mut eq = |name: &str, ok: bool| {
                if !ok {
                    case.fail(format!("{name} is wrong for {what}"));
                }
            };
            eq("Ord::cmp", Ord::cmp(&a, &b) == want);
            eq("partial_cmp", a.partial_cmp(&b) == Some(want));
            eq("==", (a == b) == (want == Ordering::Equal));
            eq("!=", (a != b) == (want != Ordering::Equal));
            eq("<", (a < b) == (want == Ordering::Less));
            if m[i] != m[j] && !(m[i].inf && m[j].inf) {
                eq("the printed form (the same for both)", a.to_string() != b.to_string());
            }
            eq("<=", (a <= b) == (want != Ordering::Greater));
            eq(">", (a > b) == (want == Ordering::Greater));
            eq(">=", (a >= b) == (want != Ordering::Less));
            let lo = if want == Ordering::Greater { b } else { a };
            let hi = if want == Ordering::Greater { a } else { b };
            eq("min", std::cmp::min(a, b) == lo);
            eq("max", std::cmp::max(a, b) == hi);
        }
        // Nothing finite is as late as infinity, and infinity is infinity.
        if m[i].inf != (r[i] == Time::infinite()) {
            case.fail(format!("comparing {} with infinity", m[i].show()));
        }
        if !m[i].inf && r[i].to_string() != m[i].t.to_string() {
            case.fail(format!("{} is printed as {}", m[i].show(), r[i]));
        }
        // Serialisation keeps both parts.
        let text = serde_json::to_string(&r[i]).unwrap();
        match serde_json::from_str::<Time>(&text) {
            Ok(back) => {
                case.check(same(&m[i], &back).map_err(|e| format!("after serialising: {e}")));
            }
            Err(e) => case.fail(format!("{} does not deserialise: {e}", m[i].show())),
        }
    }
    let mut sorted = r.clone();
    sorted.sort();
    for w in sorted.windows(2) {
        if w[0] > w[1] {
            case.fail("sorting leaves timestamps out of order");
        }
    }
    let d = Time::default();
    if d.is_infinite() || d.time() != 0 {
        case.fail("the default timestamp is not tick zero");
    }
    case
}

fn arithmetic(g: &mut Gen) -> Case {
    let mut case = Case::default();
    let start = MT { t: g.below(1 << 50), inf: g.chance(1, 4) };
    let mut m = start;
    let mut r = Time::from((start.inf, start.t));
    let mut text = vec![start.show()];
    let n = g.usize(1, 8);
    for _ in 0..n {
        let d = match g.below(3) {
            0 => g.below(3),
            1 => g.below(1000),
            _ => g.below(1 << 48),
        };
        let inf = g.chance(1, 5);
        let other = Time::from((inf, d));
        let before = m;
        match g.below(6) {
            0 => {
                text.push(format!("+ {d}u64"));
                m.t += d;
                r = r + d;
            }
            1 => {
                text.push(format!("+ {}", MT { t: d, inf }.show()));
                m = MT { t: m.t + d, inf: m.inf || inf };
                let sum = r + other;
                let mirrored = other + r;
                case.check(same(&m, &mirrored).map_err(|e| format!("adding {} and {} the other way round: {e}", before.show(), d)));
                r = sum;
            }
            2 => {
                if d > m.t {
                    // No time comes before zero: there is nothing right to give.
                    if let Ok(x) = std::panic::catch_unwind(|| r - d) {
                        case.fail(format!("{} - {d} gives {x:?}", m.show()));
                    }
                }
                let d = d.min(m.t);
                text.push(format!("- {d}u64"));
                m.t -= d;
                r = r - d;
            }
            3 => {
                text.push(format!("+= {d}u64"));
                m.t += d;
                r += d;
            }
            4 => {
                text.push(format!("+= {}", MT { t: d, inf }.show()));
                m = MT { t: m.t + d, inf: m.inf || inf };
                r += other;
            }
            _ => {
                // There and back again.
                text.push(format!("+ {d} - {d}"));
                r = (r + d) - d;
            }
        }
        case.check(same(&m, &r).map_err(|e| format!("{}: {e}", text.join(" "))));
    }
    // Monotonic: adding a positive amount to a finite time makes it later.
    if !m.inf && (r + 1) <= r {
        case.fail(format!("{} + 1 is not later", m.show()));
    }
    if !m.inf && r >= Time::infinite() {
        case.fail(format!("{} is not before infinity", m.show()));
    }
    case.key = crate::gen::hash_str(&text.join(" "));
    case.nontrivial = n >= 2;
    case.class("infinite at some point", m.inf);
    case.sample = json!(text.join(" "));
    case
}

#[derive(Clone, Debug)]
enum D {
    Write(usize, u32, u64),
    Read(usize, u64),
}

fn history(g: &mut Gen) -> Case {
    let mut case = Case::default();
    let cap = g.length(1, 5);
    let start = g.start();
    let mod_address = g.chance(1, 2);
    let use_default_value = g.chance(1, 2);
    let ds = Datastore::<u32>::new(cap, Behavior { mod_address, use_default_value });
    let mut hist: HashMap<usize, Vec<(u64, u32)>> = HashMap::new();
    let mut text = vec![format!("capacity {cap}, wrap {mod_address}, default {use_default_value}")];
    let n = g.length(1, 24);
    // A refused write ends the history, so only some have any.
    let illegal = g.chance(1, 3);
    let mut value = 1u32;
    let mut interesting = 0;
    for _ in 0..n {
        let over = g.chance(1, 6);
        let addr = if over { cap + g.usize(0, 2 * cap) } else { g.usize(0, cap - 1) };
        let real = addr % cap;
        let ok_addr = addr < cap || mod_address;
        let last = hist.get(&real).and_then(|h| h.last().map(|x| x.0));
        let op = if g.chance(1, 2) {
            let t = match (last, g.below(8)) {
                (Some(l), 0) if illegal => l.saturating_sub(g.below(4)),
                (Some(l), _) => l + 1 + g.small(9),
                (None, _) => start + g.small(20),
            };
            value += 1;
            D::Write(addr, value, t)
        } else {
            // Anywhere, or close to what was written last there.
            let about = last.unwrap_or(start);
            D::Read(addr, if g.chance(1, 4) { (about + 3).saturating_sub(g.below(7)) } else { start + g.small(60) })
        };
        match op {
            D::Write(_, v, t) => {
                text.push(format!("write [{addr}] = {v} @{t}"));
                let legal = ok_addr && last.map_or(true, |l| t > l);
                let res = catch(|| ds.write(addr, v, Time::new(t)));
                match (legal, res) {
                    (true, Ok(())) => hist.entry(real).or_default().push((t, v)),
                    (true, Err(e)) => case.fail(format!("{}: refused a legal write: {e}", text.join("; "))),
                    (false, Ok(())) => case.fail(format!("{}: accepted a write it must refuse", text.join("; "))),
                    (false, Err(_)) => {
                        // A panic while the lock was held may leave it poisoned: stop there.
                        if ok_addr {
                            break;
                        }
                    }
                }
            }
            D::Read(_, t) => {
                text.push(format!("read [{addr}] @{t}"));
                let h = hist.get(&real);
                let found = h.and_then(|h| h.iter().filter(|x| x.0 <= t).last());
                let want = match found {
                    _ if !ok_addr => None,
                    Some(x) => Some(x.1),
                    None if use_default_value => Some(0),
                    None => None,
                };
                if let Some(h) = h {
                    if h.iter().any(|x| x.0 > t) {
                        interesting += 1;
                    }
                }
                let res = catch(|| ds.read(addr, Time::new(t)));
                match (want, res) {
                    (Some(w), Ok(v)) if w == v => {}
                    (Some(w), Ok(v)) => case.fail(format!("{}: gave {v}, expected {w}", text.join("; "))),
                    (Some(w), Err(e)) => case.fail(format!("{}: panicked ({e}), expected {w}", text.join("; "))),
                    (None, Ok(v)) => case.fail(format!("{}: gave {v}, but must panic", text.join("; "))),
                    (None, Err(_)) => {}
                }
            }
        }
        if case.violation.is_some() {
            break;
        }
    }
    case.key = crate::gen::hash_str(&text.join(";"));
    case.nontrivial = interesting > 0;
    case.class("wraps", mod_address);
    case.class("default value", use_default_value);
    case.sample = json!(text);
    case
}

/// One writer, several readers which only ask about times the writer has completed.
fn concurrent(g: &mut Gen) -> Case {
    use std::sync::atomic::{AtomicU64, Ordering as O};
    let mut case = Case::default();
    let cap = g.usize(1, 4);
    let n = g.usize(2, 40);
    let mut t = 0;
    let writes: Vec<(usize, u64)> = (0..n)
        .map(|_| {
            t += 1 + g.small(4);
            (g.usize(0, cap - 1), t)
        })
        .collect();
    let seed = g.bits();
    let done = AtomicU64::new(0);
    let ds = Datastore::<u64>::new(cap, Behavior { mod_address: false, use_default_value: true });
    let fault = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        s.spawn(|| {
            for (a, t) in &writes {
                ds.write(*a, *t, Time::new(*t));
                done.store(*t, O::Release);
            }
        });
        for r in 0..2u64 {
            let (ds, done, writes, fault) = (&ds, &done, &writes, &fault);
            s.spawn(move || {
                let mut rng = crate::gen::Rng(seed ^ r);
                for _ in 0..60 {
                    let upto = done.load(O::Acquire);
                    let at = if rng.next() % 3 == 0 { upto } else { rng.next() % (upto + 1) };
                    let a = (rng.next() % cap as u64) as usize;
                    let want = writes.iter().filter(|w| w.0 == a && w.1 <= at).last().map_or(0, |w| w.1);
                    let got = ds.read(a, Time::new(at));
                    if got != want {
                        *fault.lock().unwrap() = Some(format!("read [{a}] @{at} while writes up to {upto} were complete gave {got}, expected {want}"));
                    }
                }
            });
        }
    });
    if let Some(f) = fault.into_inner().unwrap() {
        case.fail(f);
    }
    case.key = crate::gen::mix(&[crate::gen::hash_str(&format!("{writes:?}")), seed]);
    case.nontrivial = (0..cap).any(|a| writes.iter().filter(|w| w.0 == a).count() > 1);
    case.sample = json!({"capacity": cap, "writes (address, time)": writes});
    case
}

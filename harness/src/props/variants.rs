//! C04, C05: cases of the units' own properties, run again under other schedules or without flavor
//! inference. Whether what they do is right is judged there; here, whether it stays the same.
use super::util::varied;
use super::{memory, streams};
use crate::gen::Gen;
use crate::runner::{Case, Part};

type Run = fn(&mut Gen) -> Case;

const QUICK: (u64, u64) = (2_500, 250);
const THOROUGH: (u64, u64) = (100_000, 10_000);

fn part(name: &'static str, rule: &'static str, run: Run) -> Part {
    Part { name, rule, run, quick: QUICK, thorough: THOROUGH }
}

pub fn schedules() -> Vec<Part> {
    vec![
        part("memory-streams", "a memory unit as in C15 (streams) under 3 schedules; non-trivial as there", |g| other_schedules(g, memory::pmu_streams)),
        part("memory-clients", "a memory unit as in C15 (clients) under 3 schedules; non-trivial as there", |g| other_schedules(g, memory::pmu_clients)),
        part("dram-streams", "a DRAM as in C16 (streams) under 3 schedules; non-trivial as there", |g| other_schedules(g, memory::dram_streams)),
        part("dram-clients", "a DRAM as in C16 (clients) under 3 schedules; non-trivial as there", |g| other_schedules(g, memory::dram_clients)),
        part("pipelines", "a pipeline unit as in C17 under 3 schedules; non-trivial as there", |g| other_schedules(g, streams::pipeline)),
        part("trees", "sources, broadcasts and sinks as in C18 under 3 schedules; non-trivial as there", |g| other_schedules(g, streams::trees)),
    ]
}

pub fn inference() -> Vec<Part> {
    vec![
        part("memory-streams", "a memory unit as in C15 (streams) with and without flavor inference; non-trivial as there", |g| with_and_without(g, memory::pmu_streams)),
        part("memory-clients", "a memory unit as in C15 (clients) with and without flavor inference; non-trivial as there", |g| with_and_without(g, memory::pmu_clients)),
        part("dram-streams", "a DRAM as in C16 (streams) with and without flavor inference; non-trivial as there", |g| with_and_without(g, memory::dram_streams)),
        part("dram-clients", "a DRAM as in C16 (clients) with and without flavor inference; non-trivial as there", |g| with_and_without(g, memory::dram_clients)),
        part("pipelines", "a pipeline unit as in C17 with and without flavor inference; non-trivial as there", |g| with_and_without(g, streams::pipeline)),
        part("trees", "sources, broadcasts and sinks as in C18 with and without flavor inference; non-trivial as there", |g| with_and_without(g, streams::trees)),
    ]
}

/// Runs the case `g` draws in the first way, and then in each of the others; all have to make the same of it.
fn compare(g: &mut Gen, run: Run, first: (&str, bool), others: &[(&str, bool, u64)]) -> Case {
    let mut case = varied(first.1, 0, || run(g));
    let wrong = case.violation.take();
    case.runs = 1;
    let Some(a) = case.history.take() else {
        case.inconclusive = wrong;
        return case;
    };
    let choices = g.choices.clone();
    for (name, plain, other) in others {
        let mut again = Gen::replay(choices.clone());
        again.early = g.early;
        again.inferring = g.inferring;
        let mut second = varied(*plain, *other, || run(&mut again));
        case.runs += 1;
        let Some(b) = second.history.take() else {
            let why = second.violation.or(second.inconclusive).unwrap_or_default();
            case.fail(format!("{} it finishes; {name} it does not: {why}", first.0));
            break;
        };
        for i in 0..a.len().max(b.len()) {
            if a.get(i) != b.get(i) {
                case.fail(format!("{}: {:?}; {name}: {:?}", first.0, a.get(i), b.get(i)));
                break;
            }
        }
    }
    case
}

fn other_schedules(g: &mut Gen, run: Run) -> Case {
    compare(g, run, ("under one schedule", false), &[("under a second schedule", false, 1), ("under a third schedule", false, 2)])
}

fn with_and_without(g: &mut Gen, run: Run) -> Case {
    g.inferring = true;
    compare(g, run, ("without inference", true), &[("with inference", false, 0), ("with inference, under another schedule", false, 1)])
}

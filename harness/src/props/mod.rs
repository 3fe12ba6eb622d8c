use crate::runner::Part;

mod core;
mod clocks;
mod configs;
mod ending;
mod export;
mod events;
pub mod logging;
mod findings;
mod memory;
mod model;
#[cfg(feature = "mongo")]
pub mod mongo;
pub use findings::known_findings;
mod programs;
mod pure;
mod streams;
mod types;
mod units;
mod variants;
pub mod util;

pub fn all() -> Vec<(&'static str, Vec<Part>)> {
    let mut v = vec![];
    v.extend(core::all());
    v.extend(pure::all());
    v.extend(events::all());
    v.extend(ending::all());
    v.extend(programs::all());
    v.extend(clocks::all());
    v.extend(memory::all());
    v.extend(streams::all());
    v.extend(logging::all());
    v.extend(types::all());
    v.extend(export::all());
    v.extend(configs::all());
    if !cfg!(dam_verif) {
        // Without its constructors there is no DRAM.
        for (id, parts) in &mut v {
            parts.retain(|p| *id != "C16" && !p.name.starts_with("dram-"));
        }
    }
    v
}

/// The identifier and message of a failure; its fields are private, but it displays both.
pub fn failure_parts(e: &dam::simulation::SimulationError) -> (usize, String) {
    let text = e.to_string();
    let id = text
        .split(|c: char| !c.is_ascii_digit())
        .find(|s| !s.is_empty())
        .and_then(|s| s.parse().ok())
        .unwrap_or(usize::MAX);
    (id, text)
}

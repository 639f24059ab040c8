//! Shared parts of the checks: point types with an independent description, a message model with a
//! byte-level reference reader, and the readers and writers of the code under test as enumerations.
pub mod derived;
pub mod gen;
pub mod model;
pub mod pts;
pub mod sched;
pub mod source;
pub mod wellformed;

pub use mc::{catch, guard, hash_of, scenario, Cx, Scenario, Tier};
pub use gen::*;
pub use model::*;
pub use pts::*;
pub use source::{Hinted, Source, HINTS};

/// Run the explorer with rayon confined to the calling thread, so that one execution is one
/// deterministic run. (The schedules of real parallel runs are explored by C09.)
pub fn run(prop: &'static str, scenarios: fn(Tier) -> Vec<Scenario>) {
    rayon::ThreadPoolBuilder::new()
        .num_threads(1)
        .use_current_thread()
        .build_global()
        .expect("rayon pool");
    mc::main(prop, scenarios)
}

//! C22: user code is called once per point, in order, when it is needed, and may panic at any call
//! without a leak, a double drop or a use after free.
use harness::{run, Scenario, Tier};

mod small {
    const PAD: usize = 0;
    include!("../c22_body.rs");
}
/// a point that does not fit a few registers or a cache line
mod large {
    const PAD: usize = 31;
    include!("../c22_body.rs");
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = small::scenarios(tier);
    for mut s in large::scenarios(Tier::Quick) {
        s.name += "-large-points";
        v.push(s);
    }
    v
}
fn main() {
    run("C22", scenarios)
}

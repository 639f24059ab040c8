//! C02: fields are read by name. C03 runs the same scenarios on big-endian messages.
use harness::wellformed::scenarios;

fn main() {
    harness::run("C02", |t| scenarios(t, false))
}

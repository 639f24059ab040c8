//! C03: big-endian messages are read to the points of their little-endian counterparts.
use harness::wellformed::scenarios;

fn main() {
    harness::run("C03", |t| scenarios(t, true))
}

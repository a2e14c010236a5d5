//! The harness bodies of /verif/harness/kyber compiled natively against the real dependencies:
//! replays counterexamples, searches for failing inputs, and runs the exhaustive evaluations.
#[path = "../../../harness/kyber/src/bodies.rs"]
mod bodies;
mod exhaustive;
mod reference;

mod all {
    use crate::bodies;
    include!("../../../harness/kyber/src/table.rs");
}

fn main() {
    let mut t: Vec<(&str, fn())> = all::TABLE.to_vec();
    t.extend_from_slice(exhaustive::TABLE);
    t.extend_from_slice(reference::TABLE);
    vnd::native::main(&t)
}

//@ in src/state/transactions/mod.rs as crate::state::transactions
include!("sim.rs");
pub fn run(r: &mut Run) {
    sim(r, "C07");
}

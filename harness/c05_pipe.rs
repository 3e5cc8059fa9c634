//@ in src/state/transactions/mod.rs as crate::state::transactions
include!("pipe.rs");
pub fn run(r: &mut Run) {
    pipe(r, "C05");
}

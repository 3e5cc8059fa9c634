pub use ic0_23::*;

//! Replays tables printed by TLC from the specifications in /verif/spec on the
//! real `normalize_interval` code, and records runs of it for trace validation.
//! Nothing here computes an expected result: every expectation is looked up in
//! a table row (or, for recorded runs, judged by TLC).
pub mod ctx;
pub mod rng;
pub mod tables;
pub mod types;
pub mod subject;
pub mod interval;
pub mod walk;
pub mod record;
pub mod regs;
#[cfg(feature = "serde")]
pub mod saved;

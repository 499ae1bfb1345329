#![allow(static_mut_refs, clippy::all)]
#[path = "../../seq/src/bumpseq.rs"]
pub mod bumpseq;
pub mod conc;
pub mod sched;
pub mod sys;
#[path = "../../seq/src/vals.rs"]
pub mod vals;

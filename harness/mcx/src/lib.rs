//! A small explicit, exhaustive explorer for real Rust code.
//!
//! * `Ctx::choose(n)` is the only source of nondeterminism of a scenario.  The engine runs the scenario
//!   body again and again, following every sequence of choices depth first, on freshly built real objects.
//! * `Ctx::visit(state, remaining)` prunes an execution when the canonical state was already explored
//!   completely with at least as many remaining steps.
//! * The parent process distributes scenarios over worker processes.  A worker keeps its current choice
//!   sequence in shared memory, so that a crash or a hang of the code under test is attributable to a
//!   trace; it is reported only after it was reproduced.
pub mod ctx;
pub mod driver;
pub mod galloc;
pub mod json;
pub mod ledger;
pub mod mem;

pub use ctx::Ctx;
pub use driver::{main, Scenario, Tier};

/// Report a violation from inside of a scenario.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { $crate::ctx::fail_now(format!($($t)*)) };
}

/// Check a condition of the property.
#[macro_export]
macro_rules! check {
    ($cond:expr, $($t:tt)*) => { if !($cond) { $crate::ctx::fail_now(format!($($t)*)) } };
}

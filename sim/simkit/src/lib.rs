//! The simulator: seeded choices, step/memory/stack accounting, thread scheduler, simulated I/O,
//! run driver with shrinking and replay.
pub mod alloc;
pub mod cov;
pub mod cx;
pub mod driver;
pub mod json;
pub mod machine;
pub mod sched;
pub mod simfs;
pub mod simio;
pub mod src;
pub mod sys;

pub use cx::{Cx, Fail, R};
pub use src::{below, chance, range, G};

//! Simulator core: seams (allocator, futex, clock, randomness), the seeded scheduler, the recorded
//! history, and the instrumented user types that the simulated call sites parse into.
pub mod alloc;
pub mod cov;
pub mod hist;
pub mod model;
pub mod rng;
pub mod sched;
pub mod sys;
pub mod types;
pub mod work;

pub use types::*;

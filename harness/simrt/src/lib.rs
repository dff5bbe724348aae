//! Deterministic simulation runtime: seeded PRNG, scheduler for real threads
//! that are parked and released one at a time, simulated allocator, simulated
//! libc seams (futex, clock, entropy, sleep), SanitizerCoverage callbacks.
#![feature(thread_local, alloc_error_hook)]
#![allow(static_mut_refs, clippy::missing_safety_doc)]
pub mod alloc;
pub mod cov;
pub mod env;
pub mod interpose;
pub mod rng;
pub mod sched;
pub mod state;
pub use rng::{mix, Rng};
pub use sched::*;
pub use state::*;

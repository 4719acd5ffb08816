//! Runtime of the simulator: deterministic allocator, thread scheduler, and the
//! seams (compiler-inserted access callbacks, C library entry points) through
//! which the library under test reaches memory shared between threads, locks,
//! clocks, entropy, the environment and files.
//!
//! Nothing in this crate is instrumented itself.
#![allow(static_mut_refs, unused_unsafe, invalid_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc)]

pub mod alloc;
pub mod libcshim;
pub mod rng;
pub mod sched;
pub mod shm;
pub mod sys;
pub mod tsan;

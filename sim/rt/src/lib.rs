//! Runtime of the simulator. Never instrumented.
#![allow(suspicious_runtime_symbol_definitions)]
#![allow(static_mut_refs)]
pub mod arena;
pub mod prng;
pub mod sched;
pub mod sys;
pub mod spec;
pub mod oracle;
pub mod mon;

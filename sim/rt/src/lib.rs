//! Deterministic simulation runtime.  Compiled without instrumentation.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
pub mod atomics;
pub mod core_;
pub mod driver;
pub mod gen;
pub mod mem;
pub mod model;
pub mod oracle;
pub mod prog;
pub mod shm;
pub mod sys;
pub use core_::*;

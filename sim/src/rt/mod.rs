//! The simulator runtime: choice stream, allocator, scheduler, instrumented element types.
pub mod arena;
#[macro_use]
pub mod ctx;
pub mod inst;
pub mod sched;
pub mod sys;

pub use arena::{in_lib, out_lib};
pub use ctx::*;

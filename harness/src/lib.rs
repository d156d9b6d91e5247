//! Conformance harness for narrow: executes specification behaviours on the
//! real code and records what happened for validation by TLC.
pub mod alloc;
pub mod cffi;
pub mod extra;
pub mod ffi;
pub mod json;
pub mod phys;
pub mod run;
pub mod supervise;
pub mod tracked;
pub mod units;
pub mod val;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

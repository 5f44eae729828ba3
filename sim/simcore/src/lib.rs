//! Core of the deterministic simulator: choice streams, the heap, the scheduler, run supervision,
//! shrinking and replay. Nothing here knows about the library under test.
#![feature(alloc_error_hook)]
pub mod choice;
pub mod cov;
pub mod entropy;
pub mod heap;
pub mod kernel;
pub mod moved;
pub mod rng;
pub mod run;
pub mod sched;
pub mod shared;
pub mod supervise;

pub use choice::St;

#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

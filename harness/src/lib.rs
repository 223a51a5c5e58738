//! Property-based checks of fix-rs. See /verif/DESIGN.md.
pub mod alloc;
pub mod clock;
pub mod conf;
pub mod dict;
pub mod extreme;
#[macro_use]
pub mod engine;
pub mod msg;
pub mod net;
pub mod props;
pub mod sched;
pub mod tape;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

//! Everything of the simulator of the planus runtime.
pub mod alloc;
pub mod build;
pub mod cluster;
pub mod fail;
pub mod hist;
#[cfg(feature = "all")]
pub mod large;
pub mod read;

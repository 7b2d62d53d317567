//! What `tokio` means in the simulated program: the crate's own simulated tokio.
pub use plusendi::sim::tokio_root::*;
pub use sim_tokio_macros::main;

//! A simulated operating system underneath Rust's standard library.
//!
//! This crate defines the libc entry points that std (and everything on top of
//! it) uses to reach the outside world: files, directories, pipes, sockets,
//! child processes, clocks, randomness, futexes and threads. While inactive
//! every entry point passes straight through to the kernel. After `enter()` the
//! whole process lives in a simulated world: an in-memory file system, a
//! simulated network, a simulated clock, and real threads of which exactly one
//! holds the token at any time; a seeded scheduler decides who gets it next.
#![allow(static_mut_refs, non_camel_case_types, unused, clippy::all, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, function_casts_as_integer)]

pub mod raw;
pub mod rng;
pub mod world;
mod fsim;
mod netsim;
mod procsim;
pub mod shim;
pub mod outcome;

pub use outcome::*;
pub use rng::Rng;
pub use world::*;

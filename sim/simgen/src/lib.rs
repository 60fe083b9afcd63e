//! Generators of inputs: maps, icon sheets and DM environments.
pub mod dm;
pub mod map;
pub mod png;
pub use simos::Rng;
pub mod render;

//! Bounded exhaustive exploration of the real collections against reference models.
pub mod alloc;
pub mod elem;
pub mod engine;
pub mod hash;
pub mod keys;
pub mod tok;

pub use engine::*;

//! The engine of the checks: a choice-sequence generator with shrinking, a sharded runner,
//! coverage feedback, generators of versions/constraints/documents, and reference models.
//! Nothing in here uses the code under test.
pub mod cov;
pub mod gen;
pub mod json;
pub mod model;
pub mod runner;
pub mod rx;
pub mod spec;
pub mod src;


pub use runner::{Prop, Stats};
pub use src::Src;

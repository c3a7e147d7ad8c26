//! Shared parts of the property-based testing harness for /repo (h3-rs).
pub mod engine;
pub mod gen;
pub mod model;

//! Harnesses, linked into the module the symbolic executor runs.
include!("all.rs");

//! Harness shared by all property checks. Nothing in here uses texmo's API
//! (that is confined to `api.rs`, included by the binaries which need it).
pub mod cli;
pub mod dict;
pub mod gens;
pub mod refs;
pub mod run;
pub use proptest;
pub use proptest::prelude as pp;

//! Conformance harness: drives the real `matreex` crate and records one event
//! per public call, to be validated against the TLA+ specification.
pub mod elem;
pub mod ids;
pub mod run;
pub mod ledger;
pub mod out;
pub mod palloc;
pub mod rng;
pub mod sig;

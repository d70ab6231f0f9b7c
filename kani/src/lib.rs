//! Full-domain Kani obligations on the real `kserd` crate (compiled from /repo on every run).
//! Every harness quantifies over all bit patterns of its symbolic inputs and contains no loop whose
//! bound depends on them, so "verified" means proved for the whole domain.
//!
//! Built without Kani, the same harness bodies run natively on the bytes of a counterexample
//! (`replay`), so what Kani reports is confirmed on the compiled crate.
#![allow(dead_code)]
#[path = "../../spec/num_spec.rs"]
pub mod num_spec;

#[cfg(not(kani))]
#[macro_use]
pub mod kani;

pub mod number;
pub mod decode;
pub mod repr;

//! Offline stand-in for the starky fork that mozak-vm depends on.
//!
//! Frames, constraint consumers and FRI instances are real. Proofs of a single
//! STARK (which only tests make) are replaced by checks of the constraints on
//! every row.
#![allow(clippy::all, clippy::pedantic)]
pub mod config;
pub mod constraint_consumer;
pub mod evaluation_frame;
pub mod prover;
pub mod stark;
pub mod stark_testing;
pub mod verifier;

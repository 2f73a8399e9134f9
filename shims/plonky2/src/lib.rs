//! Offline stand-in for the plonky2 fork that mozak-vm depends on.
//!
//! The field, polynomial, hashing, Merkle-tree, challenger and FRI parts are
//! real implementations.  The PLONK part (`plonk::circuit_builder`) is an ideal
//! one: a circuit's assertions are checked by running its generators on the
//! witness, and the "proof" of a satisfied circuit is a keyed digest of the
//! circuit and the public inputs.
#![allow(clippy::all, clippy::pedantic, private_bounds, unused_imports)]
#[cfg(feature = "full")]
pub mod batch_fri;
pub mod field;
#[cfg(feature = "full")]
pub mod fri;
#[cfg(feature = "full")]
pub mod gates;
pub mod hash;
pub mod iop;
pub mod plonk;
pub mod util;

#[macro_export]
macro_rules! timed {
    ($timing_tree:expr, $level:expr, $ctx:expr, $exp:expr) => {{
        let _ = &$timing_tree;
        let _ = $ctx;
        $exp
    }};
    ($timing_tree:expr, $ctx:expr, $exp:expr) => {{
        let _ = &$timing_tree;
        let _ = $ctx;
        $exp
    }};
}

#[macro_export]
macro_rules! with_context {
    ($builder:expr, $level:expr, $ctx:expr, $exp:expr) => {{
        let _ = $ctx;
        $exp
    }};
    ($builder:expr, $ctx:expr, $exp:expr) => {{
        let _ = $ctx;
        $exp
    }};
}

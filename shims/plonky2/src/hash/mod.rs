#[cfg(feature = "full")]
pub mod batch_merkle_tree;
pub mod hash_types;
pub mod hashing;
#[cfg(feature = "full")]
pub mod merkle_proofs;
#[cfg(feature = "full")]
pub mod merkle_tree;
pub mod poseidon;
pub mod poseidon2;

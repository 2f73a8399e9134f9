use anyhow::{ensure, Result};
use serde::{Deserialize, Serialize};

use crate::field::types::Field;
use crate::hash::hash_types::{HashOutTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::Hasher;

#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct MerkleProof<F: RichField, H: Hasher<F>> {
    pub siblings: Vec<H::Hash>,
}
impl<F: RichField, H: Hasher<F>> MerkleProof<F, H> {
    pub fn len(&self) -> usize { self.siblings.len() }

    pub fn is_empty(&self) -> bool { self.siblings.is_empty() }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleProofTarget {
    pub siblings: Vec<HashOutTarget>,
}

pub fn verify_merkle_proof_to_cap<F: RichField, H: Hasher<F>>(
    leaf_data: Vec<F>,
    leaf_index: usize,
    merkle_cap: &MerkleCap<F, H>,
    proof: &MerkleProof<F, H>,
) -> Result<()> {
    verify_batch_merkle_proof_to_cap(
        &[leaf_data],
        &[proof.siblings.len() + merkle_cap.height()],
        leaf_index,
        merkle_cap,
        proof,
    )
}

/// `leaf_heights[k]` is the height (log of the number of leaves) at which the
/// `k`th row of the opening lives.
pub fn verify_batch_merkle_proof_to_cap<F: RichField, H: Hasher<F>>(
    leaf_data: &[Vec<F>],
    leaf_heights: &[usize],
    mut leaf_index: usize,
    merkle_cap: &MerkleCap<F, H>,
    proof: &MerkleProof<F, H>,
) -> Result<()> {
    ensure!(leaf_data.len() == leaf_heights.len(), "Batch Merkle shape");
    ensure!(!leaf_data.is_empty(), "Batch Merkle shape");
    let mut digest = H::hash_or_noop(&leaf_data[0]);
    let mut next = 1;
    let mut height = leaf_heights[0];
    for &sibling in &proof.siblings {
        digest = if leaf_index & 1 == 1 {
            H::two_to_one(sibling, digest)
        } else {
            H::two_to_one(digest, sibling)
        };
        leaf_index >>= 1;
        ensure!(height > 0, "Merkle proof too long");
        height -= 1;
        if next < leaf_data.len() && leaf_heights[next] == height {
            digest = H::two_to_one(digest, H::hash_or_noop(&leaf_data[next]));
            next += 1;
        }
    }
    ensure!(next == leaf_data.len(), "Merkle proof too short");
    ensure!(leaf_index < merkle_cap.0.len(), "Merkle proof index");
    ensure!(digest == merkle_cap.0[leaf_index], "Invalid Merkle proof.");
    Ok(())
}
#[allow(dead_code)]
fn _f<F: Field>() {}

use serde::{Deserialize, Serialize};

use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::MerkleProof;
use crate::plonk::config::{GenericHashOut, Hasher};
use crate::util::log2_strict;

#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
#[serde(bound = "")]
pub struct MerkleCap<F: RichField, H: Hasher<F>>(pub Vec<H::Hash>);

impl<F: RichField, H: Hasher<F>> Default for MerkleCap<F, H> {
    fn default() -> Self { Self(Vec::new()) }
}
impl<F: RichField, H: Hasher<F>> MerkleCap<F, H> {
    pub fn len(&self) -> usize { self.0.len() }

    pub fn is_empty(&self) -> bool { self.0.is_empty() }

    pub fn height(&self) -> usize { log2_strict(self.len()) }

    pub fn flatten(&self) -> Vec<F> { self.0.iter().flat_map(|h| h.to_vec()).collect() }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MerkleTree<F: RichField, H: Hasher<F>> {
    pub leaves: Vec<Vec<F>>,
    /// `layers[0]` are the leaf digests.
    layers: Vec<Vec<H::Hash>>,
    pub cap: MerkleCap<F, H>,
}
impl<F: RichField, H: Hasher<F>> Default for MerkleTree<F, H> {
    fn default() -> Self {
        Self {
            leaves: vec![],
            layers: vec![],
            cap: MerkleCap::default(),
        }
    }
}
impl<F: RichField, H: Hasher<F>> MerkleTree<F, H> {
    pub fn new(leaves: Vec<Vec<F>>, cap_height: usize) -> Self {
        let log2_leaves = log2_strict(leaves.len());
        assert!(
            cap_height <= log2_leaves,
            "cap_height={cap_height} should be at most log2(leaves.len())={log2_leaves}"
        );
        let mut layers: Vec<Vec<H::Hash>> =
            vec![leaves.iter().map(|l| H::hash_or_noop(l)).collect()];
        while layers.last().unwrap().len() > 1 << cap_height {
            let below = layers.last().unwrap();
            layers.push(below.chunks(2).map(|c| H::two_to_one(c[0], c[1])).collect());
        }
        let cap = MerkleCap(layers.last().unwrap().clone());
        Self {
            leaves,
            layers,
            cap,
        }
    }

    pub fn get(&self, i: usize) -> &[F] { &self.leaves[i] }

    pub fn prove(&self, leaf_index: usize) -> MerkleProof<F, H> {
        let mut i = leaf_index;
        let mut siblings = vec![];
        for layer in &self.layers[..self.layers.len() - 1] {
            siblings.push(layer[i ^ 1]);
            i >>= 1;
        }
        MerkleProof { siblings }
    }
}

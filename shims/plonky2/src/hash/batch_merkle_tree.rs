use crate::hash::hash_types::RichField;
use crate::hash::merkle_proofs::MerkleProof;
use crate::hash::merkle_tree::MerkleCap;
use crate::plonk::config::Hasher;
use crate::util::log2_strict;

/// A Merkle tree whose leaves live at several heights.
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct BatchMerkleTree<F: RichField, H: Hasher<F>> {
    /// One matrix per height, tallest first.
    pub leaves: Vec<Vec<Vec<F>>>,
    pub leaf_heights: Vec<usize>,
    layers: Vec<Vec<H::Hash>>,
    pub cap: MerkleCap<F, H>,
}
impl<F: RichField, H: Hasher<F>> BatchMerkleTree<F, H> {
    pub fn new(leaves: Vec<Vec<Vec<F>>>, cap_height: usize) -> Self {
        assert!(leaves.windows(2).all(|w| w[0].len() > w[1].len()));
        let leaf_heights: Vec<usize> = leaves.iter().map(|l| log2_strict(l.len())).collect();
        assert!(leaf_heights.iter().all(|&h| h >= cap_height));
        let mut layers: Vec<Vec<H::Hash>> =
            vec![leaves[0].iter().map(|l| H::hash_or_noop(l)).collect()];
        let mut next = 1;
        while layers.last().unwrap().len() > 1 << cap_height {
            let below = layers.last().unwrap();
            let mut layer: Vec<H::Hash> =
                below.chunks(2).map(|c| H::two_to_one(c[0], c[1])).collect();
            if next < leaves.len() && leaves[next].len() == layer.len() {
                for (d, l) in layer.iter_mut().zip(&leaves[next]) {
                    *d = H::two_to_one(*d, H::hash_or_noop(l));
                }
                next += 1;
            }
            layers.push(layer);
        }
        assert_eq!(next, leaves.len());
        let cap = MerkleCap(layers.last().unwrap().clone());
        Self {
            leaves,
            leaf_heights,
            layers,
            cap,
        }
    }

    /// The rows an opening at `leaf_index` reveals, concatenated.
    pub fn values(&self, leaf_index: usize) -> Vec<F> {
        let top = self.leaf_heights[0];
        self.leaves
            .iter()
            .zip(&self.leaf_heights)
            .flat_map(|(m, h)| m[leaf_index >> (top - h)].clone())
            .collect()
    }

    pub fn open_batch(&self, leaf_index: usize) -> MerkleProof<F, H> {
        let mut i = leaf_index;
        let mut siblings = vec![];
        for layer in &self.layers[..self.layers.len() - 1] {
            siblings.push(layer[i ^ 1]);
            i >>= 1;
        }
        MerkleProof { siblings }
    }
}

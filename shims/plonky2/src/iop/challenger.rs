use core::marker::PhantomData;

use crate::field::extension::{Extendable, FieldExtension};
use crate::hash::hash_types::{HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::hashing::PlonkyPermutation;
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::Target;
use crate::plonk::circuit_builder::CircuitBuilder;
use crate::plonk::config::{AlgebraicHasher, GenericHashOut, Hasher};

#[derive(Clone, Debug)]
pub struct Challenger<F: RichField, H: Hasher<F>> {
    sponge_state: H::Permutation,
    input_buffer: Vec<F>,
    output_buffer: Vec<F>,
}
impl<F: RichField, H: Hasher<F>> Default for Challenger<F, H> {
    fn default() -> Self { Self::new() }
}
impl<F: RichField, H: Hasher<F>> Challenger<F, H> {
    pub fn new() -> Self {
        Challenger {
            sponge_state: H::Permutation::new(core::iter::repeat(F::ZERO)),
            input_buffer: vec![],
            output_buffer: vec![],
        }
    }

    pub fn observe_element(&mut self, element: F) {
        self.output_buffer.clear();
        self.input_buffer.push(element);
        if self.input_buffer.len() == H::Permutation::RATE {
            self.duplexing();
        }
    }

    pub fn observe_extension_element<const D: usize>(&mut self, element: &F::Extension)
    where
        F: RichField + Extendable<D>, {
        self.observe_elements(&element.to_basefield_array());
    }

    pub fn observe_elements(&mut self, elements: &[F]) {
        for &e in elements {
            self.observe_element(e);
        }
    }

    pub fn observe_extension_elements<const D: usize>(&mut self, elements: &[F::Extension])
    where
        F: RichField + Extendable<D>, {
        for e in elements {
            self.observe_extension_element(e);
        }
    }

    pub fn observe_hash<OH: Hasher<F>>(&mut self, hash: OH::Hash) {
        self.observe_elements(&hash.to_vec());
    }

    pub fn observe_cap<OH: Hasher<F>>(&mut self, cap: &MerkleCap<F, OH>) {
        for &hash in &cap.0 {
            self.observe_hash::<OH>(hash);
        }
    }

    pub fn get_challenge(&mut self) -> F {
        if !self.input_buffer.is_empty() || self.output_buffer.is_empty() {
            self.duplexing();
        }
        self.output_buffer.pop().expect("Output buffer should be non-empty")
    }

    pub fn get_n_challenges(&mut self, n: usize) -> Vec<F> {
        (0..n).map(|_| self.get_challenge()).collect()
    }

    pub fn get_extension_challenge<const D: usize>(&mut self) -> F::Extension
    where
        F: RichField + Extendable<D>, {
        F::Extension::from_basefield_array(self.get_n_challenges(D).try_into().unwrap())
    }

    fn duplexing(&mut self) {
        assert!(self.input_buffer.len() <= H::Permutation::RATE);
        let input = core::mem::take(&mut self.input_buffer);
        self.sponge_state.set_from_slice(&input, 0);
        self.sponge_state.permute();
        self.output_buffer = self.sponge_state.squeeze().to_vec();
    }

    pub fn compact(&mut self) -> H::Permutation {
        if !self.input_buffer.is_empty() {
            self.duplexing();
        }
        self.output_buffer.clear();
        self.sponge_state
    }
}

#[derive(Debug, Clone)]
pub struct RecursiveChallenger<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize>
{
    sponge_state: [Target; 12],
    input_buffer: Vec<Target>,
    output_buffer: Vec<Target>,
    __: PhantomData<(F, H)>,
}
impl<F: RichField + Extendable<D>, H: AlgebraicHasher<F>, const D: usize>
    RecursiveChallenger<F, H, D>
{
    pub fn new(builder: &mut CircuitBuilder<F, D>) -> Self { Self::from_state([builder.zero(); 12]) }

    pub fn from_state(sponge_state: [Target; 12]) -> Self {
        Self {
            sponge_state,
            input_buffer: vec![],
            output_buffer: vec![],
            __: PhantomData,
        }
    }

    pub fn observe_element(&mut self, target: Target) {
        self.output_buffer.clear();
        self.input_buffer.push(target);
    }

    pub fn observe_elements(&mut self, targets: &[Target]) {
        for &t in targets {
            self.observe_element(t);
        }
    }

    pub fn observe_hash(&mut self, hash: &HashOutTarget) { self.observe_elements(&hash.elements) }

    pub fn observe_cap(&mut self, cap: &MerkleCapTarget) {
        for hash in &cap.0 {
            self.observe_hash(hash);
        }
    }

    pub fn observe_extension_element(&mut self, element: ExtensionTarget<D>) {
        self.observe_elements(&element.0);
    }

    pub fn observe_extension_elements(&mut self, elements: &[ExtensionTarget<D>]) {
        for &e in elements {
            self.observe_extension_element(e);
        }
    }

    pub fn get_challenge(&mut self, builder: &mut CircuitBuilder<F, D>) -> Target {
        self.absorb_buffered_inputs(builder);
        if self.output_buffer.is_empty() {
            self.sponge_state = builder.permute::<H>(self.sponge_state);
            self.output_buffer = self.sponge_state[..H::Permutation::RATE].to_vec();
        }
        self.output_buffer.pop().expect("Output buffer should be non-empty")
    }

    pub fn get_n_challenges(
        &mut self,
        builder: &mut CircuitBuilder<F, D>,
        n: usize,
    ) -> Vec<Target> {
        (0..n).map(|_| self.get_challenge(builder)).collect()
    }

    pub fn get_extension_challenge(
        &mut self,
        builder: &mut CircuitBuilder<F, D>,
    ) -> ExtensionTarget<D> {
        ExtensionTarget(self.get_n_challenges(builder, D).try_into().unwrap())
    }

    fn absorb_buffered_inputs(&mut self, builder: &mut CircuitBuilder<F, D>) {
        if self.input_buffer.is_empty() {
            return;
        }
        for chunk in self.input_buffer.chunks(H::Permutation::RATE) {
            self.sponge_state[..chunk.len()].copy_from_slice(chunk);
            self.sponge_state = builder.permute::<H>(self.sponge_state);
        }
        self.output_buffer = self.sponge_state[..H::Permutation::RATE].to_vec();
        self.input_buffer.clear();
    }

    pub fn compact(&mut self, builder: &mut CircuitBuilder<F, D>) -> [Target; 12] {
        self.absorb_buffered_inputs(builder);
        self.output_buffer.clear();
        self.sponge_state
    }
}

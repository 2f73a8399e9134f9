use std::collections::HashMap;

use crate::field::extension::{Extendable, FieldExtension};
use crate::field::types::Field;
use crate::fri::structure::{FriOpenings, FriOpeningsTarget};
use crate::hash::hash_types::{HashOut, HashOutTarget, MerkleCapTarget, RichField};
use crate::hash::merkle_tree::MerkleCap;
use crate::iop::ext_target::ExtensionTarget;
use crate::iop::target::{BoolTarget, Target};
use crate::plonk::circuit_data::{VerifierCircuitTarget, VerifierOnlyCircuitData};
use crate::plonk::config::{AlgebraicHasher, GenericConfig, GenericHashOut};
use crate::plonk::proof::{ProofWithPublicInputs, ProofWithPublicInputsTarget};

pub trait WitnessWrite<F: Field> {
    fn set_target(&mut self, target: Target, value: F);

    fn set_target_arr(&mut self, targets: &[Target], values: &[F]) {
        assert_eq!(targets.len(), values.len(), "zip_eq");
        for (&t, &v) in targets.iter().zip(values) {
            self.set_target(t, v);
        }
    }
    fn set_hash_target(&mut self, ht: HashOutTarget, value: HashOut<F>) {
        self.set_target_arr(&ht.elements, &value.elements);
    }
    fn set_cap_target<H: AlgebraicHasher<F>>(&mut self, ct: &MerkleCapTarget, value: &MerkleCap<F, H>)
    where
        F: RichField, {
        // like plonky2: a shorter cap leaves the rest of the targets unset
        for (&ht, h) in ct.0.iter().zip(&value.0) {
            self.set_target_arr(&ht.elements, &h.to_vec());
        }
    }
    fn set_extension_target<const D: usize>(&mut self, et: ExtensionTarget<D>, value: F::Extension)
    where
        F: RichField + Extendable<D>, {
        self.set_target_arr(&et.0, &value.to_basefield_array());
    }
    fn set_extension_targets<const D: usize>(
        &mut self,
        ets: &[ExtensionTarget<D>],
        values: &[F::Extension],
    ) where
        F: RichField + Extendable<D>, {
        assert_eq!(ets.len(), values.len());
        for (&t, &v) in ets.iter().zip(values) {
            self.set_extension_target(t, v);
        }
    }
    fn set_bool_target(&mut self, target: BoolTarget, value: bool) {
        self.set_target(target.target, F::from_bool(value))
    }
    fn set_proof_with_pis_target<C: GenericConfig<D, F = F>, const D: usize>(
        &mut self,
        target: &ProofWithPublicInputsTarget<D>,
        proof: &ProofWithPublicInputs<F, C, D>,
    ) where
        F: RichField + Extendable<D>,
        C::Hasher: AlgebraicHasher<F>, {
        assert_eq!(target.public_inputs.len(), proof.public_inputs.len());
        for (&t, &v) in target.public_inputs.iter().zip(&proof.public_inputs) {
            self.set_target(t, v);
        }
        self.set_target_arr(&target.proof.mac.elements, &proof.proof.mac);
    }
    fn set_fri_openings<const D: usize>(
        &mut self,
        target: &FriOpeningsTarget<D>,
        openings: &FriOpenings<F, D>,
    ) where
        F: RichField + Extendable<D>, {
        for (bt, b) in target.batches.iter().zip(&openings.batches) {
            for (&t, &v) in bt.values.iter().zip(&b.values) {
                // the base-field openings sit in (target, zero) pairs
                self.set_extension_target(t, v);
            }
        }
    }
    fn set_verifier_data_target<C: GenericConfig<D, F = F>, const D: usize>(
        &mut self,
        vdt: &VerifierCircuitTarget,
        vd: &VerifierOnlyCircuitData<C, D>,
    ) where
        F: RichField + Extendable<D>,
        C::Hasher: AlgebraicHasher<F>, {
        self.set_cap_target(&vdt.constants_sigmas_cap, &vd.constants_sigmas_cap);
        self.set_hash_target(vdt.circuit_digest, vd.circuit_digest);
    }
}

pub trait Witness<F: Field>: WitnessWrite<F> {
    fn try_get_target(&self, target: Target) -> Option<F>;
    fn get_target(&self, target: Target) -> F { self.try_get_target(target).unwrap() }
    fn get_targets(&self, targets: &[Target]) -> Vec<F> {
        targets.iter().map(|&t| self.get_target(t)).collect()
    }
    fn get_bool_target(&self, target: BoolTarget) -> bool {
        let v = self.get_target(target.target);
        assert!(v.is_zero() || v.is_one(), "not a bool");
        v.is_one()
    }
}

#[derive(Clone, Debug, Default)]
pub struct PartialWitness<F: Field> {
    pub target_values: HashMap<Target, F>,
}
impl<F: Field> PartialWitness<F> {
    pub fn new() -> Self {
        Self {
            target_values: HashMap::new(),
        }
    }
}
impl<F: Field> WitnessWrite<F> for PartialWitness<F> {
    fn set_target(&mut self, target: Target, value: F) {
        let old = self.target_values.insert(target, value);
        if let Some(old) = old {
            assert_eq!(
                value, old,
                "Target {target:?} was set twice with different values: {old} != {value}"
            );
        }
    }
}
impl<F: Field> Witness<F> for PartialWitness<F> {
    fn try_get_target(&self, target: Target) -> Option<F> {
        self.target_values.get(&target).copied()
    }
}
#[allow(dead_code)]
fn _g<F: RichField, H: GenericHashOut<F>>() {}

//! A prover that does not follow the rules: changes witnesses on their way into the real circuits.
use std::collections::BTreeMap;
use std::rc::Rc;
use std::cell::RefCell;

use anyhow::Result;
use monlib::{guard, hash_dbg, Mon, Rng};
use mozak_recproofs::{dummy_circuit};
use plonky2::iop::target::Target;
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_data::{verif, CircuitData, CommonCircuitData};
use plonky2::plonk::proof::ProofWithPublicInputs;

use crate::native::*;

pub type Proof = ProofWithPublicInputs<F, C, D>;

/// The value of a target in the witness last judged.
pub fn val(t: Target) -> F { f(verif::value(t)) }
pub fn vals<const N: usize>(t: [Target; N]) -> [F; N] { t.map(val) }

/// Whether proving worked: a refusal is an error or a panic.
pub fn proven<T>(g: impl FnOnce() -> Result<T>) -> std::result::Result<T, String> {
    match guard(g) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => Err(e),
    }
}

/// Proves and keeps all values for `val`.
pub fn kept<T>(g: impl FnOnce() -> Result<T>) -> std::result::Result<T, String> {
    verif::keep_values(true);
    let r = proven(g);
    verif::keep_values(false);
    r
}

/// The witness `g` gives, by copy class.
fn observe<T>(g: impl FnOnce() -> Result<T>) -> BTreeMap<usize, (Target, F)> {
    let seen = Rc::new(RefCell::new(BTreeMap::new()));
    let s = seen.clone();
    verif::on_next_witness(Some(Box::new(move |w, class| {
        let w = w.downcast_mut::<PartialWitness<F>>().expect("field");
        for (t, v) in &w.target_values { s.borrow_mut().insert(class(*t), (*t, *v)); }
    })));
    let _ = proven(g);
    verif::on_next_witness(None);
    let out = seen.borrow().clone();
    out
}

/// `g` with some targets, and all that are copies of them, set otherwise.
fn changed<T>(changes: Vec<(Target, F)>, g: impl FnOnce() -> Result<T>) -> std::result::Result<T, String> {
    verif::on_next_witness(Some(Box::new(move |w, class| {
        let w = w.downcast_mut::<PartialWitness<F>>().expect("field");
        for (t, v) in changes {
            let c = class(t);
            w.target_values.retain(|k, _| class(*k) != c);
            w.set_target(t, v);
        }
    })));
    let r = kept(g);
    verif::on_next_witness(None);
    r
}

/// Changes parts of the witness that `prove` gives. Whatever is proven must be true all the same.
pub fn attack<T>(
    mon: &Mon, r: &mut Rng, name: &str, times: u64, circuit: &CircuitData<F, C, D>,
    prove: &dyn Fn() -> Result<T>, judge: &dyn Fn(&T) -> std::result::Result<(), String>,
) {
    let inputs: Vec<(Target, F)> = { let mut v: Vec<_> = observe(prove).into_values().collect(); v.sort_unstable_by_key(|x| x.0); v };
    let pis = &circuit.prover_only.public_inputs;
    for _ in 0..times {
        let mut changes = vec![];
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            let (t, old) = if r.chance(1, 3) || inputs.is_empty() { (*r.pick(pis), r.pick(&inputs.iter().map(|x| x.1).chain([f(0)]).collect::<Vec<_>>()).to_owned()) } else { *r.pick(&inputs) };
            let v = match r.below(8) {
                0 => f(0),
                1 => f(1),
                2 => old + f(1),
                3 => old - f(1),
                4 => -old,
                5 => f(r.u64() % P),
                6 => f(r.below(64)),
                _ if inputs.is_empty() => f(2),
                _ => r.pick(&inputs).1,
            };
            if v != old { changes.push((t, v)); }
        }
        if changes.is_empty() { continue; }
        mon.eval();
        mon.count("forgeries tried", 1);
        mon.nontrivial(hash_dbg(&(name, &changes)));
        let what = format!("{changes:?}");
        let Ok(p) = changed(changes, prove) else { continue };
        mon.count("changed witnesses proven", 1);
        if let Err(e) = judge(&p) { mon.violation(&format!("forged/{name}"), format!("witness changed at {what}: {e}")); }
    }
}

/// A circuit of the same shape that proves anything, and its proof of `pis`, after `name` has put its
/// own verifier data in.
pub struct Evil { pub circuit: CircuitData<F, C, D> }
impl Evil {
    pub fn new(common: &CommonCircuitData<F, D>) -> Evil { Evil { circuit: dummy_circuit::<C, D>(common, |_| {}) } }
    pub fn prove(&self, pis: &[F]) -> Proof {
        let mut w = PartialWitness::new();
        w.set_target_arr(&self.circuit.prover_only.public_inputs, pis);
        self.circuit.prove(w).expect("evil proof")
    }
    /// `pis` with the public values at which `circuit` names its verifier replaced.
    pub fn named(&self, indices: &mozak_recproofs::indices::VerifierCircuitTargetIndex, pis: &[F]) -> Vec<F> {
        let mut pis = pis.to_vec();
        indices.set_field(&mut pis, self.circuit.verifier_only.clone());
        pis
    }
}

//! Native counterparts of what the proofs claim: plain hashes, sparse Merkle roots, deltas.
use std::collections::BTreeMap;

pub use mozak_recproofs::test_utils::{C, D, F};
use mozak_recproofs::Object;
use monlib::Rng;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::hash_types::HashOut;
use plonky2::hash::poseidon2::Poseidon2Hash;
use plonky2::plonk::config::Hasher;

pub type H = HashOut<F>;
pub type Obj = Object<F>;
pub const P: u64 = 0xffff_ffff_0000_0001;

pub fn f(v: u64) -> F { F::from_canonical_u64(v) }
pub fn u(v: F) -> u64 { v.to_canonical_u64() }
pub fn hash(v: &[F]) -> H { Poseidon2Hash::hash_no_pad(v) }
pub fn two(l: H, r: H) -> H {
    let mut v = l.elements.to_vec();
    v.extend(r.elements);
    hash(&v)
}
/// Hash of the little-endian bytes of both, as the SDK does.
pub fn two_bytes(l: H, r: H) -> H {
    let v: Vec<F> = l.elements.iter().chain(&r.elements).flat_map(|e| u(*e).to_le_bytes()).map(F::from_canonical_u8).collect();
    hash(&v)
}
pub fn obj_hash(o: &Obj) -> H {
    let mut v = o.constraint_owner.to_vec();
    v.push(o.last_updated);
    v.push(o.credits);
    v.extend(o.data);
    hash(&v)
}
pub fn summary(addr: u64, old: H, new: H) -> H {
    let mut v = vec![f(addr)];
    v.extend(old.elements);
    v.extend(new.elements);
    hash(&v)
}

/// Root of the complete tree with `2^levels` leaves whose leaves default to `empty`.
pub fn sparse_root(levels: u32, leaves: &BTreeMap<u64, H>, empty: H) -> H {
    let mut es = vec![empty];
    for i in 0..levels as usize { es.push(two(es[i], es[i])); }
    fn go(level: u32, xs: &[(u64, H)], es: &[H]) -> H {
        if xs.is_empty() { return es[level as usize]; }
        if level == 0 {
            assert_eq!(xs.len(), 1);
            return xs[0].1;
        }
        let bit = 1u64 << (level - 1);
        let cut = xs.partition_point(|x| x.0 & bit == 0);
        two(go(level - 1, &xs[..cut], es), go(level - 1, &xs[cut..], es))
    }
    let xs: Vec<_> = leaves.iter().map(|(a, h)| (*a, *h)).collect();
    go(levels, &xs, &es)
}

/// Hash of the items that are present, combined along the address tree: absent halves drop out.
pub fn present_root(levels: u32, leaves: &BTreeMap<u64, H>) -> Option<H> {
    fn go(level: u32, xs: &[(u64, H)]) -> Option<H> {
        if xs.is_empty() { return None; }
        if level == 0 { return Some(xs[0].1); }
        let bit = 1u64 << (level - 1);
        let cut = xs.partition_point(|x| x.0 & bit == 0);
        match (go(level - 1, &xs[..cut]), go(level - 1, &xs[cut..])) {
            (Some(l), Some(r)) => Some(two(l, r)),
            (l, r) => l.or(r),
        }
    }
    let xs: Vec<_> = leaves.iter().map(|(a, h)| (*a, *h)).collect();
    go(levels, &xs)
}

pub fn rnd_f(r: &mut Rng) -> F { f(match r.below(6) { 0 => 0, 1 => 1, 2 => P - 1, 3 => r.below(5), _ => r.u64() % P }) }
pub fn rnd4(r: &mut Rng) -> [F; 4] {
    match r.below(5) {
        0 => [F::ZERO; 4],
        1 => { let mut v = [F::ZERO; 4]; v[r.idx(4)] = rnd_f(r); v }
        _ => [rnd_f(r), rnd_f(r), rnd_f(r), rnd_f(r)],
    }
}
pub fn rnd_h(r: &mut Rng) -> H { H { elements: rnd4(r) } }
pub fn rnd_obj(r: &mut Rng) -> Obj {
    Object { constraint_owner: rnd4(r), last_updated: rnd_f(r), credits: rnd_f(r), data: rnd4(r) }
}

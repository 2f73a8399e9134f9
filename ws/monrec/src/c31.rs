//! C31: event roots and tree merges equal their native counterparts.
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::Arc;

use mozak_recproofs::circuits::build_event_root as be;
use mozak_recproofs::circuits::merge as mg;
use mozak_recproofs::test_utils::CONFIG;
use mozak_recproofs::{Event, EventType};
use monlib::{cores, hash_dbg, json, parallel, Mon, Rng};
use plonky2::plonk::circuit_data::verif;

use crate::adv::*;
use crate::native::*;

type V4 = [F; 4];
const TYPES: [EventType; 6] = [EventType::Write, EventType::Ensure, EventType::Read, EventType::GiveOwner, EventType::TakeOwner, EventType::CreditDelta];

pub struct Circuits {
    pub el: be::LeafCircuit<F, C, D>,
    pub eb: be::BranchCircuit<F, C, D>,
    pub ml: mg::LeafCircuit<F, C, D>,
    pub mb: mg::BranchCircuit<F, C, D>,
    pub evil_e: Evil,
    pub evil_m: Evil,
}

pub fn same<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:x?}, should be {want:x?}")) }
}

// ---- events ----

#[derive(Clone)]
pub enum ENode { Leaf(be::LeafProof<F, C, D>), Branch(be::BranchProof<F, C, D>) }
impl ENode {
    pub fn says(&self) -> (H, H, V4) {
        match self {
            ENode::Leaf(p) => (p.hash(), p.vm_hash(), p.event_owner()),
            ENode::Branch(p) => (p.hash(), p.vm_hash(), p.event_owner()),
        }
    }
    fn proof(&self) -> &Proof { match self { ENode::Leaf(p) => &p.proof, ENode::Branch(p) => &p.proof } }
    fn is_leaf(&self) -> bool { matches!(self, ENode::Leaf(_)) }
}
pub fn ebranch(c: &Circuits, l: &ENode, r: Option<&ENode>) -> anyhow::Result<be::BranchProof<F, C, D>> {
    match (l, r) {
        (ENode::Leaf(l), None) => c.eb.prove_one(l),
        (ENode::Branch(l), None) => c.eb.prove_one(l),
        (ENode::Leaf(l), Some(ENode::Leaf(r))) => c.eb.prove(l, r),
        (ENode::Leaf(l), Some(ENode::Branch(r))) => c.eb.prove(l, r),
        (ENode::Branch(l), Some(ENode::Leaf(r))) => c.eb.prove(l, r),
        (ENode::Branch(l), Some(ENode::Branch(r))) => c.eb.prove(l, r),
    }
}
pub fn hashes(owner: V4, ty: F, addr: F, value: V4) -> (H, H) {
    let mut v = owner.to_vec();
    v.extend([ty, addr]);
    v.extend(value);
    let bytes: Vec<F> = v[4..].iter().flat_map(|e| u(*e).to_le_bytes()).map(|b| f(u64::from(b))).collect();
    (hash(&v), hash(&bytes))
}
fn judge_eleaf(c: &Circuits, p: &be::LeafProof<F, C, D>) -> Result<(), String> {
    let t = &c.el.targets;
    let owner = p.event_owner();
    let (h, v) = hashes(owner, val(t.event_ty), val(t.event_address), vals(t.event_value));
    same("hash", p.hash(), h)?;
    same("vm hash", p.vm_hash(), v)
}
fn judge_ebranch(c: &Circuits, l: &ENode, r: Option<&ENode>, p: &be::BranchProof<F, C, D>) -> Result<(), String> {
    c.eb.verify(p.clone()).map_err(|e| format!("does not verify: {e}"))?;
    let got = (p.hash(), p.vm_hash(), p.event_owner());
    let one = l.says();
    if got == one { return Ok(()); } // partial, whatever else is there
    let two_ = r.unwrap_or(l).says(); // a lone child is given twice
    same("owners", one.2, two_.2)?;
    same("branch", got, (two(one.0, two_.0), two_bytes(one.1, two_.1), one.2))
}

/// Values some of which have two representations as 64-bit integers.
fn small_f(r: &mut Rng) -> F { f(match r.below(5) { 0 => r.below(1 << 32), 1 => (1 << 32) - 1 - r.below(3), 2 => P - 1 - r.below(3), _ => return rnd_f(r) }) }

fn events(mon: &Mon, c: &Circuits, r: &mut Rng) {
    let n = match r.below(6) { 0 => 1, 1 | 2 => 2, 3 => 3, 4 => 4, _ => r.range(5, 10) } as usize;
    let owner = rnd4(r);
    let evs: Vec<Event<F>> = (0..n)
        .map(|_| Event {
            owner: if r.chance(1, 15) { let mut o = owner; o[r.idx(4)] += f(1); o } else { owner },
            ty: *r.pick(&TYPES),
            address: u(small_f(r)),
            value: if r.chance(1, 3) { [small_f(r), small_f(r), small_f(r), small_f(r)] } else { rnd4(r) },
        })
        .collect();
    let desc = format!("{evs:x?}");
    mon.eval();
    mon.nontrivial(hash_dbg(&desc));
    let check = |name: &str, res: Result<(), String>| if let Err(e) = res { mon.violation(name, format!("{desc}\n{e}")); };

    let mut nodes: Vec<(ENode, (H, H, V4))> = vec![];
    for e in &evs {
        let (h, v) = hashes(e.owner, f(e.ty as u64), f(e.address), e.value);
        check("native", same("hash", (e.hash(), e.byte_wise_hash()), (h, v)));
        let prove = || c.el.prove(&c.eb, *e);
        let p = match kept(prove) { Ok(p) => p, Err(err) => { mon.violation("leaf-refused", format!("{e:x?}: {err}")); return; } };
        check("leaf", judge_eleaf(c, &p).and_then(|()| same("leaf", (p.hash(), p.vm_hash(), p.event_owner()), (h, v, e.owner))).and_then(|()| c.el.verify(p.clone()).map_err(|e| e.to_string())));
        if r.chance(1, 6) { attack(mon, r, "event-leaf", 8, &c.el.circuit, &prove, &|p| judge_eleaf(c, p)); }
        if r.chance(1, 4) {
            // a prover whose hints are other representations
            verif::wild_splits(true);
            let p = kept(prove);
            verif::wild_splits(false);
            mon.eval();
            mon.count("other representations tried", 1);
            if let Ok(p) = p { check("leaf-representation", judge_eleaf(c, &p)); }
        }
        if r.chance(1, 4) {
            let (mut ch, mut cv) = (h, v);
            match r.below(4) { 0 => ch.elements[r.idx(4)] += f(1), 1 => cv.elements[r.idx(4)] += f(1), 2 => std::mem::swap(&mut ch, &mut cv), _ => {} }
            mon.eval();
            match (proven(|| c.el.prove_unsafe(&c.eb, *e, Some(ch), Some(cv))), (ch, cv) == (h, v)) {
                (Ok(_), true) => {}
                (Err(_), false) => mon.count("claims refused", 1),
                (p, _) => mon.violation("leaf-claim", format!("{e:x?} as {ch:x?}, {cv:x?}: {:?}", p.err())),
            }
        }
        nodes.push((ENode::Leaf(p), (h, v, e.owner)));
    }
    mon.count("events", n as u64);
    if r.chance(1, 10) { foreign_events(mon, c, r, &nodes[0].0); }

    // in order, but in any shape
    while nodes.len() > 1 || r.chance(1, 4) {
        let i = r.idx(nodes.len());
        let single = i + 1 == nodes.len() || r.chance(1, 8);
        let l = nodes[i].clone();
        let rr = (!single).then(|| nodes[i + 1].clone());
        let want = match &rr {
            None => Some(l.1),
            Some(b) => (l.1 .2 == b.1 .2).then(|| (two(l.1 .0, b.1 .0), two_bytes(l.1 .1, b.1 .1), l.1 .2)),
        };
        let prove = || ebranch(c, &l.0, rr.as_ref().map(|x| &x.0));
        let judge = |p: &be::BranchProof<F, C, D>| judge_ebranch(c, &l.0, rr.as_ref().map(|x| &x.0), p);
        match (proven(prove), want) {
            (Ok(p), Some(w)) => {
                check("branch", judge(&p).and_then(|()| same("branch", (p.hash(), p.vm_hash(), p.event_owner()), w)));
                mon.count(if single { "partial branches" } else { "branches" }, 1);
                if r.chance(1, 6) { attack(mon, r, "event-branch", 8, &c.eb.circuit, &prove, &judge); }
                if r.chance(1, 4) {
                    verif::wild_splits(true);
                    let p = proven(prove);
                    verif::wild_splits(false);
                    if let Ok(p) = p { check("branch-representation", judge(&p)); }
                }
                if r.chance(1, 4) {
                    let (mut h, mut v, mut o, mut leaf) = (w.0, w.1, w.2, l.0.is_leaf());
                    match r.below(5) { 0 => h.elements[r.idx(4)] += f(1), 1 => v.elements[r.idx(4)] += f(1), 2 => o[r.idx(4)] += f(1), 3 => leaf = !leaf, _ => {} }
                    let other = rr.as_ref().map_or(&l.0, |x| &x.0);
                    mon.eval();
                    let q = proven(|| c.eb.prove_unsafe(single, h, v, Some(o), leaf, l.0.proof(), other.is_leaf(), other.proof()));
                    match (q, (h, v, o) == w && leaf == l.0.is_leaf()) {
                        (Ok(p), true) => check("branch-unsafe", judge(&p)),
                        (Err(_), false) => mon.count("claims refused", 1),
                        (p, _) => mon.violation("branch-claim", format!("{desc}\nclaims {h:x?} {v:x?} {o:x?} leaf {leaf}: {:?}", p.err())),
                    }
                }
                if r.chance(1, 12) { foreign_events(mon, c, r, &ENode::Branch(p.clone())); }
                nodes[i] = (ENode::Branch(p), w);
                if !single { nodes.remove(i + 1); }
            }
            (Err(_), None) => {
                mon.count("owners differ", 1);
                attack(mon, r, "event-branch-owners", 6, &c.eb.circuit, &prove, &judge);
                return;
            }
            (p, w) => { mon.violation("branch-verdict", format!("{desc}\n{:?}, should be {w:x?}", p.err())); return; }
        }
    }
    mon.count("event trees", 1);
}

fn foreign_events(mon: &Mon, c: &Circuits, r: &mut Rng, n: &ENode) {
    mon.eval();
    mon.count("foreign proofs tried", 1);
    let i = &c.eb.hash.indices;
    let mut pis = n.proof().public_inputs.clone();
    i.unpruned_hash.set_field(&mut pis, rnd_h(r));
    let named = r.chance(1, 2);
    if named { pis = c.evil_e.named(&c.eb.unbounded.indices.verifier, &pis); }
    let at = if named { "that names itself" } else { "that names the real one" };
    let fake = c.evil_e.prove(&pis);
    let ENode::Branch(b) = n else {
        // another leaf circuit beside the real one
        for leaf in [true, false] {
            let q = proven(|| c.eb.prove_unsafe(true, i.unpruned_hash.get_field(&pis), c.eb.vm_hash.indices.unpruned_hash.get_field(&pis), None, leaf, &fake, true, n.proof()));
            if let Ok(q) = q { if c.eb.verify(q).is_ok() { mon.violation("foreign/event-leaf", format!("foreign circuit {at} as leaf {leaf}")); } }
        }
        return;
    };
    let fake = be::BranchProof { proof: fake, tag: PhantomData, indices: b.indices.clone() };
    if proven(|| c.eb.verify(fake.clone())).is_ok() { mon.violation("foreign/event-verify", format!("foreign circuit {at}")); }
    for q in [proven(|| c.eb.prove_one(&fake)), proven(|| c.eb.prove(&fake, &fake)), proven(|| c.eb.prove(b, &fake)), proven(|| c.eb.prove(&fake, b))].into_iter().flatten() {
        mon.count("branches over foreign proofs", 1);
        if c.eb.verify(q.clone()).is_ok() { mon.violation("foreign/event", format!("a branch over a proof of a foreign circuit {at} verifies")); }
        if let Ok(q) = proven(|| c.eb.prove(&q, b)) { if c.eb.verify(q).is_ok() { mon.violation("foreign/event-deep", format!("foreign circuit {at}")); } }
    }
}

// ---- merging ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct M { pub a: Option<H>, pub b: Option<H>, pub m: Option<H> }
pub fn fwd(l: Option<H>, r: Option<H>) -> Option<H> { match (l, r) { (Some(x), Some(y)) => Some(two(x, y)), (x, y) => x.or(y) } }
impl M {
    fn leaf(a: Option<H>, b: Option<H>) -> M { M { a, b, m: fwd(a, b) } }
    fn join(self, o: M) -> M { M { a: fwd(self.a, o.a), b: fwd(self.b, o.b), m: fwd(self.m, o.m) } }
    pub fn of<X>(p: &mg::Proof<X, F, C, D>) -> Result<M, String> {
        let i = &p.indices.merge;
        let pi = &p.proof.public_inputs;
        let get = |present: mozak_recproofs::indices::BoolTargetIndex, h: H, what: &str| {
            let v: F = present.0.get_field(pi);
            match u(v) {
                0 if h == H::ZERO => Ok(None),
                0 => Err(format!("absent {what} is {h:x?}")),
                1 => Ok(Some(h)),
                v => Err(format!("{what} present: {v}")),
            }
        };
        let m = M { a: get(i.a_present, p.a_hash(), "a")?, b: get(i.b_present, p.b_hash(), "b")?, m: get(i.merged_present, p.merged_hash(), "merged")? };
        same("accessors", (p.a_present(), p.b_present(), p.merged_present()), (m.a.is_some(), m.b.is_some(), m.m.is_some()))?;
        Ok(m)
    }
}
#[derive(Clone)]
pub enum MNode { Leaf(mg::LeafProof<F, C, D>), Branch(mg::BranchProof<F, C, D>) }
impl MNode { fn says(&self) -> Result<M, String> { match self { MNode::Leaf(p) => M::of(p), MNode::Branch(p) => M::of(p) } } }
pub fn mbranch(c: &Circuits, l: &MNode, r: &MNode) -> anyhow::Result<mg::BranchProof<F, C, D>> {
    match (l, r) {
        (MNode::Leaf(l), MNode::Leaf(r)) => c.mb.prove(l, r),
        (MNode::Leaf(l), MNode::Branch(r)) => c.mb.prove(l, r),
        (MNode::Branch(l), MNode::Leaf(r)) => c.mb.prove(l, r),
        (MNode::Branch(l), MNode::Branch(r)) => c.mb.prove(l, r),
    }
}
fn judge_mleaf(p: &mg::LeafProof<F, C, D>) -> Result<(), String> {
    let m = M::of(p)?;
    same("merge", m, M::leaf(m.a, m.b))
}
fn judge_mbranch(c: &Circuits, l: &MNode, r: &MNode, p: &mg::BranchProof<F, C, D>) -> Result<(), String> {
    c.mb.verify(p.clone()).map_err(|e| format!("does not verify: {e}"))?;
    same("merge", M::of(p)?, l.says()?.join(r.says()?))
}

fn merge(mon: &Mon, c: &Circuits, r: &mut Rng) {
    let n = match r.below(6) { 0 => 1, 1 | 2 => 2, 3 => 4, 4 => 8, _ => r.range(3, 12) } as usize;
    let (da, db) = (r.below(4), r.below(4));
    let h = |r: &mut Rng| if r.chance(1, 12) { H::ZERO } else { rnd_h(r) };
    let parts: Vec<(Option<H>, Option<H>)> = (0..n).map(|_| ((r.below(4) <= da).then(|| h(r)), (r.below(4) <= db).then(|| h(r)))).collect();
    let desc = format!("{parts:x?}");
    mon.eval();
    mon.nontrivial(hash_dbg(&desc));
    let check = |name: &str, res: Result<(), String>| if let Err(e) = res { mon.violation(name, format!("{desc}\n{e}")); };
    let mut nodes = vec![];
    for (a, b) in parts.iter().copied() {
        let prove = || c.ml.prove(&c.mb, a, b);
        let p = match proven(prove) { Ok(p) => p, Err(e) => { mon.violation("merge-leaf-refused", format!("{a:x?} {b:x?}: {e}")); return; } };
        check("merge-leaf", same("merge", M::of(&p), Ok(M::leaf(a, b))).and_then(|()| c.ml.verify(p.clone()).map_err(|e| e.to_string())));
        if r.chance(1, 6) { attack(mon, r, "merge-leaf", 8, &c.ml.circuit, &prove, &judge_mleaf); }
        if r.chance(1, 6) {
            let want = M::leaf(a, b).m;
            let m = match r.below(4) { 0 => None, 1 => Some(H::ZERO), 2 => Some(rnd_h(r)), _ => want };
            mon.eval();
            match (proven(|| c.ml.prove_unsafe(&c.mb, a, b, m)), m == want) {
                (Ok(p), true) => check("merge-leaf-unsafe", judge_mleaf(&p)),
                (Err(_), false) => mon.count("claims refused", 1),
                (p, _) => mon.violation("merge-leaf-claim", format!("{a:x?} {b:x?} as {m:x?}: {:?}", p.err())),
            }
        }
        nodes.push(MNode::Leaf(p));
    }
    mon.count("merged leaves", n as u64);
    // the address tree, or any shape
    let tree = n.is_power_of_two() && r.chance(1, 2);
    let mut step = |l: &MNode, rr: &MNode, r: &mut Rng| -> Option<MNode> {
        let want = l.says().unwrap().join(rr.says().unwrap());
        let prove = || mbranch(c, l, rr);
        match proven(prove) {
            Ok(p) => {
                check("merge-branch", judge_mbranch(c, l, rr, &p).and_then(|()| same("merge", M::of(&p)?, want)));
                mon.count("merge branches", 1);
                if r.chance(1, 6) { attack(mon, r, "merge-branch", 8, &c.mb.circuit, &prove, &|p| judge_mbranch(c, l, rr, p)); }
                if r.chance(1, 12) { foreign_merge(mon, c, r, &p); }
                Some(MNode::Branch(p))
            }
            Err(e) => { mon.violation("merge-branch-refused", format!("{desc}\n{e}")); None }
        }
    };
    if tree {
        while nodes.len() > 1 {
            let mut up = vec![];
            for p in nodes.chunks(2) { let Some(x) = step(&p[0], &p[1], r) else { return }; up.push(x); }
            nodes = up;
        }
        let levels = n.trailing_zeros();
        let part = |g: &dyn Fn(&(Option<H>, Option<H>)) -> Option<H>| { let m: BTreeMap<u64, H> = parts.iter().enumerate().filter_map(|(i, p)| g(p).map(|h| (i as u64, h))).collect(); present_root(levels, &m) };
        let want = M { a: part(&|p| p.0), b: part(&|p| p.1), m: part(&|p| fwd(p.0, p.1)) };
        check("merge-tree", same("roots", nodes[0].says(), Ok(want)));
        mon.count("merge trees", 1);
    } else {
        while nodes.len() > 1 {
            let i = r.idx(nodes.len() - 1);
            let rr = nodes.remove(i + 1);
            let Some(x) = step(&nodes[i], &rr, r) else { return };
            nodes[i] = x;
        }
    }
}

fn foreign_merge(mon: &Mon, c: &Circuits, r: &mut Rng, b: &mg::BranchProof<F, C, D>) {
    mon.eval();
    mon.count("foreign proofs tried", 1);
    let mut pis = b.proof.public_inputs.clone();
    let i = &b.indices.merge;
    i.merged_present.set_field(&mut pis, true);
    i.merged_hash.set_field(&mut pis, rnd_h(r));
    let named = r.chance(1, 2);
    if named { pis = c.evil_m.named(&b.indices.unbounded.verifier, &pis); }
    let at = if named { "that names itself" } else { "that names the real one" };
    let fake = mg::BranchProof { proof: c.evil_m.prove(&pis), tag: PhantomData, indices: b.indices.clone() };
    if proven(|| c.mb.verify(fake.clone())).is_ok() { mon.violation("foreign/merge-verify", format!("foreign circuit {at}")); }
    let fake_leaf = mg::LeafProof { proof: fake.proof.clone(), tag: PhantomData, indices: fake.indices.clone() };
    for q in [proven(|| c.mb.prove(&fake, &fake)), proven(|| c.mb.prove(b, &fake)), proven(|| c.mb.prove(&fake, b)), proven(|| c.mb.prove(&fake_leaf, b))].into_iter().flatten() {
        mon.count("branches over foreign proofs", 1);
        if c.mb.verify(q.clone()).is_ok() { mon.violation("foreign/merge", format!("a merge over a proof of a foreign circuit {at} verifies")); }
        if let Ok(q) = proven(|| c.mb.prove(&q, b)) { if c.mb.verify(q).is_ok() { mon.violation("foreign/merge-deep", format!("foreign circuit {at}")); } }
    }
}

impl Circuits {
    pub fn new() -> Circuits {
        let el = be::LeafCircuit::new(&CONFIG);
        let eb = be::BranchCircuit::new(&CONFIG, &el);
        let ml = mg::LeafCircuit::new(&CONFIG);
        let mb = mg::BranchCircuit::new(&CONFIG, &ml);
        Circuits { evil_e: Evil::new(&eb.circuit.common), evil_m: Evil::new(&mb.circuit.common), el, eb, ml, mb }
    }
}

pub fn run() -> ! {
    let mon = Arc::new(Mon::new("C31"));
    mon.assume("the stand-in proof system: a proof exists exactly if the circuit's conditions hold for its witness");
    let c = Circuits::new();
    let n = mon.n(6000, 300_000);
    let w = cores();
    parallel(w, |t| {
        for i in (0..n).filter(|i| i % w == t) {
            if !mon.within(400, 3600) { return; }
            let mut r = mon.rng(10 + i);
            if i % 2 == 0 { events(&mon, &c, &mut r) } else { merge(&mon, &c, &mut r) }
        }
    });
    mon.sample(json!({"trees": n}));
    mon.finish("random event lists built to trees of any shape, and random pairs of trees merged, every proof compared with native hashes of the events' fields and their little-endian bytes; wrong claims, changed witnesses, other representations of the bytes, and proofs of foreign circuits must be refused")
}

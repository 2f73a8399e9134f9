//! C34: program, transaction and block proofs chain without gaps.
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::Arc;

use mozak_recproofs::circuits::accumulate_delta as acc;
use mozak_recproofs::circuits::match_delta as md;
use mozak_recproofs::circuits::merge as mg;
use mozak_recproofs::circuits::state_update as su;
use mozak_recproofs::circuits::verify_block as vb;
use mozak_recproofs::circuits::verify_program as vp;
use mozak_recproofs::circuits::verify_tx as vt;
use mozak_recproofs::test_utils::CONFIG;
use mozak_recproofs::Event;
use monlib::{cores, hash_dbg, json, parallel, Mon, Rng};
use plonky2::plonk::circuit_data::verif;

use crate::adv::*;
use crate::c31::{self, ebranch, fwd, mbranch, same, ENode, MNode, M};
use crate::c32::{self, Change, Z};
use crate::native::*;
use crate::prog::Program;

type V4 = [F; 4];
type VBranch = vp::BranchProof<F, C, D>;
type TBranch = vt::BranchProof<F, C, D>;
type MdBranch = md::BranchProof<F, C, D>;
type SuBranch = su::BranchProof<F, C, D>;

const LEVELS: u32 = 2;
const SLOTS: usize = 1 << LEVELS;

struct Circuits {
    c: c31::Circuits,
    programs: Vec<Program>,
    evil_p: Evil,
    vl: vp::LeafCircuit<F, C, D>,
    vb: vp::BranchCircuit<F, C, D>,
    evil_v: Evil,
    tl: vt::LeafCircuit<F, C, D>,
    tb: vt::BranchCircuit<F, C, D>,
    evil_t: Evil,
    al: acc::LeafCircuit<F, C, D>,
    ab: acc::BranchCircuit<F, C, D>,
    ml: md::LeafCircuit<F, C, D>,
    mb: md::BranchCircuit<F, C, D>,
    evil_d: Evil,
    sl: su::LeafCircuit<F, C, D>,
    s1: su::BranchCircuit<F, C, D>,
    s2: su::BranchCircuit<F, C, D>,
    evil_s: Evil,
    block: vb::Circuit<F, C, D>,
    evil_b: Evil,
}

// ---- events and their trees ----

#[derive(Clone, Copy, Debug)]
struct Ev { owner: V4, ty: u64, addr: u64, value: V4 }
#[derive(Clone, Debug)]
enum Acc { Leaf(Ev), Two(Box<Acc>, Box<Acc>) }
impl Acc {
    fn hash(&self) -> H {
        match self {
            Acc::Leaf(e) => c31::hashes(e.owner, f(e.ty), f(e.addr), e.value).0,
            Acc::Two(l, r) => two(l.hash(), r.hash()),
        }
    }
    fn vm(&self) -> H {
        match self {
            Acc::Leaf(e) => c31::hashes(e.owner, f(e.ty), f(e.addr), e.value).1,
            Acc::Two(l, r) => two_bytes(l.vm(), r.vm()),
        }
    }
    fn two(l: Acc, r: Acc) -> Acc { Acc::Two(Box::new(l), Box::new(r)) }
    /// A tree of any shape.
    fn any(r: &mut Rng, mut xs: Vec<Acc>) -> Option<Acc> {
        while xs.len() > 1 {
            let i = r.idx(xs.len() - 1);
            let b = xs.remove(i + 1);
            let a = xs[i].clone();
            xs[i] = Acc::two(a, b);
        }
        xs.pop()
    }
    fn events(&self, c: &Circuits) -> anyhow::Result<ENode> {
        Ok(match self {
            Acc::Leaf(e) => ENode::Leaf(c.c.el.prove(&c.c.eb, Event { owner: e.owner, ty: c32::ty(e.ty), address: e.addr, value: e.value })?),
            Acc::Two(l, r) => ENode::Branch(ebranch(&c.c, &l.events(c)?, Some(&r.events(c)?))?),
        })
    }
    fn delta(&self, c: &Circuits) -> anyhow::Result<Result<acc::LeafProof<F, C, D>, acc::BranchProof<F, C, D>>> {
        Ok(match self {
            Acc::Leaf(e) => Ok(c.al.prove(&c.ab, e.addr, e.owner, c32::ty(e.ty), e.value)?),
            Acc::Two(l, r) => Err(match (l.delta(c)?, r.delta(c)?) {
                (Ok(l), Ok(r)) => c.ab.prove(&l, &r)?,
                (Ok(l), Err(r)) => c.ab.prove(&l, &r)?,
                (Err(l), Ok(r)) => c.ab.prove(&l, &r)?,
                (Err(l), Err(r)) => c.ab.prove(&l, &r)?,
            }),
        })
    }
}

/// The events of a program, a transaction or a block, by address.
#[derive(Clone, Debug, Default)]
struct Part { by: [Option<Acc>; SLOTS] }
impl Part {
    fn hashes(&self) -> BTreeMap<u64, H> { (0..SLOTS).filter_map(|i| Some((i as u64, self.by[i].as_ref()?.hash()))).collect() }
    fn root(&self) -> Option<H> { present_root(LEVELS, &self.hashes()) }
    /// As one tree.
    fn whole(&self) -> Option<Acc> {
        let join = |a: Option<Acc>, b: Option<Acc>| match (a, b) { (Some(a), Some(b)) => Some(Acc::two(a, b)), (a, b) => a.or(b) };
        let b = self.by.clone();
        let [w, x, y, z] = b;
        join(join(w, x), join(y, z))
    }
    fn merged(&self, o: &Part) -> Part {
        let mut m = Part::default();
        for i in 0..SLOTS {
            m.by[i] = match (&self.by[i], &o.by[i]) { (Some(a), Some(b)) => Some(Acc::two(a.clone(), b.clone())), (a, b) => a.clone().or(b.clone()) };
        }
        m
    }
    fn merge(&self, c: &Circuits, o: &Part) -> anyhow::Result<mg::BranchProof<F, C, D>> {
        let leaf = |i: usize| c.c.ml.prove(&c.c.mb, self.by[i].as_ref().map(Acc::hash), o.by[i].as_ref().map(Acc::hash)).map(MNode::Leaf);
        let l = MNode::Branch(mbranch(&c.c, &leaf(0)?, &leaf(1)?)?);
        let r = MNode::Branch(mbranch(&c.c, &leaf(2)?, &leaf(3)?)?);
        mbranch(&c.c, &l, &r)
    }
}

// ---- rules ----

/// What a program proof says.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct PSays { id: H, events: Option<H>, call: V4, cast: V4 }
fn present(flag: F, h: H) -> Result<Option<H>, String> {
    match u(flag) { 0 if h == H::ZERO => Ok(None), 1 => Ok(Some(h)), v => Err(format!("presence {v} of {h:x?}")) }
}
fn psays<X>(p: &vp::Proof<X, F, C, D>) -> Result<PSays, String> {
    let flag: F = p.indices.events.hash_present.0.get_field(&p.proof.public_inputs);
    Ok(PSays { id: p.program_id(), events: present(flag, p.events())?, call: p.call_list(), cast: p.cast_root() })
}
#[derive(Clone)]
enum VNode { Leaf(vp::LeafProof<F, C, D>), Branch(VBranch) }
impl VNode {
    fn says(&self) -> Result<PSays, String> { match self { VNode::Leaf(p) => psays(p), VNode::Branch(p) => psays(p) } }
}
fn vbranch(c: &Circuits, m: &mg::BranchProof<F, C, D>, l: &VNode, r: Option<&VNode>) -> anyhow::Result<VBranch> {
    match (l, r) {
        (VNode::Leaf(l), None) => c.vb.prove_one(m, l),
        (VNode::Branch(l), None) => c.vb.prove_one(m, l),
        (VNode::Leaf(l), Some(VNode::Leaf(r))) => c.vb.prove(m, l, r),
        (VNode::Leaf(l), Some(VNode::Branch(r))) => c.vb.prove(m, l, r),
        (VNode::Branch(l), Some(VNode::Leaf(r))) => c.vb.prove(m, l, r),
        (VNode::Branch(l), Some(VNode::Branch(r))) => c.vb.prove(m, l, r),
    }
}
/// Two programs' proofs, or one where `r` is absent.
fn prule(m: M, l: PSays, r: Option<PSays>) -> Result<PSays, String> {
    same("merge left", m.a, l.events)?;
    same("merge right", m.b, r.and_then(|r| r.events))?;
    if let Some(r) = r { same("call lists", l.call, r.call)?; same("cast roots", l.cast, r.cast)?; }
    Ok(PSays { id: r.map_or(l.id, |r| two_bytes(l.id, r.id)), events: m.m, call: l.call, cast: l.cast })
}
fn judge_vbranch(c: &Circuits, m: &mg::BranchProof<F, C, D>, l: &VNode, r: Option<&VNode>, p: &VBranch) -> Result<(), String> {
    c.vb.verify(p.clone()).map_err(|e| format!("does not verify: {e}"))?;
    c.c.mb.verify(m.clone()).map_err(|e| format!("merge does not verify: {e}"))?;
    let (m, l, got) = (M::of(m)?, l.says()?, psays(p)?);
    let r = r.map_or(Ok(l), VNode::says)?; // a lone child is given twice
    if prule(m, l, None) == Ok(got) { return Ok(()); }
    same("program branch", Ok(got), prule(m, l, Some(r)))
}

fn tsays<X>(p: &vt::Proof<X, F, C, D>) -> Result<Option<H>, String> {
    let flag: F = p.indices.events.hash_present.0.get_field(&p.proof.public_inputs);
    present(flag, p.events())
}
fn judge_tleaf(p: &vt::LeafProof<F, C, D>, v: &VBranch) -> Result<(), String> {
    let s = psays(v)?;
    same("cast list", s.cast, s.id.elements)?;
    same("events", tsays(p)?, s.events)
}
#[derive(Clone)]
enum TNode { Leaf(vt::LeafProof<F, C, D>), Branch(TBranch) }
impl TNode { fn says(&self) -> Result<Option<H>, String> { match self { TNode::Leaf(p) => tsays(p), TNode::Branch(p) => tsays(p) } } }
fn tbranch(c: &Circuits, m: &mg::BranchProof<F, C, D>, l: &TNode, r: Option<&TNode>) -> anyhow::Result<TBranch> {
    match (l, r) {
        (TNode::Leaf(l), None) => c.tb.prove_one(m, l),
        (TNode::Branch(l), None) => c.tb.prove_one(m, l),
        (TNode::Leaf(l), Some(TNode::Leaf(r))) => c.tb.prove(m, l, r),
        (TNode::Leaf(l), Some(TNode::Branch(r))) => c.tb.prove(m, l, r),
        (TNode::Branch(l), Some(TNode::Leaf(r))) => c.tb.prove(m, l, r),
        (TNode::Branch(l), Some(TNode::Branch(r))) => c.tb.prove(m, l, r),
    }
}
fn trule(m: M, l: Option<H>, r: Option<Option<H>>) -> Result<Option<H>, String> {
    same("merge left", m.a, l)?;
    same("merge right", m.b, r.flatten())?;
    Ok(m.m)
}
fn judge_tbranch(c: &Circuits, m: &mg::BranchProof<F, C, D>, l: &TNode, r: Option<&TNode>, p: &TBranch) -> Result<(), String> {
    c.tb.verify(p.clone()).map_err(|e| format!("does not verify: {e}"))?;
    let (m, l, got) = (M::of(m)?, l.says()?, tsays(p)?);
    let r = r.map_or(Ok(l), TNode::says)?;
    if trule(m, l, None) == Ok(got) { return Ok(()); }
    same("transactions", Ok(got), trule(m, l, Some(r)))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct BSays { base: H, state: H, height: u64 }
fn bsays<X>(p: &vb::Proof<X, F, C, D>) -> BSays { BSays { base: p.base_state(), state: p.state(), height: p.block_height() } }
fn brule(tx: &TBranch, m: &MdBranch, s: &SuBranch, prev: BSays) -> Result<BSays, String> {
    same("events", tsays(tx)?.unwrap_or(H::ZERO), m.events())?;
    same("height", m.block_height(), prev.height + 1)?;
    same("state delta", m.state_hash(), s.summary())?;
    same("changes", s.summary_present(), true)?;
    same("root address", s.address(), 0)?;
    same("old state", s.old(), prev.state)?;
    Ok(BSays { base: prev.base, state: s.new(), height: prev.height + 1 })
}
type Prev = Result<vb::BlockProof<F, C, D>, vb::BaseProof<F, C, D>>;
fn prev_says(p: &Prev) -> BSays { match p { Ok(p) => bsays(p), Err(p) => bsays(p) } }
fn prove_block(c: &Circuits, tx: &TBranch, m: &MdBranch, s: &SuBranch, prev: &Prev) -> anyhow::Result<vb::BlockProof<F, C, D>> {
    match prev { Ok(p) => c.block.prove(tx, m, s, p), Err(p) => c.block.prove(tx, m, s, p) }
}
fn judge_block(c: &Circuits, tx: &TBranch, m: &MdBranch, s: &SuBranch, prev: &Prev, p: &vb::BlockProof<F, C, D>) -> Result<(), String> {
    if c.block.verify(p.clone()).is_err() { return Ok(()); } // of no use to anybody
    same("block", Ok(bsays(p)), brule(tx, m, s, prev_says(prev)))
}

// ---- workload ----

struct Run<'a> { mon: &'a Mon, c: &'a Circuits, desc: String }
impl Run<'_> {
    fn check(&self, name: &str, res: Result<(), String>) { if let Err(e) = res { self.mon.violation(name, format!("{}\n{e}", self.desc)); } }
    /// Proven exactly if it should be, and saying what it should.
    fn verdict<T, S: PartialEq + std::fmt::Debug + Clone>(&self, name: &str, got: Result<T, String>, want: &Result<S, String>, says: impl Fn(&T) -> Result<S, String>) -> Option<T> {
        self.mon.eval();
        match (got, want) {
            (Ok(p), Ok(w)) => { self.check(name, says(&p).and_then(|s| same("says", s, w.clone()))); self.mon.count(name, 1); Some(p) }
            (Err(_), Err(_)) => { self.mon.count(&format!("{name} refused"), 1); None }
            (p, w) => { self.mon.violation(&format!("{name}-verdict"), format!("{}\nproven {:?}, should be {w:x?}", self.desc, p.err())); None }
        }
    }

    /// A program's proof bound to its events, and attempts at others.
    fn program(&self, r: &mut Rng, prog: &Program, part: &Part, others: &[ENode], call: V4, cast: H) -> Option<VNode> {
        let c = self.c;
        let tree = part.whole();
        let node = match &tree { None => None, Some(t) => Some(t.events(c).expect("events")) };
        let events = match node { None => None, Some(n @ ENode::Leaf(_)) => Some(ebranch(&c.c, &n, None).expect("events")), Some(ENode::Branch(b)) => Some(b) };
        let vm = tree.as_ref().map(Acc::vm);
        let proof = prog.prove(vm, call, cast);
        let prove = || c.vl.prove(&c.vb, &prog.circuit.verifier_only, &proof, events.as_ref().ok_or(prog.id));
        let want = PSays { id: H { elements: prog.id }, events: part.root(), call, cast: cast.elements };
        let judge = |p: &vp::LeafProof<F, C, D>| { c.vl.verify(p.clone()).map_err(|e| e.to_string())?; same("program leaf", psays(p)?, want) };
        let leaf = match proven(prove) { Ok(p) => p, Err(e) => { self.mon.violation("program-refused", format!("{}\n{e}", self.desc)); return None; } };
        self.mon.eval();
        self.mon.count("program", 1);
        self.check("program", judge(&leaf));
        if r.chance(1, 6) { attack(self.mon, r, "program", 8, &c.vl.circuit, &prove, &judge); }
        if r.chance(1, 4) {
            // another program's events, other events, other presence
            let root = match r.below(3) { 0 => None, 1 => vm, _ => Some(rnd_h(r)) };
            let other = prog.prove(root, call, cast);
            let ev: Result<acc_root::P, V4> = match r.below(4) {
                0 => Err(prog.id),
                1 => Err(rnd4(r)),
                2 => events.clone().ok_or(prog.id),
                _ => match others.iter().find_map(|n| if let ENode::Branch(b) = n { Some(b.clone()) } else { None }) { Some(b) => Ok(b), None => Err(Z) },
            };
            let owner = ev.as_ref().map_or_else(|o| *o, |e| e.event_owner());
            let fits = owner == prog.id && root == ev.as_ref().ok().map(|e| e.vm_hash());
            let w = if fits { Ok(PSays { events: ev.as_ref().ok().map(|e| e.hash()), ..want }) } else { Err("mismatch".to_string()) };
            self.verdict("program and events", proven(|| c.vl.prove(&c.vb, &prog.circuit.verifier_only, &other, ev.as_ref().map_err(|o| *o))), &w, psays);
        }
        if r.chance(1, 10) {
            // claims
            let (mut id, mut ev, mut cl, mut ca) = (want.id, want.events.unwrap_or_default(), call, cast);
            match r.below(5) { 0 => id.elements[r.idx(4)] += f(1), 1 => ev.elements[r.idx(4)] += f(1), 2 => cl[r.idx(4)] += f(1), 3 => ca.elements[r.idx(4)] += f(1), _ => {} }
            if let Ok(p) = proven(|| c.vl.prove_unsafe(&c.vb, &prog.circuit.verifier_only, &proof, id, ev, cl, ca)) { self.check("program-claim", judge(&p)); }
        }
        if r.chance(1, 10) {
            // verifier data that does not fit the proof
            let o = r.pick(&c.programs);
            if o.id != prog.id {
                self.mon.eval();
                if proven(|| c.vl.prove(&c.vb, &o.circuit.verifier_only, &proof, events.as_ref().ok_or(prog.id))).is_ok() { self.mon.violation("program-verifier", self.desc.clone()); }
            }
            // events of another circuit
            if let Some(e) = &events {
                for named in [false, true] {
                    let mut pis = e.proof.public_inputs.clone();
                    if named { pis = c.c.evil_e.named(&e.indices.unbounded.verifier, &pis); }
                    let fake = mozak_recproofs::circuits::build_event_root::BranchProof { proof: c.c.evil_e.prove(&pis), tag: PhantomData, indices: e.indices.clone() };
                    self.mon.count("foreign proofs tried", 1);
                    let over = proven(|| c.c.eb.prove_one(&fake)).ok();
                    for x in [Some(fake), over].into_iter().flatten() {
                        if proven(|| c.vl.prove(&c.vb, &prog.circuit.verifier_only, &proof, Ok(&x))).is_ok() { self.mon.violation("foreign/events", self.desc.clone()); }
                    }
                }
            }
        }
        Some(VNode::Leaf(leaf))
    }

    /// The merge proofs around: the right one and some that are not.
    fn pool(&self, r: &mut Rng, a: &Part, b: &Part) -> Vec<mg::BranchProof<F, C, D>> {
        let none = Part::default();
        let mut v = vec![a.merge(self.c, b).expect("merge")];
        match r.below(4) {
            0 => v.push(b.merge(self.c, a).expect("merge")),
            1 => v.push(a.merge(self.c, &none).expect("merge")),
            2 => v.push(none.merge(self.c, b).expect("merge")),
            _ => v.push(a.merge(self.c, a).expect("merge")),
        }
        v
    }

    fn fake_merge(&self, m: &mg::BranchProof<F, C, D>, named: bool) -> mg::BranchProof<F, C, D> {
        let mut pis = m.proof.public_inputs.clone();
        if named { pis = self.c.c.evil_m.named(&m.indices.unbounded.verifier, &pis); }
        mg::BranchProof { proof: self.c.c.evil_m.prove(&pis), tag: PhantomData, indices: m.indices.clone() }
    }

    /// The programs of a transaction, proven together.
    fn programs(&self, r: &mut Rng, mut nodes: Vec<(VNode, Part)>) -> Option<(VBranch, Part)> {
        let c = self.c;
        loop {
            if let [(VNode::Branch(b), part)] = &nodes[..] { return Some((b.clone(), part.clone())); }
            let i = r.idx(nodes.len());
            let single = i + 1 == nodes.len();
            if single && nodes.len() > 1 && r.chance(3, 4) { continue; }
            let (l, pl) = nodes[i].clone();
            let rest = if single { None } else { Some(nodes[i + 1].clone()) };
            let (rr, pr) = match &rest { None => (None, Part::default()), Some((n, p)) => (Some(n), p.clone()) };
            let pool = self.pool(r, &pl, &pr);
            let m = &pool[0];
            let prove = || vbranch(c, m, &l, rr);
            let judge = |p: &VBranch| judge_vbranch(c, m, &l, rr, p);
            let want = prule(M::of(m).unwrap(), l.says().unwrap(), rr.map(|x| x.says().unwrap()));
            let p = self.verdict("program branch", proven(prove), &want, psays);
            if p.is_none() || r.chance(1, 6) { attack(self.mon, r, "program-branch", 6, &c.vb.circuit, &prove, &judge); }
            let p = p?;
            self.check("program-branch", judge(&p));
            let wrong = &pool[1];
            let w = prule(M::of(wrong).unwrap(), l.says().unwrap(), rr.map(|x| x.says().unwrap()));
            self.verdict("program branch, other merge", proven(|| vbranch(c, wrong, &l, rr)), &w, psays);
            if r.chance(1, 4) {
                verif::wild_splits(true);
                let p = proven(prove);
                verif::wild_splits(false);
                if let Ok(p) = p { self.check("program-branch-representation", judge(&p)); }
            }
            if r.chance(1, 8) {
                for named in [false, true] {
                    self.mon.count("foreign proofs tried", 1);
                    let fake = self.fake_merge(m, named);
                    if proven(|| vbranch(c, &fake, &l, rr)).is_ok() { self.mon.violation("foreign/program-merge", self.desc.clone()); }
                    if let Some(over) = self.over(&fake) { if proven(|| vbranch(c, &over, &l, rr)).is_ok_and(|p| M::of(&over).unwrap().m != M::of(m).unwrap().m || c.vb.verify(p).is_ok()) { self.mon.violation("foreign/program-merge-deep", self.desc.clone()); } }
                }
                self.foreign_v(r, &p);
            }
            nodes[i] = (VNode::Branch(p), pl.merged(&pr));
            if !single { nodes.remove(i + 1); }
        }
    }
    /// A real branch over a merge proof of a foreign circuit.
    fn over(&self, fake: &mg::BranchProof<F, C, D>) -> Option<mg::BranchProof<F, C, D>> {
        let none = self.c.c.ml.prove(&self.c.c.mb, None, None).ok()?;
        proven(|| self.c.c.mb.prove(fake, &none)).ok()
    }
    fn foreign_v(&self, r: &mut Rng, p: &VBranch) {
        let c = self.c;
        for named in [false, true] {
            self.mon.eval();
            self.mon.count("foreign proofs tried", 1);
            let mut pis = p.proof.public_inputs.clone();
            if named { pis = c.evil_v.named(&p.indices.unbounded.verifier, &pis); }
            let cast = if r.chance(1, 2) { p.program_id().elements } else { p.cast_root() };
            p.indices.cast_root.values.set_field(&mut pis, cast);
            let fake = VBranch { proof: c.evil_v.prove(&pis), tag: PhantomData, indices: p.indices.clone() };
            if proven(|| c.vb.verify(fake.clone())).is_ok() { self.mon.violation("foreign/program-verify", self.desc.clone()); }
            if proven(|| c.tl.prove(&c.tb, &fake)).is_ok() { self.mon.violation("foreign/program", self.desc.clone()); }
            let s = psays(&fake).unwrap();
            let part = Part::default();
            let m = c.c.ml.prove(&c.c.mb, s.events, None).and_then(|l| { let n = c.c.ml.prove(&c.c.mb, None, None)?; c.c.mb.prove(&l, &n) }).expect("merge");
            let _ = part;
            if let Ok(q) = proven(|| c.vb.prove_one(&m, &fake)) {
                self.mon.count("branches over foreign proofs", 1);
                if c.vb.verify(q.clone()).is_ok() { self.mon.violation("foreign/program-over", self.desc.clone()); }
                if proven(|| c.tl.prove(&c.tb, &q)).is_ok() { self.mon.violation("foreign/program-deep", self.desc.clone()); }
            }
        }
    }

    /// All transactions, proven together.
    fn transactions(&self, r: &mut Rng, mut nodes: Vec<(TNode, Part)>) -> Option<(TBranch, Part)> {
        let c = self.c;
        loop {
            if let [(TNode::Branch(b), part)] = &nodes[..] { return Some((b.clone(), part.clone())); }
            let i = r.idx(nodes.len());
            let single = i + 1 == nodes.len();
            if single && nodes.len() > 1 && r.chance(3, 4) { continue; }
            let (l, pl) = nodes[i].clone();
            let rest = if single { None } else { Some(nodes[i + 1].clone()) };
            let (rr, pr) = match &rest { None => (None, Part::default()), Some((n, p)) => (Some(n), p.clone()) };
            let pool = self.pool(r, &pl, &pr);
            let m = &pool[0];
            let prove = || tbranch(c, m, &l, rr);
            let judge = |p: &TBranch| judge_tbranch(c, m, &l, rr, p);
            let want = trule(M::of(m).unwrap(), l.says().unwrap(), rr.map(|x| x.says().unwrap()));
            let p = self.verdict("transaction branch", proven(prove), &want, tsays);
            if p.is_none() || r.chance(1, 6) { attack(self.mon, r, "transaction-branch", 6, &c.tb.circuit, &prove, &judge); }
            let p = p?;
            self.check("transaction-branch", judge(&p));
            let w = trule(M::of(&pool[1]).unwrap(), l.says().unwrap(), rr.map(|x| x.says().unwrap()));
            self.verdict("transaction branch, other merge", proven(|| tbranch(c, &pool[1], &l, rr)), &w, tsays);
            if r.chance(1, 8) {
                for named in [false, true] {
                    self.mon.count("foreign proofs tried", 1);
                    let fake = self.fake_merge(m, named);
                    if proven(|| tbranch(c, &fake, &l, rr)).is_ok() { self.mon.violation("foreign/transaction-merge", self.desc.clone()); }
                }
            }
            nodes[i] = (TNode::Branch(p), pl.merged(&pr));
            if !single { nodes.remove(i + 1); }
        }
    }
}
mod acc_root { pub type P = mozak_recproofs::circuits::build_event_root::BranchProof<crate::native::F, crate::native::C, { crate::native::D }>; }

/// Changes of objects at some addresses, and the events that make them.
fn changes(r: &mut Rng, c: &Circuits, state: &[Option<Obj>; SLOTS], height: u64) -> (Vec<Option<Change>>, Vec<Ev>) {
    let (mut chs, mut evs) = (vec![None; SLOTS], vec![]);
    let own = |r: &mut Rng| r.pick(&c.programs[1..]).id;
    for i in 0..SLOTS {
        if r.chance(1, 2) { continue; }
        let ev = |owner: V4, ty: u64, value: V4| Ev { owner, ty, addr: i as u64, value };
        let o = state[i].unwrap_or(Obj { constraint_owner: Z, last_updated: f(0), credits: f(0), data: Z });
        let mut ch = Change { height: f(height), last: o.last_updated, old_owner: o.constraint_owner, new_owner: o.constraint_owner, old_data: o.data, new_data: o.data, old_credits: o.credits, new_credits: o.credits };
        let gone = state[i].is_none();
        // an object is created, kept, or deleted: it does not pass from one owner to another
        if gone || r.chance(1, 6) {
            let to = if gone { own(r) } else { Z };
            if to != ch.old_owner {
                evs.push(ev(ch.old_owner, 3, to));
                evs.push(ev(to, 4, ch.old_owner));
                ch.new_owner = to;
            }
        }
        let dead = ch.new_owner == Z;
        if dead || r.chance(1, 2) {
            ch.new_data = if dead { Z } else { rnd4(r) };
            evs.push(ev(ch.old_owner, 0, ch.new_data));
        }
        if dead && u(o.credits) > 0 || !dead && r.chance(1, 3) {
            let take = if dead { u(o.credits) } else { r.below(1 << 20) };
            let neg = dead || (take <= u(o.credits) && r.chance(1, 2));
            ch.new_credits = if neg { o.credits - f(take) } else { o.credits + f(take) };
            evs.push(ev(ch.old_owner, 5, [f(take), f(0), f(0), f(u64::from(neg))]));
        }
        for _ in 0..r.below(3) {
            if gone || dead { break; }
            evs.push(if r.chance(1, 2) { ev(own(r), 2, ch.old_data) } else { ev(own(r), 1, ch.new_data) });
        }
        if evs.iter().any(|e| e.addr == i as u64) { chs[i] = Some(ch); }
    }
    r.shuffle(&mut evs);
    (chs, evs)
}

/// A state update of some places at some position in a taller tree.
fn update(c: &Circuits, old: &[H; SLOTS], new: &[H; SLOTS], touched: &[bool; SLOTS], base: u64) -> anyhow::Result<SuBranch> {
    let mut ls = vec![];
    for i in 0..SLOTS { ls.push(c.sl.prove(old[i], new[i], touched[i].then_some(base * SLOTS as u64 + i as u64))?); }
    c.s2.prove(&c.s1.prove(&ls[0], &ls[1])?, &c.s1.prove(&ls[2], &ls[3])?)
}

fn chain(mon: &Mon, c: &Circuits, r: &mut Rng) {
    let mut state: [Option<Obj>; SLOTS] = [None; SLOTS];
    // objects that were there before: the all-zero hash is the empty place
    for s in &mut state {
        if r.chance(1, 3) { *s = Some(Obj { constraint_owner: r.pick(&c.programs[1..]).id, last_updated: f(0), credits: f(r.below(1 << 20)), data: rnd4(r) }); }
    }
    // an absent object is hashed as one whose fields are all zero
    let empty = obj_hash(&Obj { constraint_owner: Z, last_updated: f(0), credits: f(0), data: Z });
    let hash_of = |o: &Option<Obj>| o.as_ref().map_or(empty, obj_hash);
    let roots = |s: &[Option<Obj>; SLOTS]| sparse_root(LEVELS, &s.iter().enumerate().map(|(i, o)| (i as u64, hash_of(o))).collect(), empty);
    let base = roots(&state);
    let b0 = c.block.prove_base(base).expect("base");
    mon.eval();
    let mut prev: Prev = Err(b0.clone());
    {
        let run = Run { mon, c, desc: format!("base {state:x?}") };
        run.check("base", same("base", bsays(&b0), BSays { base, state: base, height: 0 }).and_then(|()| c.block.verify_base(b0).map_err(|e| e.to_string())));
    }
    let mut prevs = vec![prev.clone()];
    let mut txs: Vec<TBranch> = vec![];
    let mut mds: Vec<MdBranch> = vec![];
    let mut sus: Vec<SuBranch> = vec![];
    let blocks = r.range(1, 4);
    for height in 1..=blocks {
        let (chs, evs) = changes(r, c, &state, height);
        let run = Run { mon, c, desc: format!("height {height}, state {state:x?}\n{chs:x?}\n{evs:x?}") };
        mon.nontrivial(hash_dbg(&(&chs, &evs)));
        // transactions
        let n = r.range(1, 4) as usize;
        let mut split: Vec<Vec<Ev>> = vec![vec![]; n];
        for e in evs { split[r.idx(n)].push(e); }
        let mut tnodes = vec![];
        let mut others: Vec<ENode> = vec![];
        for evs in split {
            let mut ids: Vec<usize> = (0..c.programs.len()).filter(|i| evs.iter().any(|e| e.owner == c.programs[*i].id)).collect();
            for i in 0..c.programs.len() { if !ids.contains(&i) && r.chance(1, 6) { ids.push(i); } }
            if ids.is_empty() { ids.push(r.idx(c.programs.len())); }
            r.shuffle(&mut ids);
            if r.chance(1, 10) { let i = *r.pick(&ids); ids.push(i); } // cast twice, once with the events
            let (call, mut seen) = (rnd4(r), vec![]);
            // the cast list is reduced in the shape the proofs will be
            let parts: Vec<(usize, Part)> = ids.iter().map(|i| {
                let mut part = Part::default();
                if !seen.contains(i) {
                    for a in 0..SLOTS {
                        let xs: Vec<Acc> = evs.iter().filter(|e| e.owner == c.programs[*i].id && e.addr == a as u64).map(|e| Acc::Leaf(*e)).collect();
                        part.by[a] = Acc::any(r, xs);
                    }
                }
                seen.push(*i);
                (*i, part)
            }).collect();
            // prove with the shape that a copy of the randomness gives
            let seed = r.u64();
            let shape = |xs: Vec<H>| {
                let mut q = Rng::new(seed);
                let mut xs = xs;
                loop {
                    if xs.len() == 1 { return xs[0]; }
                    let i = q.idx(xs.len());
                    let single = i + 1 == xs.len();
                    if single { continue; }
                    let b = xs.remove(i + 1);
                    xs[i] = two_bytes(xs[i], b);
                }
            };
            let cast = shape(ids.iter().map(|i| H { elements: c.programs[*i].id }).collect());
            // now and then a list that is not it
            let cast_said = match r.below(16) { 0 => rnd_h(r), 1 => shape(ids.iter().rev().map(|i| H { elements: c.programs[*i].id }).collect()), _ => cast };
            let mut vnodes = vec![];
            for (k, (i, part)) in parts.iter().enumerate() {
                let odd = k > 0 && r.chance(1, 40);
                let (cl, ca) = if odd && r.chance(1, 2) { (rnd4(r), cast_said) } else if odd { (call, rnd_h(r)) } else { (call, cast_said) };
                let Some(v) = run.program(r, &c.programs[*i], part, &others, cl, ca) else { return };
                vnodes.push((v, part.clone()));
            }
            if let Some(t) = parts[0].1.whole() { if let Ok(n @ ENode::Branch(_)) = t.events(c) { others.push(n); } }
            // reduce in that shape
            let mut q = Rng::new(seed);
            while vnodes.len() > 1 {
                let i = q.idx(vnodes.len());
                if i + 1 == vnodes.len() { continue; }
                let pair = vec![vnodes[i].clone(), vnodes.remove(i + 1)];
                let Some((v, part)) = run.programs(r, pair) else { return };
                vnodes[i] = (VNode::Branch(v), part);
            }
            let Some((v, part)) = run.programs(r, vnodes) else { return };
            // the transaction
            let s = psays(&v).unwrap();
            let want = same("cast list", s.cast, s.id.elements).map(|()| s.events);
            let prove = || c.tl.prove(&c.tb, &v);
            let judge = |p: &vt::LeafProof<F, C, D>| { c.tl.verify(p.clone()).map_err(|e| e.to_string())?; judge_tleaf(p, &v) };
            if (cast == cast_said) != want.is_ok() && s.cast == cast_said.elements { mon.violation("cast-list", format!("{}\ncast {cast:x?} said {cast_said:x?} ids {:x?}", run.desc, s.id)); }
            let t = run.verdict("transaction", proven(prove), &want, tsays);
            if t.is_none() || r.chance(1, 6) { attack(mon, r, "transaction", 6, &c.tl.circuit, &prove, &judge); }
            let Some(t) = t else { return };
            run.check("transaction", judge(&t).and_then(|()| same("events", s.events, part.root())));
            tnodes.push((TNode::Leaf(t), part));
        }
        let Some((tx, part)) = run.transactions(r, tnodes) else { return };
        txs.push(tx.clone());
        // matches, by address
        let mut heights = vec![height];
        if r.chance(1, 8) { heights.push(*r.pick(&[0, height + 1, P - 1])); }
        let mut made = None;
        for h in heights {
            let mut ms: BTreeMap<u64, Result<md::LeafProof<F, C, D>, MdBranch>> = BTreeMap::new();
            for a in 0..SLOTS {
                let Some(tree) = &part.by[a] else { continue };
                let d = match proven(|| tree.delta(c)) { Ok(d) => d, Err(e) => { mon.violation("delta-refused", format!("{}\naddress {a}: {e}", run.desc)); return; } };
                let d = match d { Ok(l) => c.ab.prove_one(&l).expect("delta"), Err(b) => b };
                let mut ch = chs[a].unwrap();
                ch.height = f(h);
                match proven(|| c.ml.prove(&c.mb, &d, ch.witness())) {
                    Ok(m) => { ms.insert(a as u64, Ok(m)); }
                    Err(e) => { if h == height { mon.violation("match-refused", format!("{}\naddress {a}: {e}", run.desc)); return; } }
                }
            }
            if ms.is_empty() { continue; }
            type X = Result<md::LeafProof<F, C, D>, MdBranch>;
            let join = |l: Option<X>, r: Option<X>| -> Option<X> {
                match (l, r) {
                    (Some(l), Some(r)) => Some(Err(match (&l, &r) {
                        (Ok(l), Ok(r)) => c.mb.prove(l, r),
                        (Ok(l), Err(r)) => c.mb.prove(l, r),
                        (Err(l), Ok(r)) => c.mb.prove(l, r),
                        (Err(l), Err(r)) => c.mb.prove(l, r),
                    }.expect("match branch"))),
                    (l, r) => l.or(r),
                }
            };
            let mut get = |a: u64| ms.remove(&a);
            let l = join(get(0), get(1));
            let rr = join(get(2), get(3));
            let m = match join(l, rr).unwrap() { Ok(l) => c.mb.prove_one(&l).expect("match root"), Err(b) => b };
            if h == height { made = Some(m.clone()); }
            mds.push(m);
        }
        // the state
        let mut next = state;
        for a in 0..SLOTS {
            let Some(ch) = chs[a] else { continue };
            let touched = ch.old_owner != ch.new_owner || ch.old_credits != ch.new_credits || part.by[a].as_ref().is_some_and(writes);
            next[a] = (ch.new_owner != Z).then_some(Obj { constraint_owner: ch.new_owner, last_updated: if touched { f(height) } else { ch.last }, credits: ch.new_credits, data: ch.new_data });
        }
        let hs = |s: &[Option<Obj>; SLOTS]| [hash_of(&s[0]), hash_of(&s[1]), hash_of(&s[2]), hash_of(&s[3])];
        let touched = [0, 1, 2, 3].map(|a| part.by[a].is_some());
        let Some(m) = made else { mon.count("blocks without events", 1); return };
        let s = match proven(|| update(c, &hs(&state), &hs(&next), &touched, 0)) { Ok(s) => s, Err(e) => { mon.violation("update-refused", format!("{}\n{e}", run.desc)); return; } };
        sus.push(s.clone());
        match r.below(5) {
            0 => if let Ok(s) = proven(|| update(c, &hs(&state), &hs(&next), &touched, 1 + r.below(7))) { sus.push(s); },
            1 => if let Ok(s) = proven(|| update(c, &hs(&next), &hs(&next), &[false; SLOTS], 0)) { sus.push(s); },
            2 => if let Ok(s) = proven(|| update(c, &hs(&state), &hs(&next), &[true; SLOTS], 0)) { sus.push(s); },
            3 => { let mut n = hs(&next); n[r.idx(4)] = rnd_h(r); if let Ok(s) = proven(|| update(c, &hs(&state), &n, &[true; SLOTS], 0)) { sus.push(s); } }
            _ => {}
        }
        // the block
        let want = BSays { base, state: roots(&next), height };
        run.check("block-rule", same("rule", brule(&tx, &m, &s, prev_says(&prev)), Ok(want)));
        let prove = || prove_block(c, &tx, &m, &s, &prev);
        let Some(b) = run.verdict("block", proven(prove), &Ok(want), |p| Ok(bsays(p))) else { return };
        run.check("block", c.block.verify(b.clone()).map_err(|e| e.to_string()));
        if r.chance(1, 3) { attack(mon, r, "block", 8, &c.block.circuit, &prove, &|p| judge_block(c, &tx, &m, &s, &prev, p)); }
        if r.chance(1, 4) { foreign_block(&run, r, &tx, &m, &s, &prev, &b); }
        prev = Ok(b);
        prevs.push(prev.clone());
        // anything with anything
        for _ in 0..3 {
            let (t, d, s, p) = (r.pick(&txs), r.pick(&mds), r.pick(&sus), r.pick(&prevs));
            let (t, d, s, p) = match r.below(5) { 0 => (&tx, &m, sus.last().unwrap(), p), 1 => (&tx, mds.last().unwrap(), s, p), 2 => (t, &m, s, &prevs[prevs.len() - 2]), 3 => (&tx, d, s, &prevs[prevs.len() - 2]), _ => (t, d, s, p) };
            let want = brule(t, d, s, prev_says(p));
            run.verdict("block of other parts", proven(|| prove_block(c, t, d, s, p)), &want, |p| Ok(bsays(p)));
        }
        state = next;
    }
    mon.count("chains", 1);
}
fn writes(a: &Acc) -> bool { match a { Acc::Leaf(e) => e.ty == 0, Acc::Two(l, r) => writes(l) || writes(r) } }

fn foreign_block(run: &Run, r: &mut Rng, tx: &TBranch, m: &MdBranch, s: &SuBranch, prev: &Prev, b: &vb::BlockProof<F, C, D>) {
    let c = run.c;
    let bad = |what: &str, res: Result<vb::BlockProof<F, C, D>, String>| {
        run.mon.eval();
        run.mon.count("foreign proofs tried", 1);
        // an own verifier named throughout is noticed by whoever verifies
        if let Ok(p) = res { if c.block.verify(p).is_ok() { run.mon.violation(&format!("foreign/{what}"), run.desc.clone()); } }
    };
    for named in [false, true] {
        let mut pis = tx.proof.public_inputs.clone();
        if named { pis = c.evil_t.named(&tx.indices.unbounded.verifier, &pis); }
        let t = TBranch { proof: c.evil_t.prove(&pis), tag: PhantomData, indices: tx.indices.clone() };
        bad("block-tx", proven(|| prove_block(c, &t, m, s, prev)));
        if proven(|| c.tb.verify(t.clone())).is_ok() { run.mon.violation("foreign/tx-verify", run.desc.clone()); }
        let over = c.c.ml.prove(&c.c.mb, tsays(&t).unwrap(), None).and_then(|l| { let n = c.c.ml.prove(&c.c.mb, None, None)?; c.c.mb.prove(&l, &n) }).expect("merge");
        if let Ok(q) = proven(|| c.tb.prove_one(&over, &t)) { bad("block-tx-deep", proven(|| prove_block(c, &q, m, s, prev))); }
        let mut pis = m.proof.public_inputs.clone();
        if named { pis = c.evil_d.named(&m.indices.unbounded.verifier, &pis); }
        let d = MdBranch { proof: c.evil_d.prove(&pis), tag: PhantomData, indices: m.indices.clone() };
        bad("block-match", proven(|| prove_block(c, tx, &d, s, prev)));
        if let Ok(q) = proven(|| c.mb.prove_one(&d)) { bad("block-match-deep", proven(|| prove_block(c, tx, &q, s, prev))); }
        let mut pis = prev_pis(prev);
        if named { pis = c.evil_b.named(&b.indices.block.verifier, &pis); }
        let p = vb::BlockProof { proof: c.evil_b.prove(&pis), tag: PhantomData, indices: b.indices.clone() };
        bad("block-prev", proven(|| prove_block(c, tx, m, s, &Ok(p.clone()))));
        if proven(|| c.block.verify(p)).is_ok() { run.mon.violation("foreign/block-verify", run.desc.clone()); }
    }
    let fake = SuBranch { proof: c.evil_s.prove(&s.proof.public_inputs), tag: PhantomData, indices: s.indices };
    bad("block-update", proven(|| prove_block(c, tx, m, &fake, prev)));
    // bases that are none
    let ps = prev_says(prev);
    for (base, state, height) in [(ps.base, ps.state, ps.height), (rnd_h(r), ps.state, 0), (ps.state, ps.state, ps.height), (rnd_h(r), ps.state, ps.height), (ps.state, rnd_h(r), 0)] {
        let Ok(p) = proven(|| c.block.block.prove_base_unsafe(&c.block.circuit.verifier_only, base, state, height)) else { continue };
        let honest = height == 0 && base == state;
        let p: Prev = Err(vb::BaseProof { proof: p, tag: PhantomData, indices: b.indices.clone() });
        let want = if honest { brule(tx, m, s, prev_says(&p)) } else { Err("no base".into()) };
        run.verdict("block on a made-up base", proven(|| prove_block(c, tx, m, s, &p)), &want, |p| Ok(bsays(p)));
    }
    // a base for another circuit
    if let Ok(p) = proven(|| c.block.block.prove_base(&c.evil_b.circuit.verifier_only, ps.state)) {
        bad("block-base", proven(|| prove_block(c, tx, m, s, &Err(vb::BaseProof { proof: p, tag: PhantomData, indices: b.indices.clone() }))));
    }
}
fn prev_pis(p: &Prev) -> Vec<F> { match p { Ok(p) => p.proof.public_inputs.clone(), Err(p) => p.proof.public_inputs.clone() } }

/// A circuit of the right shape that says it is some program.
fn foreign_program(mon: &Mon, c: &Circuits) {
    let mut r = mon.rng(5);
    for prog in &c.programs {
        mon.eval();
        let real = prog.prove(None, rnd4(&mut r), rnd_h(&mut r));
        let fake = c.evil_p.prove(&real.public_inputs);
        if proven(|| c.vl.prove(&c.vb, &prog.circuit.verifier_only, &fake, Err(prog.id))).is_ok() { mon.violation("foreign-proof-real-verifier", "a foreign circuit's proof verifies as the program's".to_string()); }
        if let Ok(p) = proven(|| c.vl.prove(&c.vb, &c.evil_p.circuit.verifier_only, &fake, Err(prog.id))) {
            if p.program_id().elements == prog.id { mon.violation("foreign-program-circuit", format!("a circuit that proves anything has a program proof for {:x?}", prog.id)); }
        }
    }
}

pub fn run() -> ! {
    let mon = Arc::new(Mon::new("C34"));
    mon.assume("the stand-in proof system: a proof exists exactly if the circuit's conditions hold for its witness");
    mon.assume("programs are circuits that constrain only their own id; blocks need at least one event");
    let base = c31::Circuits::new();
    let ids: [V4; 4] = [Z, [f(11), f(12), f(13), f(14)], [f(3), f(1 << 33), f(P - 1), f(0)], [f(u64::MAX >> 2), f(7), f(1), f((1 << 32) - 2)]];
    let programs: Vec<Program> = ids.iter().map(|i| Program::new(*i)).collect();
    let vl = vp::LeafCircuit::new(&CONFIG, &programs[0].indices(), &programs[0].circuit.common, &base.eb);
    let vbr = vp::BranchCircuit::new(&CONFIG, &base.mb, &vl);
    let tl = vt::LeafCircuit::new(&CONFIG, &vbr);
    let tb = vt::BranchCircuit::new(&CONFIG, &base.mb, &tl);
    let al = acc::LeafCircuit::new(&CONFIG);
    let ab = acc::BranchCircuit::new(&CONFIG, &al);
    let ml = md::LeafCircuit::new(&CONFIG, &ab);
    let mb = md::BranchCircuit::new(&CONFIG, &ml);
    let sl = su::LeafCircuit::new(&CONFIG);
    let s1 = su::BranchCircuit::from_leaf(&CONFIG, &sl);
    let s2 = su::BranchCircuit::from_branch(&CONFIG, &s1);
    let block = vb::Circuit::new(&CONFIG, &tb, &mb, &s2);
    let c = Circuits {
        evil_p: Evil::new(&programs[0].circuit.common),
        evil_v: Evil::new(&vbr.circuit.common),
        evil_t: Evil::new(&tb.circuit.common),
        evil_d: Evil::new(&mb.circuit.common),
        evil_s: Evil::new(&s2.circuit.common),
        evil_b: Evil::new(&block.circuit.common),
        c: base, programs, vl, vb: vbr, tl, tb, al, ab, ml, mb, sl, s1, s2, block,
    };
    foreign_program(&mon, &c);
    let n = mon.n(10_000, 400_000);
    let w = cores();
    parallel(w, |t| {
        for i in (0..n).filter(|i| i % w == t) {
            if !mon.within(400, 3600) { return; }
            let mut r = mon.rng(10 + i);
            chain(&mon, &c, &mut r);
        }
    });
    mon.sample(json!({"chains": n}));
    mon.finish("random chains of up to three blocks of up to three transactions of several programs over a tree of four objects, each step and many mixtures of its parts compared with native rules; changed witnesses, other representations, proofs of foreign circuits and made-up bases must not prove anything else")
}

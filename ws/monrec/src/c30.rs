//! C30: state updates bind old root, new root, address and summary.
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::Arc;

use mozak_recproofs::circuits::state_update as su;
use mozak_recproofs::test_utils::CONFIG;
use monlib::{cores, hash_dbg, json, parallel, Mon, Rng};
use plonky2::field::types::Field;
use plonky2::plonk::circuit_data::CircuitData;

use crate::adv::*;
use crate::native::*;

type Leaf = su::LeafProof<F, C, D>;
type Branch = su::BranchProof<F, C, D>;

const LEVELS: usize = 6;

struct Circuits {
    leaf: su::LeafCircuit<F, C, D>,
    branches: Vec<su::BranchCircuit<F, C, D>>,
    evil: Vec<Evil>,
}

/// What a proof says.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Says { old: H, new: H, addr: Option<F>, summary: Option<H> }

/// Either kind of proof, and what it really is a proof of.
#[derive(Clone)]
enum Node { Leaf(Leaf), Branch(Branch) }
impl Node {
    fn says(&self) -> Result<Says, String> { match self { Node::Leaf(p) => says(p), Node::Branch(p) => says(p) } }
    fn pis(&self) -> &[F] { match self { Node::Leaf(p) => &p.proof.public_inputs, Node::Branch(p) => &p.proof.public_inputs } }
}

fn says<T>(p: &su::Proof<T, F, C, D>) -> Result<Says, String> {
    let i = &p.indices;
    let pi = &p.proof.public_inputs;
    let flag = |v: F| match u(v) { 0 => Ok(false), 1 => Ok(true), v => Err(format!("presence {v}")) };
    let sp = flag(i.summarized.summary_hash_present.get_field_raw(pi))?;
    let ap = flag(i.address.node_present.get_field_raw(pi))?;
    let addr: F = i.address.node_address.get_field(pi);
    let summary = p.summary();
    if !sp && summary != H::ZERO { return Err(format!("absent summary {summary:?}")); }
    if !ap && addr != f(P - 1) { return Err(format!("absent address {addr}")); }
    if sp != ap { return Err(format!("summary present {sp} but address present {ap}")); }
    if sp != p.summary_present() || ap != p.address_present() || u(addr) != p.address() { return Err("accessors".into()); }
    Ok(Says { old: p.old(), new: p.new(), addr: ap.then_some(addr), summary: sp.then_some(summary) })
}
/// The raw value of a flag.
trait Raw { fn get_field_raw(&self, pi: &[F]) -> F; }
impl Raw for mozak_recproofs::indices::BoolTargetIndex {
    fn get_field_raw(&self, pi: &[F]) -> F { let t: F = self.0.get_field(pi); t }
}

fn same<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:x?}, should be {want:x?}")) }
}

fn judge_leaf(c: &Circuits, p: &Leaf) -> Result<(), String> {
    c.leaf.verify(p.clone()).map_err(|e| format!("does not verify: {e}"))?;
    let s = says(p)?;
    match s.addr {
        None => same("unsummarised change", s.new, s.old),
        Some(a) => {
            if a == f(P - 1) { return Err("present at no address".into()); }
            same("summary", s.summary, Some(summary(u(a), s.old, s.new)))
        }
    }
}

fn join(l: Says, r: Says) -> Result<Says, String> {
    let half = f(2).inverse();
    let addr = match (l.addr.map(|a| a * half), r.addr.map(|a| (a - f(1)) * half)) {
        (Some(x), Some(y)) if x != y => return Err("addresses are not those of neighbours".into()),
        (x, y) => x.or(y),
    };
    let summary = match (l.summary, r.summary) { (Some(x), Some(y)) => Some(two(x, y)), (x, y) => x.or(y) };
    Ok(Says { old: two(l.old, r.old), new: two(l.new, r.new), addr, summary })
}

fn judge_branch(c: &Circuits, level: usize, l: &Node, r: &Node, p: &Branch) -> Result<(), String> {
    c.branches[level].verify(p.clone()).map_err(|e| format!("does not verify: {e}"))?;
    same("branch", says(p)?, join(l.says()?, r.says()?)?)
}

fn branch(c: &Circuits, level: usize, l: &Node, r: &Node) -> anyhow::Result<Branch> {
    match (l, r) {
        (Node::Leaf(l), Node::Leaf(r)) => c.branches[level].prove(l, r),
        (Node::Branch(l), Node::Branch(r)) => c.branches[level].prove(l, r),
        _ => unreachable!(),
    }
}

fn circuit(c: &Circuits, level: usize) -> &CircuitData<F, C, D> { if level == 0 { &c.leaf.circuit } else { &c.branches[level - 1].circuit } }

fn one(mon: &Mon, c: &Circuits, r: &mut Rng) {
    let levels = match r.below(10) { 0 => 0, 1..=3 => 1, 4..=6 => 2, 7 => 3, 8 => 4, _ => r.idx(LEVELS + 1) };
    let n = 1usize << levels;
    // one leaf that covers many addresses lets the tree be at any height above the bottom
    let base = match r.below(4) { 0 => 0, 1 => r.below(8), 2 => r.below(1 << 40) , _ => r.below((1 << 58) - 1) };
    let dense = r.below(5);
    // the addresses, and one place where they may be wrong
    let bad = r.chance(1, 4).then(|| r.idx(n));
    let mut leaves = vec![];
    let mut desc = String::new();
    for i in 0..n {
        let old = if r.chance(1, 3) { H::ZERO } else { rnd_h(r) };
        let mut new = if r.chance(1, 2) { old } else if r.chance(1, 3) { H::ZERO } else { rnd_h(r) };
        let mut addr = (old != new || r.below(5) < dense).then(|| (base << levels) + i as u64);
        if r.chance(1, 6) { new = old; }
        if bad == Some(i) {
            match r.below(5) {
                0 => addr = None,
                1 => addr = Some(P - 1),
                2 => addr = addr.map(|a| a ^ (1 << r.below(levels as u64 + 2))),
                3 => addr = addr.map(|a| a + 1),
                _ => addr = Some(r.u64() % P),
            }
        }
        leaves.push((old, new, addr));
        desc += &format!("{i}: {old:x?} -> {new:x?} at {addr:x?}\n");
    }
    mon.eval();
    mon.nontrivial(hash_dbg(&desc));
    let check = |name: &str, res: Result<(), String>| if let Err(e) = res { mon.violation(name, format!("{desc}\n{e}")); };

    let mut nodes = vec![];
    for (i, (old, new, addr)) in leaves.iter().enumerate() {
        let (old, new, addr) = (*old, *new, *addr);
        let truly = match addr { None => old == new, Some(a) => a != P - 1 };
        let prove = || c.leaf.prove(old, new, addr);
        match (proven(prove), truly) {
            (Ok(p), true) => {
                let want = Says { old, new, addr: addr.map(f), summary: addr.map(|a| summary(a, old, new)) };
                check("leaf", judge_leaf(c, &p).and_then(|()| same("leaf", says(&p)?, want)));
                if r.chance(1, 6) { attack(mon, r, "leaf", 8, &c.leaf.circuit, &prove, &|p| judge_leaf(c, p)); }
                if r.chance(1, 4) {
                    // told what to say
                    let s = match r.below(4) { 0 => None, 1 => Some(rnd_h(r)), 2 => want.summary, _ => Some(want.summary.unwrap_or(H::ZERO)) };
                    mon.eval();
                    match (proven(|| c.leaf.prove_unsafe(old, new, s, addr)), s == want.summary) {
                        (Ok(p), true) => check("leaf-unsafe", judge_leaf(c, &p)),
                        (Err(_), false) => mon.count("claims refused", 1),
                        (p, _) => mon.violation("leaf-claim", format!("{desc}leaf {i}, summary {s:?}: {:?}", p.err())),
                    }
                }
                nodes.push(Node::Leaf(p));
            }
            (Err(_), false) => {
                mon.count("leaves refused", 1);
                attack(mon, r, "leaf-refused", 8, &c.leaf.circuit, &prove, &|p| judge_leaf(c, p));
                return;
            }
            (p, _) => { mon.violation("leaf-verdict", format!("{desc}leaf {i}: proven {:?}, should be {truly}", p.err())); return; }
        }
    }
    mon.count("leaves", n as u64);

    let mut honest = bad.is_none();
    for level in 0..levels {
        let mut up = vec![];
        for pair in nodes.chunks(2) {
            let (mut l, mut rr) = (&pair[0], &pair[1]);
            if r.chance(1, 40) { std::mem::swap(&mut l, &mut rr); honest = false; }
            if r.chance(1, 40) { rr = l; honest = false; }
            let want = join(l.says().unwrap(), rr.says().unwrap());
            let prove = || branch(c, level, l, rr);
            match (proven(prove), &want) {
                (Ok(p), Ok(w)) => {
                    check("branch", judge_branch(c, level, l, rr, &p).and_then(|()| same("branch", says(&p)?, *w)));
                    mon.count("branches", 1);
                    if r.chance(1, 6) { attack(mon, r, "branch", 8, &c.branches[level].circuit, &prove, &|p| judge_branch(c, level, l, rr, p)); }
                    if r.chance(1, 4) { claims(mon, c, r, level, l, rr, w, &desc); }
                    if r.chance(1, 6) { foreign(mon, c, r, level, l, rr, &desc); }
                    up.push(Node::Branch(p));
                }
                (Err(_), Err(_)) => {
                    mon.count("branches refused", 1);
                    attack(mon, r, "branch-refused", 6, &c.branches[level].circuit, &prove, &|p| judge_branch(c, level, l, rr, p));
                    return;
                }
                (p, _) => { mon.violation("branch-verdict", format!("{desc}\n{:x?} and {:x?}: proven {:?}, should be {want:x?}", l.says(), rr.says(), p.err())); return; }
            }
        }
        nodes = up;
    }
    // against the tree
    if let (true, Ok(s)) = (honest, nodes[0].says()) {
        mon.count("trees", 1);
        let whole = |g: &dyn Fn(usize) -> H| { let m: BTreeMap<u64, H> = (0..n).map(|i| (i as u64, g(i))).collect(); sparse_root(levels as u32, &m, H::ZERO) };
        check("tree-old", same("old root", s.old, whole(&|i| leaves[i].0)));
        check("tree-new", same("new root", s.new, whole(&|i| leaves[i].1)));
        let present: BTreeMap<u64, H> = leaves.iter().enumerate().filter_map(|(i, (o, n, a))| a.map(|a| (i as u64, summary(a, *o, *n)))).collect();
        check("tree-summary", same("summary", s.summary, present_root(levels as u32, &present)));
        check("tree-address", same("address", s.addr, (!present.is_empty()).then(|| f(base))));
        if s.summary.is_none() { check("tree-change", same("roots", s.old, s.new)); }
    }
}

/// A prover that says what the branch should be.
fn claims(mon: &Mon, c: &Circuits, r: &mut Rng, level: usize, l: &Node, rr: &Node, w: &Says, desc: &str) {
    let mut s = *w;
    match r.below(5) {
        0 => s.old = if r.chance(1, 2) { s.new } else { rnd_h(r) },
        1 => s.new = if r.chance(1, 2) { s.old } else { rnd_h(r) },
        2 => s.summary = match r.below(3) { 0 => None, 1 => Some(H::ZERO), _ => Some(rnd_h(r)) },
        3 => s.addr = match r.below(4) { 0 => None, 1 => s.addr.map(|a| a + f(1)), 2 => s.addr.map(|a| a.double()), _ => Some(f(r.u64() % P)) },
        _ => {}
    }
    mon.eval();
    let (lp, rp) = match (l, rr) { (Node::Leaf(l), Node::Leaf(r)) => (&l.proof, &r.proof), (Node::Branch(l), Node::Branch(r)) => (&l.proof, &r.proof), _ => unreachable!() };
    let addr: su::AddressPresent = if r.chance(1, 3) && s.addr == w.addr { ().into() } else { s.addr.map(u).into() };
    let res = proven(|| c.branches[level].prove_unsafe(r.chance(2, 3).then_some(s.old).or((s.old != w.old).then_some(s.old)), Some(s.new), Some(s.summary), addr, lp, rp));
    match (res, s == *w) {
        (Ok(p), true) => if let Err(e) = judge_branch(c, level, l, rr, &p) { mon.violation("branch-unsafe", format!("{desc}\n{e}")) },
        (Err(_), false) => mon.count("claims refused", 1),
        (p, _) => mon.violation("branch-claim", format!("{desc}\n{:x?} and {:x?} claimed to be {s:x?}: {:?}", l.says(), rr.says(), p.err())),
    }
}

/// Proofs of another circuit, or of another level, in the place of children.
fn foreign(mon: &Mon, c: &Circuits, r: &mut Rng, level: usize, l: &Node, rr: &Node, desc: &str) {
    mon.eval();
    mon.count("foreign proofs tried", 1);
    let mut pis = l.pis().to_vec();
    if r.chance(1, 2) {
        let i = c.leaf.new.indices.unpruned_hash;
        i.set_field(&mut pis, rnd_h(r));
    }
    let p = c.evil[level].prove(&pis);
    if proven(|| circuit(c, level).verify(p.clone())).is_ok() { mon.violation("foreign/verify", format!("{desc}level {level}")); }
    let own = match rr { Node::Leaf(p) => p.proof.clone(), Node::Branch(p) => p.proof.clone() };
    for (a, b) in [(&p, &own), (&own, &p), (&p, &p)] {
        if let Ok(q) = proven(|| c.branches[level].prove_unsafe(None, None, None, (), a, b)) {
            if c.branches[level].verify(q).is_ok() { mon.violation("foreign/child", format!("{desc}a level {} proof over a proof of a foreign circuit", level + 1)); }
        }
    }
    // of another level
    let (Node::Leaf(_) | Node::Branch(_)) = l;
    for other in 0..=c.branches.len() {
        if other == level { continue; }
        if proven(|| circuit(c, other).verify(own.clone())).is_ok() { mon.violation("foreign/level-verify", format!("{desc}a level {level} proof verifies at level {other}")); }
        if other > 0 {
            let b = &c.branches[other - 1];
            if other - 1 == level { continue; }
            if let Ok(q) = proven(|| b.prove_unsafe(None, None, None, (), &own, &own)) {
                if b.verify(q).is_ok() { mon.violation("foreign/level-child", format!("{desc}level {level} proofs as children of level {other}")); }
            }
        }
    }
}

/// A path through the whole address space: where a leaf is, and what address it has.
fn alias(mon: &Mon) {
    let leaf = su::LeafCircuit::<F, C, D>::new(&CONFIG);
    let mut chain: Vec<su::BranchCircuit<F, C, D>> = vec![];
    for i in 0..64 { chain.push(if i == 0 { su::BranchCircuit::from_leaf(&CONFIG, &leaf) } else { su::BranchCircuit::from_branch(&CONFIG, &chain[i - 1]) }); }
    let mut empty = vec![Node::Leaf(leaf.prove(H::ZERO, H::ZERO, None).expect("empty leaf"))];
    let prove = |i: usize, l: &Node, r: &Node| match (l, r) {
        (Node::Leaf(l), Node::Leaf(r)) => chain[i].prove(l, r),
        (Node::Branch(l), Node::Branch(r)) => chain[i].prove(l, r),
        _ => unreachable!(),
    };
    for i in 0..64 { let b = prove(i, &empty[i], &empty[i]).expect("empty branch"); empty.push(Node::Branch(b)); }
    let path = |place: u64, address: u64| -> Option<Says> {
        let mut n = Node::Leaf(proven(|| leaf.prove(H::ZERO, H { elements: [f(7); 4] }, Some(address))).ok()?);
        for i in 0..64 {
            n = Node::Branch(proven(|| if place >> i & 1 == 0 { prove(i, &n, &empty[i]) } else { prove(i, &empty[i], &n) }).ok()?);
        }
        n.says().ok()
    };
    let at_root = |place: u64, address: u64| path(place, address).is_some_and(|s| s.addr == Some(f(0)));
    let mut r = mon.rng(3);
    let mut places = vec![0, 1, 5, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 62, 1 << 63, P - 2];
    places.extend((0..4).map(|_| r.u64() % (P - 1)));
    for p in places {
        mon.evals(2);
        mon.nontrivial(hash_dbg(&("path", p)));
        mon.count("whole paths", 2);
        if !at_root(p, p) { mon.violation("path", format!("a leaf at {p:#x} does not come to the root as such")); }
        let q = match r.below(3) { 0 => p ^ (1 << r.below(63)), 1 => p + 1, _ => r.u64() % P };
        if q != p && at_root(p, q) { mon.violation("path-wrong", format!("a leaf at {p:#x} comes to the root as {q:#x}")); }
    }
    // places beyond the field
    mon.evals(1);
    if at_root(P + 5, 5) { mon.violation("address-alias", "the leaf at 0xffffffff00000006 has a proof with address 5 and root address 0"); }
}

pub fn run() -> ! {
    let mon = Arc::new(Mon::new("C30"));
    mon.assume("the stand-in proof system: a proof exists exactly if the circuit's conditions hold for its witness");
    mon.assume("a leaf that does not change may be summarised, as reads are");
    let leaf = su::LeafCircuit::new(&CONFIG);
    let mut branches = vec![su::BranchCircuit::from_leaf(&CONFIG, &leaf)];
    for i in 1..LEVELS { let b = su::BranchCircuit::from_branch(&CONFIG, &branches[i - 1]); branches.push(b); }
    let mut evil = vec![Evil::new(&leaf.circuit.common)];
    for b in &branches { evil.push(Evil::new(&b.circuit.common)); }
    let c = Circuits { leaf, branches, evil };
    alias(&mon);
    let n = mon.n(24_000, 1_000_000);
    let w = cores();
    parallel(w, |t| {
        for i in (0..n).filter(|i| i % w == t) {
            if !mon.within(400, 3600) { return; }
            let mut r = mon.rng(10 + i);
            one(&mon, &c, &mut r);
        }
    });
    mon.sample(json!({"levels": LEVELS}));
    mon.finish("random trees of up to six levels with random old and new leaves and random presence, in honest and in wrong places; what every proof says is compared with the native roots, summary and address; wrong claims, changed witnesses and proofs of other circuits and levels must be refused; whole paths of 64 levels")
}

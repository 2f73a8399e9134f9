//! C32: events accumulate to deltas, deltas match objects, exactly by the rules.
use std::marker::PhantomData;
use std::sync::Arc;

use enumflags2::BitFlags;
use itertools::Either;
use mozak_recproofs::circuits::accumulate_delta as acc;
use mozak_recproofs::circuits::match_delta as md;
use mozak_recproofs::test_utils::CONFIG;
use mozak_recproofs::{EventFlags, EventType};
use monlib::{cores, hash_dbg, json, parallel, Mon, Rng};

use crate::adv::*;
use crate::native::*;

type ALeaf = acc::LeafProof<F, C, D>;
type ABranch = acc::BranchProof<F, C, D>;
type AProof = Either<ALeaf, ABranch>;
type MLeaf = md::LeafProof<F, C, D>;
type MBranch = md::BranchProof<F, C, D>;
type MProof = Either<MLeaf, MBranch>;
type V4 = [F; 4];

struct Circuits {
    al: acc::LeafCircuit<F, C, D>,
    ab: acc::BranchCircuit<F, C, D>,
    ml: md::LeafCircuit<F, C, D>,
    mb: md::BranchCircuit<F, C, D>,
    evil_a: Evil,
    evil_m: Evil,
}

const W: u8 = 1;
const E: u8 = 2;
const R: u8 = 4;
const G: u8 = 8;
const T: u8 = 16;

/// What is known of an object's change; `None` where no event says anything.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Delta { addr: F, flags: u8, old_owner: Option<V4>, new_owner: Option<V4>, old_data: Option<V4>, new_data: Option<V4>, credits: F }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Ev { owner: V4, ty: u64, addr: F, value: V4 }
impl Ev {
    fn hash(&self) -> H {
        let mut v = self.owner.to_vec();
        v.extend([f(self.ty), self.addr]);
        v.extend(self.value);
        hash(&v)
    }
    /// Types beyond the known ones change nothing.
    fn delta(&self) -> Result<Delta, String> {
        let mut d = Delta { addr: self.addr, flags: 0, old_owner: None, new_owner: None, old_data: None, new_data: None, credits: f(0) };
        match self.ty {
            0 => { d.flags = W; d.old_owner = Some(self.owner); d.new_data = Some(self.value); }
            1 => { d.flags = E; d.new_data = Some(self.value); }
            2 => { d.flags = R; d.old_data = Some(self.value); }
            3 => { d.flags = G; d.old_owner = Some(self.owner); d.new_owner = Some(self.value); }
            4 => { d.flags = T; d.old_owner = Some(self.value); d.new_owner = Some(self.owner); }
            5 => {
                if u(self.value[0]) >= 1 << 40 { return Err("too many credits".into()); }
                d.credits = match u(self.value[3]) { 0 => self.value[0], 1 => -self.value[0], _ => return Err("sign".into()) };
                if d.credits != f(0) { d.old_owner = Some(self.owner); }
            }
            _ => {}
        }
        Ok(d)
    }
}

fn agree(a: Option<V4>, b: Option<V4>, what: &str) -> Result<Option<V4>, String> {
    match (a, b) { (Some(x), Some(y)) if x != y => Err(format!("{what} differ")), _ => Ok(a.or(b)) }
}

impl Delta {
    fn join(&self, o: &Delta) -> Result<Delta, String> {
        if self.addr != o.addr { return Err("addresses differ".into()); }
        for f in [W, G, T] { if self.flags & o.flags & f != 0 { return Err("twice".into()); } }
        // a sum of zero no longer names its owner, but both sides did agree
        let mut d = Delta {
            addr: self.addr,
            flags: self.flags | o.flags,
            old_owner: agree(self.old_owner, o.old_owner, "old owners")?,
            new_owner: agree(self.new_owner, o.new_owner, "new owners")?,
            old_data: agree(self.old_data, o.old_data, "old data")?,
            new_data: agree(self.new_data, o.new_data, "new data")?,
            credits: self.credits + o.credits,
        };
        if d.credits == f(0) && d.flags & (W | G | T) == 0 { d.old_owner = None; }
        Ok(d)
    }
    fn of<X>(p: &acc::Proof<X, F, C, D>) -> Result<Delta, String> {
        let i = &p.indices.partial_state;
        let pi = &p.proof.public_inputs;
        let flags = u(i.object_flags.get_field(pi));
        if flags >= 32 { return Err(format!("flags {flags}")); }
        let flags = flags as u8;
        let credits: F = i.credit_delta.get_field(pi);
        let when = |c: bool, v: V4| c.then_some(v);
        Ok(Delta {
            addr: i.address.get_field(pi),
            flags,
            old_owner: when(flags & (W | G | T) != 0 || credits != f(0), i.old_owner.get_field(pi)),
            new_owner: when(flags & (G | T) != 0, i.new_owner.get_field(pi)),
            old_data: when(flags & R != 0, i.old_data.get_field(pi)),
            new_data: when(flags & (W | E) != 0, i.new_data.get_field(pi)),
            credits,
        })
    }
    fn of_any(p: &AProof) -> Result<Delta, String> { match p { Either::Left(l) => Delta::of(l), Either::Right(b) => Delta::of(b) } }
}

fn a_events(p: &AProof) -> H { match p { Either::Left(l) => l.events(), Either::Right(b) => b.events() } }
fn same<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, should be {want:?}")) }
}

fn judge_leaf(c: &Circuits, p: &ALeaf) -> Result<(), String> {
    let t = &c.al.partial_state.targets;
    let e = Ev { owner: vals(t.event_owner), ty: u(val(t.event_ty)), addr: val(t.inputs.address), value: vals(t.event_value) };
    same("event", p.events(), e.hash())?;
    same("delta", Delta::of(p)?, e.delta()?)
}

fn judge_branch(c: &Circuits, l: &AProof, r: &AProof, p: &ABranch) -> Result<(), String> {
    c.ab.verify(p.clone()).map_err(|e| format!("does not verify: {e}"))?;
    let (dl, dr) = (Delta::of_any(l)?, Delta::of_any(r)?);
    let got = (p.events(), Delta::of(p)?);
    if got == (a_events(l), dl) { return Ok(()); }
    same("branch", got, (two(a_events(l), a_events(r)), dl.join(&dr)?))
}

// ---- matching ----

#[derive(Clone, Copy, Debug)]
pub struct Change { pub height: F, pub last: F, pub old_owner: V4, pub new_owner: V4, pub old_data: V4, pub new_data: V4, pub old_credits: F, pub new_credits: F }
pub const Z: V4 = [F(0); 4];
use plonky2::field::goldilocks_field::GoldilocksField as GF;
#[allow(non_snake_case)]
const fn F(v: u64) -> GF { GF(v) }

impl Change {
    fn rules(&self, d: &Delta) -> Result<(Obj, Obj), String> {
        let ck = |ok: bool, what: &str| if ok { Ok(()) } else { Err(what.to_string()) };
        if let Some(o) = d.old_owner { ck(o == self.old_owner, "not by the owner")?; }
        if let Some(o) = d.new_owner { ck(o == self.new_owner, "new owner")?; }
        if let Some(o) = d.old_data { ck(o == self.old_data, "read data")?; }
        if let Some(o) = d.new_data { ck(o == self.new_data, "new data")?; }
        ck((d.flags & G != 0) == (d.flags & T != 0), "given but not taken")?;
        ck(self.old_data == self.new_data || d.flags & W != 0, "data changed without write")?;
        let modes = [self.old_owner == Z, self.new_owner == Z, self.old_owner == self.new_owner];
        ck(modes.iter().filter(|m| **m).count() == 1, "creation, deletion or neither")?;
        ck((modes[0] || modes[1]) == (d.flags & G != 0), "ownership changed without events")?;
        ck(self.new_credits - self.old_credits == d.credits, "credits")?;
        ck(u(self.new_credits) < 1 << 62, "credits below zero")?;
        let touched = d.flags & (G | W) != 0 || self.old_credits != self.new_credits;
        let last = if self.new_owner == Z { f(0) } else if touched { self.height } else { self.last };
        Ok((Obj { constraint_owner: self.old_owner, last_updated: self.last, credits: self.old_credits, data: self.old_data },
            Obj { constraint_owner: self.new_owner, last_updated: last, credits: self.new_credits, data: self.new_data }))
    }
    pub fn witness(&self) -> md::LeafWitnessValue<F> {
        md::LeafWitnessValue { block_height: u(self.height), last_updated: u(self.last), old_owner: self.old_owner, new_owner: self.new_owner,
            old_data: self.old_data, new_data: self.new_data, old_credits: u(self.old_credits), new_credits: u(self.new_credits) }
    }
    fn state(&self, d: &Delta) -> Result<H, String> {
        let (o, n) = self.rules(d)?;
        let mut v = vec![d.addr];
        v.extend(obj_hash(&o).elements);
        v.extend(obj_hash(&n).elements);
        Ok(hash(&v))
    }
}

fn judge_match(c: &Circuits, a: &ABranch, p: &MLeaf) -> Result<(), String> {
    let t = &c.ml.compare_delta.targets;
    let ch = Change { height: val(t.block_height), last: val(t.last_updated), old_owner: vals(t.old_owner), new_owner: vals(t.new_owner),
        old_data: vals(t.old_data), new_data: vals(t.new_data), old_credits: val(t.old_credits), new_credits: val(t.new_credits) };
    same("events", p.events(), a.events())?;
    same("height", f(p.block_height()), ch.height)?;
    let want = ch.state(&Delta::of(a)?).map_err(|e| format!("{e}: {:?}", Delta::of(a)))?;
    same("state", p.state_hash(), want)
}

fn m_parts(p: &MProof) -> (u64, H, H) {
    match p { Either::Left(l) => (l.block_height(), l.events(), l.state_hash()), Either::Right(b) => (b.block_height(), b.events(), b.state_hash()) }
}
fn judge_mbranch(c: &Circuits, l: &MProof, r: &MProof, p: &MBranch) -> Result<(), String> {
    c.mb.verify(p.clone()).map_err(|e| format!("does not verify: {e}"))?;
    let (a, b) = (m_parts(l), m_parts(r));
    if a.0 != b.0 { return Err(format!("heights {} and {}", a.0, b.0)); }
    let got = (p.block_height(), p.events(), p.state_hash());
    if got == a { return Ok(()); }
    same("branch", got, (a.0, two(a.1, b.1), two(a.2, b.2)))
}

// ---- workload ----

pub fn ty(i: u64) -> EventType {
    use EventType::*;
    [Write, Ensure, Read, GiveOwner, TakeOwner, CreditDelta][i as usize]
}
fn other(r: &mut Rng, v: V4) -> V4 {
    let mut v = v;
    match r.below(4) {
        0 => rnd4(r),
        1 => { let i = r.idx(4); v[i] += f(1); v }
        2 => { let i = r.idx(4); v[i] = f(0); v[(i + 1) % 4] += f(1); v }
        _ => { v.swap(0, 3); v[1] += f(1); v }
    }
}

fn small4(r: &mut Rng) -> V4 {
    match r.below(5) { 0 => Z, 1 => [f(1), f(0), f(0), f(0)], 2 => [f(0), f(0), f(0), f(1)], _ => rnd4(r) }
}

/// A change of an object and events for it, mostly consistent.
fn scenario(r: &mut Rng) -> (Change, Vec<Ev>) {
    let owner = rnd4(r);
    let height = f(r.range(2, 1 << 20));
    let (mut ch, mut evs) = (Change { height, last: f(r.below(u(height))), old_owner: owner, new_owner: owner,
        old_data: small4(r), new_data: Z, old_credits: f(r.below(1 << 20)), new_credits: f(0) }, vec![]);
    ch.new_data = ch.old_data;
    let addr = match r.below(4) { 0 => f(0), 1 => f(P - 1), 2 => f(r.below(16)), _ => f(r.u64() % P) };
    let ev = |owner: V4, ty: u64, value: V4| Ev { owner, ty, addr, value };
    let write = r.chance(1, 2);
    match r.below(6) {
        0 => { // creation
            ch.old_owner = Z; ch.old_data = Z; ch.old_credits = f(0); ch.last = f(0); ch.new_data = Z;
            evs.push(ev(Z, 3, owner));
            evs.push(ev(owner, 4, Z));
        }
        1 => { // deletion
            ch.new_owner = Z;
            evs.push(ev(owner, 3, Z));
            evs.push(ev(Z, 4, owner));
        }
        _ => {}
    }
    if write {
        ch.new_data = if r.chance(1, 6) { ch.old_data } else { small4(r) };
        evs.push(ev(ch.old_owner, 0, ch.new_data));
    }
    let mut credits = u(ch.old_credits) as i64;
    for _ in 0..*r.pick(&[0, 0, 1, 2, 4]) {
        let d = match r.below(4) { 0 => 0, 1 => (1 << 40) - 1, _ => r.below(1 << 21) } as i64;
        let neg = r.chance(1, 2) && (credits >= d || r.chance(1, 8));
        credits += if neg { -d } else { d };
        evs.push(ev(ch.old_owner, 5, [f(d as u64), f(if r.chance(1, 4) { r.u64() % P } else { 0 }), f(0), f(u64::from(neg))]));
    }
    ch.new_credits = if credits < 0 { -f((-credits) as u64) } else { f(credits as u64) };
    for _ in 0..*r.pick(&[0, 1, 1, 2, 4]) {
        let who = small4(r);
        evs.push(if r.chance(1, 2) { ev(who, 1, ch.new_data) } else { ev(who, 2, ch.old_data) });
    }
    if evs.is_empty() { evs.push(ev(rnd4(r), 2, ch.old_data)); }
    // break something
    if r.chance(1, 3) {
        match r.below(5) {
            0 => { let i = r.idx(evs.len()); evs[i].owner = other(r, evs[i].owner); }
            1 => { let i = r.idx(evs.len()); evs[i].value = other(r, evs[i].value); }
            2 => { let i = r.idx(evs.len()); let e = evs[i]; evs.push(e); }
            3 => { let i = r.idx(evs.len()); evs.remove(i); if evs.is_empty() { evs.push(ev(rnd4(r), 1, ch.new_data)); } }
            _ => { let i = r.idx(evs.len()); evs[i].addr += f(1); }
        }
    }
    if r.chance(1, 3) {
        match r.below(8) {
            0 => ch.old_owner = other(r, ch.old_owner),
            1 => ch.new_owner = other(r, ch.new_owner),
            2 => ch.old_data = other(r, ch.old_data),
            3 => ch.new_data = other(r, ch.new_data),
            4 => ch.old_credits += f(1),
            5 => ch.new_credits += f(1),
            6 => { ch.old_owner = Z; ch.new_owner = Z; }
            _ => { ch.new_credits = f(r.u64() % P); }
        }
    }
    r.shuffle(&mut evs);
    (ch, evs)
}

fn prove_leaf(c: &Circuits, e: &Ev) -> anyhow::Result<ALeaf> {
    c.al.prove(&c.ab, u(e.addr), e.owner, ty(e.ty), e.value)
}

fn one(mon: &Mon, c: &Circuits, r: &mut Rng) {
    let (ch, evs) = scenario(r);
    let desc = format!("{evs:x?}\n{ch:x?}");
    mon.eval();
    mon.nontrivial(hash_dbg(&(ch, &evs)));
    let check = |name: &str, res: Result<(), String>| if let Err(e) = res { mon.violation(name, format!("{desc}\n{e}")); };

    // leaves
    let mut nodes: Vec<(AProof, Delta)> = vec![];
    for e in &evs {
        match (kept(|| prove_leaf(c, e)), e.delta()) {
            (Ok(p), Ok(d)) => {
                check("leaf", judge_leaf(c, &p).and_then(|()| same("delta", Delta::of(&p)?, d)));
                check("leaf-verify", c.al.verify(p.clone()).map_err(|e| e.to_string()));
                if r.chance(1, 4) { attack(mon, r, "accumulate-leaf", 8, &c.al.circuit, &|| prove_leaf(c, e), &|p| judge_leaf(c, p)); }
                nodes.push((Either::Left(p), d));
            }
            (Err(_), Err(_)) => { mon.count("events refused", 1); return; }
            (p, d) => { mon.violation("leaf-verdict", format!("{desc}\n{e:x?}: proven {:?}, should be {d:?}", p.err())); return; }
        }
    }
    mon.count("events", evs.len() as u64);

    // in any order, in any shape
    let whole: Result<Delta, String> = nodes[1..].iter().try_fold(nodes[0].1, |a, b| a.join(&b.1));
    while nodes.len() > 1 {
        let i = r.idx(nodes.len());
        let a = nodes.swap_remove(i);
        let j = r.idx(nodes.len());
        let b = nodes.swap_remove(j);
        let joined = a.1.join(&b.1);
        let prove = || c.ab.prove(&a.0, &b.0);
        match (kept(prove), &joined) {
            (Ok(p), Ok(d)) => {
                check("branch", judge_branch(c, &a.0, &b.0, &p).and_then(|()| same("delta", Delta::of(&p)?, *d)).and_then(|()| same("events", p.events(), two(a_events(&a.0), a_events(&b.0)))));
                if r.chance(1, 4) { attack(mon, r, "accumulate-branch", 8, &c.ab.circuit, &prove, &|p| judge_branch(c, &a.0, &b.0, p)); }
                mon.count("accumulations", 1);
                nodes.push((Either::Right(p), *d));
            }
            (Err(_), Err(_)) => {
                mon.count("accumulations refused", 1);
                attack(mon, r, "accumulate-branch-conflict", 6, &c.ab.circuit, &prove, &|p| judge_branch(c, &a.0, &b.0, p));
                return;
            }
            (p, _) => { mon.violation("branch-verdict", format!("{desc}\n{:x?} and {:x?}: proven {:?}, should be {joined:x?}", a.1, b.1, p.err())); return; }
        }
    }
    let (p, d) = nodes.pop().unwrap();
    // credits that cancel out part of the way lose their owner, so conflicts may show or not
    if let Ok(w) = whole { if w != d { mon.violation("order", format!("{desc}\n{w:x?} and {d:x?}")); return; } }
    let a = match p {
        Either::Right(b) => b,
        Either::Left(l) => match kept(|| c.ab.prove_one(&l)) {
            Ok(b) => {
                check("single", same("single", (b.events(), Delta::of(&b)), (l.events(), Ok(d))).and_then(|()| c.ab.verify(b.clone()).map_err(|e| e.to_string())));
                b
            }
            Err(e) => { mon.violation("single-refused", format!("{desc}\n{e}")); return; }
        },
    };

    // matching
    let want = ch.state(&d);
    let prove = || c.ml.prove(&c.mb, &a, ch.witness());
    let leaf = match (kept(prove), &want) {
        (Ok(p), Ok(s)) => {
            check("match", judge_match(c, &a, &p).and_then(|()| same("state", p.state_hash(), *s)).and_then(|()| same("height", f(p.block_height()), ch.height)));
            check("match-verify", c.ml.verify(p.clone()).map_err(|e| e.to_string()));
            mon.count("matches", 1);
            p
        }
        (Err(_), Err(e)) => {
            mon.count(&format!("refused: {e}"), 1);
            attack(mon, r, "match-leaf-refused", 6, &c.ml.circuit, &prove, &|p| judge_match(c, &a, p));
            return;
        }
        (p, _) => { mon.violation(&format!("match-verdict/{}", want.as_ref().err().map_or("refused", |s| s)), format!("{desc}\n{d:x?}\nproven {:?}, should be {want:x?}", p.err())); return; }
    };
    if r.chance(1, 4) { attack(mon, r, "match-leaf", 12, &c.ml.circuit, &prove, &|p| judge_match(c, &a, p)); }

    // a tree of matches
    if r.chance(1, 3) {
        let mut other = leaf.clone();
        if r.chance(1, 2) {
            let mut ch2 = ch;
            ch2.height = if r.chance(1, 2) { ch.height } else { ch.height + f(1) };
            if let Ok(p) = proven(|| c.ml.prove(&c.mb, &a, ch2.witness())) { other = p; }
        }
        let (l, rr): (MProof, MProof) = (Either::Left(leaf), Either::Left(other));
        mbranch(mon, c, r, &desc, &l, &rr, 1);
    }
    if r.chance(1, 3) { evil(mon, c, r, &a, &ch); }
}

fn mbranch(mon: &Mon, c: &Circuits, r: &mut Rng, desc: &str, l: &MProof, rr: &MProof, deep: u32) {
    let fits = m_parts(l).0 == m_parts(rr).0;
    let prove = || c.mb.prove(l, rr);
    let one = r.chance(1, 4);
    let res = if one { kept(|| c.mb.prove_one(l)) } else { kept(prove) };
    mon.eval();
    match (res, fits || one) {
        (Ok(p), true) => {
            let want = if one { m_parts(l) } else { (m_parts(l).0, two(m_parts(l).1, m_parts(rr).1), two(m_parts(l).2, m_parts(rr).2)) };
            if let Err(e) = judge_mbranch(c, l, if one { l } else { rr }, &p).and_then(|()| same("parts", (p.block_height(), p.events(), p.state_hash()), want)) { mon.violation("match-branch", format!("{desc}\n{e}")); }
            mon.count("match branches", 1);
            if !one && r.chance(1, 2) { attack(mon, r, "match-branch", 8, &c.mb.circuit, &prove, &|p| judge_mbranch(c, l, rr, p)); }
            if deep > 0 {
                let b = Either::Right(p);
                if r.chance(1, 2) { mbranch(mon, c, r, desc, &b, l, deep - 1); } else { mbranch(mon, c, r, desc, l, &b, deep - 1); }
            }
        }
        (Err(_), false) => {
            mon.count("match branches refused", 1);
            attack(mon, r, "match-branch-heights", 4, &c.mb.circuit, &prove, &|p| judge_mbranch(c, l, rr, p));
        }
        (p, _) => mon.violation("match-branch-verdict", format!("{desc}\nheights {} and {}: {:?}", m_parts(l).0, m_parts(rr).0, p.err())),
    }
}

/// Proofs from a circuit that proves anything, handed in as if they came from the real one.
fn evil(mon: &Mon, c: &Circuits, r: &mut Rng, a: &ABranch, ch: &Change) {
    mon.eval();
    mon.count("foreign circuits tried", 1);
    let mut pis = a.proof.public_inputs.clone();
    // an event nobody made
    let i = &a.indices.event_hash.unpruned_hash;
    i.set_field(&mut pis, hash(&[f(r.u64() % P)]));
    let named = r.chance(1, 2);
    if named { pis = c.evil_a.named(&a.indices.unbounded.verifier, &pis); }
    let fake = ABranch { proof: c.evil_a.prove(&pis), tag: PhantomData, indices: a.indices.clone() };
    let at = if named { "that names itself" } else { "that names the real one" };
    if proven(|| c.ml.prove(&c.mb, &fake, ch.witness())).is_ok() { mon.violation("foreign/match-direct", format!("a match of a delta of a foreign circuit {at}")); }
    if proven(|| c.ab.verify(fake.clone())).is_ok() { mon.violation("foreign/accumulate-direct", format!("foreign circuit {at}")); }
    let fake_leaf = ALeaf { proof: fake.proof.clone(), tag: PhantomData, indices: fake.indices.clone() };
    for k in 0..3 {
        let q = match k { 0 => proven(|| c.ab.prove(&fake, &fake)), 1 => proven(|| c.ab.prove_one(&fake)), _ => proven(|| c.ab.prove(&fake_leaf, &fake_leaf)) };
        let Ok(q) = q else { continue };
        mon.count("branches over foreign proofs", 1);
        if c.ab.verify(q.clone()).is_ok() { mon.violation("foreign/accumulate", format!("a branch over proofs of a foreign circuit {at} verifies")); }
        if proven(|| c.ml.prove(&c.mb, &q, ch.witness())).is_ok() { mon.violation("foreign/match", format!("a delta that rests on a foreign circuit {at} is matched")); }
    }
    // and one level up
    let Ok(real) = proven(|| c.ml.prove(&c.mb, a, ch.witness())) else { return };
    let mut pis = real.proof.public_inputs.clone();
    real.indices.state_hash.unpruned_hash.set_field(&mut pis, hash(&[f(r.u64() % P)]));
    if named { pis = c.evil_m.named(&real.indices.unbounded.verifier, &pis); }
    let fake = MBranch { proof: c.evil_m.prove(&pis), tag: PhantomData, indices: real.indices.clone() };
    for q in [proven(|| c.mb.prove(&fake, &fake)), proven(|| c.mb.prove_one(&fake)), Ok(fake.clone())].into_iter().flatten() {
        mon.count("branches over foreign proofs", 1);
        if c.mb.verify(q).is_ok() { mon.violation("foreign/match-branch", format!("a match proof over a foreign circuit {at} verifies")); }
    }
    if proven(|| c.mb.prove(&real, &fake)).is_ok() { mon.violation("foreign/mixed", format!("a foreign circuit {at} beside a real proof")); }
}

pub fn run() -> ! {
    let mon = Arc::new(Mon::new("C32"));
    mon.assume("the stand-in proof system: a proof exists exactly if the circuit's conditions hold for its witness");
    mon.assume("events of unknown types change nothing; an absent object cannot be read");
    let al = acc::LeafCircuit::new(&CONFIG);
    let ab = acc::BranchCircuit::new(&CONFIG, &al);
    let ml = md::LeafCircuit::new(&CONFIG, &ab);
    let mb = md::BranchCircuit::new(&CONFIG, &ml);
    let c = Circuits { evil_a: Evil::new(&ab.circuit.common), evil_m: Evil::new(&mb.circuit.common), al, ab, ml, mb };
    assert_eq!(BitFlags::<EventFlags>::all().bits(), W | E | R | G | T);
    let n = mon.n(30_000, 1_500_000);
    let w = cores();
    parallel(w, |t| {
        for i in (0..n).filter(|i| i % w == t) {
            if !mon.within(400, 3600) { return; }
            let mut r = mon.rng(10 + i);
            one(&mon, &c, &mut r);
        }
    });
    mon.sample(json!({"scenario": format!("{:x?}", scenario(&mut mon.rng(10)))}));
    mon.finish("random events on an object, mostly consistent with a random change of it, accumulated in random order and shape and matched; every proof and refusal compared with the rules; witnesses changed on their way into the circuits, and proofs of foreign circuits, must not prove anything else")
}

//! C41: the block proposer's reductions, transactions, matches and blocks, whatever order parts arrive in.
use std::collections::BTreeMap;
use std::sync::Arc;

use monlib::{cores, fnv, guard, hash_dbg, json, parallel, Mon, Rng};
use mozak_node::block_proposer::block::{AuxBlockData, Blocks};
use mozak_node::block_proposer::matches::{AuxMatchesData, Matches};
use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::transactions::{AuxTransactionData, TransactionAccumulator};
use mozak_node::block_proposer::{
    reduce_tree, reduce_tree_by_address, Address, BranchAddress, BranchAddressComparison, Dir, OngoingTxKey,
};
use mozak_recproofs::test_utils::CONFIG;
use mozak_sdk::common::merkle::merkleize;
use mozak_sdk::common::types::{CanonicalEvent, EventType, Poseidon2Hash, ProgramIdentifier, StateAddress};

use crate::native::*;
use crate::prog::Program;

type Proof = plonky2::plonk::proof::ProofWithPublicInputs<F, C, D>;

// ---- reduction ----

/// Largest power of two on the left, as the VM and the SDK reduce their lists.
fn shape(xs: &[u32]) -> String {
    match xs {
        [] => String::new(),
        [x] => format!("{x}"),
        _ => {
            let k = xs.len().next_power_of_two() / 2;
            format!("({} {})", shape(&xs[..k]), shape(&xs[k..]))
        }
    }
}

fn reductions(mon: &Mon, r: &mut Rng) {
    let n = match r.below(4) { 0 => r.below(5), 1 => r.below(20), 2 => r.below(70), _ => r.below(300) } as usize;
    let xs: Vec<u32> = (0..n as u32).collect();
    mon.eval();
    mon.count("lists reduced", 1);
    let mut merges = 0;
    // sizes unknown to the reduction, in half of the cases
    let it: Box<dyn Iterator<Item = u32>> = if r.chance(1, 2) { Box::new(xs.clone().into_iter()) } else { Box::new(xs.clone().into_iter().filter(|_| true)) };
    let got = guard(|| reduce_tree(it, |x| x.to_string(), |s| s.parse().unwrap_or(u32::MAX), |_, _| String::new()).map(|_| ()));
    if got.is_err() { mon.violation("reduce/refused", format!("{n} items")); }
    let got = reduce_tree(xs.iter().map(|x| x.to_string()), |x| x, |x| x, |l, r| { merges += 1; format!("({l} {r})") });
    if got.clone().unwrap_or_default() != shape(&xs) || got.is_some() != (n > 0) || merges + 1 != n.max(1) {
        mon.violation("reduce/shape", format!("{n} items reduced to {got:?}, expected {}", shape(&xs)));
    }

    // by address
    let k = r.range(1, 9) as usize;
    let levels = *r.pick(&[1u32, 2, 3, 8, 63, 64]);
    let mask = if levels == 64 { u64::MAX } else { (1 << levels) - 1 };
    let base = r.u64();
    let mut items: Vec<(u64, u32)> = vec![];
    for _ in 0..k {
        let a = match r.below(5) { 0 => base ^ r.below(3), 1 => 0, 2 => mask, 3 => base ^ (1 << r.below(64)), _ => r.u64() } & mask;
        let most = *r.pick(&[2, 2, 4, 10]);
        for _ in 0..r.range(1, most) { items.push((a, 0)); }
    }
    items.sort_unstable();
    for (i, x) in items.iter_mut().enumerate() { x.1 = i as u32; }
    let mut groups: BTreeMap<u64, Vec<u32>> = BTreeMap::new();
    for (a, i) in &items { groups.entry(*a).or_default().push(*i); }
    fn go(level: u32, xs: &[(u64, String)]) -> String {
        match xs { [] => return String::new(), [x] => return x.1.clone(), _ => {} }
        let bit = 1u64 << (level - 1);
        let cut = xs.partition_point(|x| x.0 & bit == 0);
        match (cut, xs.len() - cut) {
            (0, _) | (_, 0) => go(level - 1, xs),
            _ => format!("[{} {} @{}]", go(level - 1, &xs[..cut]), go(level - 1, &xs[cut..]), level),
        }
    }
    let gs: Vec<(u64, String)> = groups.iter().map(|(a, is)| (*a, shape(is))).collect();
    let want = go(64, &gs);
    mon.eval();
    mon.count("address lists reduced", 1);
    let leaves: Vec<_> = items.iter().map(|(a, i)| (BranchAddress::base(*a), (BranchAddress::base(*a), i.to_string()))).collect();
    let got = guard(|| reduce_tree_by_address(leaves, |x| x.parent(1), |at, l, r| {
        let own = l.0.common_ancestor(r.0);
        let s = if own == l.0 && own == r.0 {
            format!("({} {})", l.1, r.1)
        } else {
            format!("[{} {} @{}]", l.1, r.1, height(*at))
        };
        (*at, s)
    }));
    match got {
        Err(e) => mon.violation("reduce-address/refused", format!("{items:x?}: {e}")),
        Ok(None) => mon.violation("reduce-address/lost", format!("{items:x?}")),
        Ok(Some((_, (_, s)))) => if s != want {
            mon.violation("reduce-address/shape", format!("{items:x?}\ngot {s}\nexpected {want}"));
        },
    }
    mon.nontrivial(fnv(want.as_bytes()));
}

/// Height of a branch address, as its debug form says.
fn height(a: BranchAddress) -> usize {
    let s = format!("{a:?}");
    let i = s.find("height: ").map_or(0, |i| i + 8);
    s[i..].chars().take_while(char::is_ascii_digit).collect::<String>().parse().unwrap_or(999)
}

// ---- addresses ----

/// Bits from the root down: `64 - height` of them.
fn bits(a: u64, h: usize) -> Vec<bool> { (h..64).rev().map(|i| if i - h < 64 { a >> (i - h) & 1 == 1 } else { false }).collect() }

fn addresses(mon: &Mon, r: &mut Rng) {
    let mk = |r: &mut Rng, like: Option<(u64, usize)>| -> (u64, usize) {
        let h = match r.below(5) { 0 => 0, 1 => 64, 2 => 63, 3 => 1, _ => r.below(65) } as usize;
        let full = match (like, r.below(4)) {
            (Some((a, k)), 0 | 1) => {
                let up = if k == 64 { 0 } else { a << k };
                up ^ if r.chance(1, 2) { 0 } else { 1 << r.below(64) }
            }
            (_, 2) => *r.pick(&[0, u64::MAX, 1, 1 << 63]),
            _ => r.u64(),
        };
        (if h == 64 { 0 } else { full >> h }, h)
    };
    let x = mk(r, None);
    let y = mk(r, Some(x));
    let real = |(a, h): (u64, usize)| -> BranchAddress {
        // from a leaf below it
        let leaf = if h == 64 { 0 } else { a << h };
        BranchAddress::base(leaf).parent(h)
    };
    let (bx, by) = (bits(x.0, x.1), bits(y.0, y.1));
    let at = format!("{x:x?} and {y:x?}");
    mon.evals(3);
    mon.count("address pairs", 1);
    mon.nontrivial(hash_dbg(&(x, y)));
    let common = bx.iter().zip(&by).take_while(|(p, q)| p == q).count();
    let want_h = 64 - common;
    let want_a = bx[..common].iter().fold(0u64, |a, b| a << 1 | u64::from(*b));
    match guard(|| real(x).common_ancestor(real(y))) {
        Ok(c) if c == real((want_a, want_h)) => {}
        c => mon.violation("address/ancestor", format!("{at}: {c:?}, expected {want_a:x} at height {want_h}")),
    }
    use BranchAddressComparison::*;
    let want = if bx == by {
        Equal
    } else if by.starts_with(&bx) {
        if by[bx.len()] { RightChild } else { LeftChild }
    } else if bx.starts_with(&by) {
        if bx[by.len()] { RightParent } else { LeftParent }
    } else {
        let left = by < bx;
        match (bx.len() == by.len() && common + 1 == bx.len(), left) {
            (true, true) => LeftSibling,
            (true, false) => RightSibling,
            (false, true) => LeftCousin,
            (false, false) => RightCousin,
        }
    };
    match guard(|| real(x).compare(real(y))) {
        Ok(c) if c == want => {}
        c => mon.violation("address/compare", format!("{at}: {c:?}, expected {want:?}")),
    }
    // down from the root again
    let down = guard(|| {
        let mut b = BranchAddress::root(64);
        for (i, d) in bx.iter().enumerate() {
            let dir = if *d { Dir::Right } else { Dir::Left };
            match b.child(dir) {
                Ok(n) => b = n,
                Err(a) => return (i, format!("leaf {a:?}")),
            }
        }
        (bx.len(), format!("{b:?}"))
    });
    let want = (bx.len(), format!("{:?}", real(x)));
    match down {
        Ok(d) if d == want => {}
        d => mon.violation("address/child", format!("{x:x?}: {d:?}, expected {want:?}")),
    }
}

// ---- transactions ----

/// Where the events of one address went.
#[derive(Clone)]
enum T { L(H), N(H, Box<T>, Box<T>) }
impl T {
    fn h(&self) -> H { match self { T::L(h) | T::N(h, ..) => *h } }
    fn node(l: T, r: T) -> T { T::N(two(l.h(), r.h()), Box::new(l), Box::new(r)) }
    fn merge(l: T, r: T) -> T {
        match (l, r) {
            (T::N(_, a, b), T::N(_, c, d)) => T::node(T::merge(*a, *c), T::merge(*b, *d)),
            (l, r) => T::node(l, r),
        }
    }
    fn balanced(mut xs: Vec<T>) -> T {
        if xs.len() == 1 { return xs.pop().unwrap(); }
        let r = xs.split_off(xs.len().next_power_of_two() / 2);
        T::node(T::balanced(xs), T::balanced(r))
    }
}
type Map = BTreeMap<u64, T>;
fn merge_maps(mut a: Map, b: Map) -> Map {
    for (k, v) in b {
        let v = match a.remove(&k) { Some(o) => T::merge(o, v), None => v };
        a.insert(k, v);
    }
    a
}
fn fold_cast(xs: &[Map]) -> Map {
    if let [x] = xs { return x.clone(); }
    let k = xs.len().next_power_of_two() / 2;
    merge_maps(fold_cast(&xs[..k]), fold_cast(&xs[k..]))
}
fn root(m: &Map) -> Option<H> { present_root(64, &m.iter().map(|(a, t)| (*a, t.h())).collect()) }

fn digest(v: [F; 4]) -> Poseidon2Hash { Poseidon2Hash::from_u64s(v.map(u)) }
fn addr_of(e: &CanonicalEvent) -> u64 { u64::from_le_bytes(e.address.0) }
fn event_hash(owner: [F; 4], e: &CanonicalEvent) -> H {
    let mut v = owner.to_vec();
    v.push(f(u64::from(e.type_ as u8)));
    v.push(f(addr_of(e)));
    v.extend(e.value.to_u64s().map(|x| f(x % P)));
    hash(&v)
}

struct Tx {
    cast: Vec<usize>,
    call: [F; 4],
    events: Vec<Vec<CanonicalEvent>>,
    done: Vec<bool>,
    proofs: Vec<Proof>,
    key: Option<OngoingTxKey>,
    /// complete only in a later block
    late: Option<usize>,
}

struct World<'a> {
    programs: &'a [Program],
    tx: &'a AuxTransactionData,
    md: &'a AuxMatchesData,
    su: &'a AuxStateData,
    blk: &'a AuxBlockData,
    depth: usize,
}

impl World<'_> {
    fn cast_root(&self, cast: &[usize]) -> H {
        fn go(xs: &[H]) -> H {
            if let [x] = xs { return *x; }
            let k = xs.len().next_power_of_two() / 2;
            two_bytes(go(&xs[..k]), go(&xs[k..]))
        }
        go(&cast.iter().map(|p| H { elements: self.programs[*p].id }).collect::<Vec<_>>())
    }
    /// The program's own commitment to its events, as the SDK computes it.
    fn vm_root(events: &[CanonicalEvent]) -> Option<H> {
        if events.is_empty() { return None; }
        let m = merkleize(events.iter().map(|e| (addr_of(e), e.canonical_hash())).collect());
        Some(H { elements: m.to_u64s().map(|x| f(x % P)) })
    }
    fn prove(&self, t: &mut Tx) {
        let c = self.cast_root(&t.cast);
        t.proofs = t.cast.iter().zip(&t.events).map(|(p, e)| self.programs[*p].prove(Self::vm_root(e), t.call, c)).collect();
    }
    fn maps(&self, t: &Tx) -> Map {
        fold_cast(&t.cast.iter().zip(&t.events).map(|(p, es)| {
            let mut g: BTreeMap<u64, Vec<T>> = BTreeMap::new();
            for e in es { g.entry(addr_of(e)).or_default().push(T::L(event_hash(self.programs[*p].id, e))); }
            g.into_iter().map(|(a, ts)| (a, T::balanced(ts))).collect()
        }).collect::<Vec<_>>())
    }
}

fn new_tx(w: &World, r: &mut Rng, casts: &[usize]) -> Tx {
    let n = *r.pick(casts);
    let cast: Vec<usize> = (0..n).map(|_| r.idx(w.programs.len())).collect();
    Tx { events: vec![vec![]; n], done: vec![false; n], proofs: vec![], key: None, late: None, call: std::array::from_fn(|_| f(r.u64() % P)), cast }
}

/// What the block does to one address.
struct Plan { old: Obj, new: Obj, op: Operation, pieces: Vec<(Option<usize>, EventType, [F; 4])> }

/// `None` if there is nothing to do: events on objects that are not there do not match.
fn plan(w: &World, r: &mut Rng, height: u64, cur: Option<Obj>, can: &[usize]) -> Option<Plan> {
    use EventType::*;
    let old = cur.unwrap_or_default();
    let by = |o: [F; 4]| w.programs.iter().position(|p| p.id == o);
    let value = |r: &mut Rng| rnd4(r);
    let mut new = old;
    let mut pieces = vec![];
    let mut op = Operation::Read;
    match (cur, r.below(4)) {
        (None, 0..=2) if can.contains(&0) => {
            let o = *r.pick(can);
            if o != 0 {
                pieces.push((Some(0), GiveOwner, w.programs[o].id));
                pieces.push((Some(o), TakeOwner, [f(0); 4]));
                new = Obj { constraint_owner: w.programs[o].id, last_updated: f(height), ..Obj::default() };
                if r.chance(3, 4) {
                    new.data = value(r);
                    pieces.push((Some(0), Write, new.data));
                }
                op = Operation::Upsert(new);
            }
        }
        (Some(_), 0) if can.contains(&0) && by(old.constraint_owner).is_some_and(|o| can.contains(&o)) => {
            let o = by(old.constraint_owner).unwrap();
            pieces.push((Some(o), GiveOwner, [f(0); 4]));
            pieces.push((Some(0), TakeOwner, old.constraint_owner));
            if old.data != [f(0); 4] { pieces.push((Some(o), Write, [f(0); 4])); }
            new = Obj::default();
            op = Operation::Delete;
        }
        (Some(_), 1 | 2) if by(old.constraint_owner).is_some_and(|o| can.contains(&o)) => {
            new.data = value(r);
            new.last_updated = f(height);
            pieces.push((by(old.constraint_owner), Write, new.data));
            op = Operation::Upsert(new);
        }
        _ => {}
    }
    if pieces.is_empty() && cur.is_none() { return None; }
    let extra = match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(3), _ => r.below(6) };
    for _ in 0..extra + u64::from(pieces.is_empty()) {
        if r.chance(1, 2) { pieces.push((None, Read, old.data)); } else { pieces.push((None, Ensure, new.data)); }
    }
    Some(Plan { old, new, op, pieces })
}

fn put(t: &mut Tx, i: usize, a: u64, ty: EventType, v: [F; 4]) {
    let e = CanonicalEvent { address: StateAddress(a.to_le_bytes()), type_: ty, value: digest(v) };
    t.events[i].push(e);
    t.events[i].sort_by_key(|e| (addr_of(e), e.type_ as u8));
}

fn show(w: &World, txs: &[Tx]) -> String {
    txs.iter().enumerate().map(|(i, t)| format!("tx {i}: cast {:?}{} events {}\n", t.cast,
        t.late.map_or(String::new(), |l| format!(" (part {l} late)")),
        t.events.iter().map(|es| format!("[{}]", es.iter().map(|e| format!("{:?}@{:x} {:.8}", e.type_, addr_of(e), hash_dbg(&e.value).to_string())).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" "))).collect::<String>()
        + &format!("tree of {} levels", w.depth + 1)
}

#[allow(clippy::too_many_lines)]
fn chain(mon: &Mon, w: &World, r: &mut Rng, special: Option<&str>) {
    let mask = if w.depth == 63 { (1u64 << 63) - 1 } else { (1 << (w.depth + 1)) - 1 };
    let base = r.u64();
    let mut pool: Vec<u64> = (0..r.range(1, 7)).map(|_| match r.below(5) {
        0 => 0, 1 => mask, 2 => base ^ r.below(4), 3 => base ^ (1 << r.below(63)), _ => r.u64() } & mask).collect();
    pool.sort_unstable();
    pool.dedup();
    // never touched by a plan
    let spare = loop { let a = r.u64() & mask; if !pool.contains(&a) { break a; } };

    let mut map: BTreeMap<u64, Obj> = BTreeMap::new();
    let mut st = State::new(w.su, w.depth);
    for a in &pool {
        if special.is_some() || r.chance(1, 2) {
            let o = Obj { constraint_owner: w.programs[r.range(1, w.programs.len() as u64) as usize].id, last_updated: f(0), credits: f(0), data: rnd4(r) };
            map.insert(*a, o);
            st.apply_operation(Address(*a), Operation::Upsert(o));
        }
    }
    let kept = Obj { constraint_owner: w.programs[1].id, last_updated: f(0), credits: f(7), data: rnd4(r) };
    st.apply_operation(Address(spare), Operation::Upsert(kept));
    st.finalize();
    let mut blocks = Blocks::new(w.blk, st.verif_proof().new());
    let mut acc = TransactionAccumulator::new(w.tx);
    let mut matches = Matches::new(w.md);
    let mut pending: Vec<Tx> = vec![];
    let mut before: Option<(_, _, _)> = None;
    let n_blocks = if special.is_some() { 1 } else { r.range(1, 4) };
    for b in 0..n_blocks {
        let height = blocks.height() + 1;
        mon.eval();
        if height != b + 1 { mon.violation("height", format!("height {} before block {b}", blocks.height())); }

        // -- what happens in this block
        let casts: &[usize] = *r.pick(&[&[1usize, 2][..], &[1, 1, 2, 3, 4], &[3, 5, 6, 7], &[2, 6, 9, 12, 16]]);
        let mut txs: Vec<Tx> = std::mem::take(&mut pending);
        for t in &mut txs { t.late = None; }
        let carried = txs.len();
        for _ in 0..r.range(1, 5) { txs.push(new_tx(w, r, casts)); }
        for t in &mut txs[carried..] {
            if t.cast.len() > 1 && r.chance(1, 6) { t.late = Some(r.idx(t.cast.len())); }
        }
        let ready: Vec<usize> = (carried..txs.len()).filter(|i| txs[*i].late.is_none()).collect();
        let mut can: Vec<usize> = ready.iter().flat_map(|i| txs[*i].cast.clone()).collect();
        can.sort_unstable();
        can.dedup();
        let mut plans: BTreeMap<u64, Plan> = BTreeMap::new();
        if !ready.is_empty() {
            for a in &pool {
                if r.chance(1, 4) { continue; }
                let Some(p) = plan(w, r, height, map.get(a).copied(), &can) else { continue };
                for (who, ty, v) in &p.pieces {
                    let slots: Vec<(usize, usize)> = ready.iter().flat_map(|i| txs[*i].cast.iter().enumerate().map(move |(k, c)| (*i, k, *c)))
                        .filter(|(_, _, c)| who.map_or(true, |p| p == *c)).map(|(i, k, _)| (i, k)).collect();
                    let (i, k) = *r.pick(&slots);
                    put(&mut txs[i], k, *a, *ty, *v);
                }
                plans.insert(*a, p);
            }
        }
        for t in &mut txs[carried..] {
            // what nobody changes reads the same later
            if t.late.is_some() { let i = r.idx(t.cast.len()); put(t, i, spare, EventType::Read, kept.data); }
        }
        if let Some(s) = special {
            // one address, the events spread as named
            for t in &mut txs { for e in &mut t.events { e.clear(); } t.late = None; }
            plans.clear();
            let cur = map.get(&pool[0]).copied();
            let old = cur.unwrap_or_default();
            match s {
                "four-events-of-one-program" => {
                    for _ in 0..4 { put(&mut txs[0], 0, pool[0], EventType::Read, old.data); }
                }
                _ => {
                    let mut t = new_tx(w, r, &[2]);
                    for _ in 0..2 { put(&mut t, 0, pool[0], EventType::Read, old.data); }
                    txs[0] = new_tx(w, r, &[1]);
                    for _ in 0..2 { put(&mut txs[0], 0, pool[0], EventType::Read, old.data); }
                    txs.push(t);
                }
            }
            plans.insert(pool[0], Plan { old, new: old, op: Operation::Read, pieces: vec![] });
        }
        for t in &mut txs[carried..] { w.prove(t); }
        let desc = format!("block {b}\n{}", show(w, &txs));

        // -- parts arrive
        let mut queue: Vec<(usize, usize)> = txs.iter().enumerate().flat_map(|(i, t)| (0..t.cast.len()).filter(|k| !t.done[*k] && t.late != Some(*k)).map(move |k| (i, k)).collect::<Vec<_>>()).collect();
        r.shuffle(&mut queue);
        let mut order = vec![];
        let mut arrived: Vec<(usize, usize)> = vec![];
        let none_yet = guard(|| acc.finalize().is_err()) == Ok(true);
        mon.eval();
        if !none_yet { mon.violation("finalize/nothing-complete", desc.clone()); }
        for (i, k) in queue {
            let t = &txs[i];
            let ids: Vec<ProgramIdentifier> = t.cast.iter().map(|p| w.programs[*p].pid()).collect();
            let p = &w.programs[t.cast[k]];
            let proof = &t.proofs[k];
            if r.chance(1, 4) {
                // something else in its place first
                let (what, res) = match r.below(6) {
                    0 => {
                        let mut call = t.call;
                        call[r.idx(4)] += f(1);
                        let other = p.prove(World::vm_root(&t.events[k]), call, w.cast_root(&t.cast));
                        ("another call tape", guard(|| acc.ingest_program(k, &p.circuit.verifier_only, &other, &ids, &t.events[k], t.call)))
                    }
                    1 => {
                        let other = p.prove(World::vm_root(&t.events[k]), t.call, two_bytes(w.cast_root(&t.cast), H::default()));
                        ("another cast list", guard(|| acc.ingest_program(k, &p.circuit.verifier_only, &other, &ids, &t.events[k], t.call)))
                    }
                    2 => {
                        let mut es = t.events[k].clone();
                        let more = CanonicalEvent { address: StateAddress(r.u64().to_le_bytes().map(|x| x & 0x7f)), type_: EventType::Read, value: digest(rnd4(r)) };
                        if es.is_empty() || r.chance(1, 2) {
                            es.push(more);
                            es.sort_by_key(|e| (addr_of(e), e.type_ as u8));
                        } else { let at = r.idx(es.len()); es.remove(at); }
                        ("other events", guard(|| acc.ingest_program(k, &p.circuit.verifier_only, proof, &ids, &es, t.call)))
                    }
                    3 => ("an index outside the cast list", guard(|| acc.ingest_program(ids.len() + r.idx(3), &p.circuit.verifier_only, proof, &ids, &t.events[k], t.call))),
                    4 => {
                        let q = &w.programs[(t.cast[k] + 1) % w.programs.len()];
                        let other = q.prove(World::vm_root(&t.events[k]), t.call, w.cast_root(&t.cast));
                        ("another program", guard(|| acc.ingest_program(k, &q.circuit.verifier_only, &other, &ids, &t.events[k], t.call)))
                    }
                    _ => match arrived.iter().filter(|(j, l)| *j == i && txs[*j].done[*l]).last() {
                        // again, while its transaction is waiting for others
                        Some((_, l)) => {
                            let q = &w.programs[t.cast[*l]];
                            ("the same part again", guard(|| acc.ingest_program(*l, &q.circuit.verifier_only, &t.proofs[*l], &ids, &t.events[*l], t.call)))
                        }
                        None => ("", Err(String::new())),
                    },
                };
                if !what.is_empty() {
                    mon.count("misfits offered", 1);
                    mon.eval();
                    if let Ok(Ok(_)) = res { mon.violation(&format!("misfit-accepted/{what}"), format!("{desc}\npart {k} of tx {i}")); return; }
                }
            }
            let left = t.done.iter().filter(|d| !**d).count();
            let res = guard(|| acc.ingest_program(k, &p.circuit.verifier_only, proof, &ids, &t.events[k], t.call));
            mon.eval();
            mon.count("parts ingested", 1);
            let key = match res {
                Ok(Ok((key, complete))) => {
                    if complete != (left == 1) {
                        mon.violation("completion", format!("{desc}\npart {k} of tx {i}, {left} missing: complete {complete}"));
                        return;
                    }
                    if complete { order.push(i); }
                    key
                }
                e => {
                    mon.violation("part-refused", format!("{desc}\npart {k} of tx {i} after {arrived:?}: {:?}", e.map(|x| x.map(|_| ()).map_err(|e| e.to_string()))));
                    return;
                }
            };
            if txs[i].key.is_some_and(|o| o != key) || txs.iter().enumerate().any(|(j, t)| j != i && t.key == Some(key)) {
                mon.violation("key", format!("{desc}\npart {k} of tx {i}: {key:?}"));
            }
            txs[i].key = Some(key);
            txs[i].done[k] = true;
            arrived.push((i, k));
            matches.ingest_events(key, &w.programs[txs[i].cast[k]].pid(), &txs[i].events[k]);
        }
        mon.nontrivial(fnv(format!("{desc}{arrived:?}").as_bytes()));

        // -- the transactions' proof
        let res = guard(|| acc.finalize());
        mon.eval();
        let tx_proof = match (res, order.is_empty()) {
            (Ok(Err(_)), true) => None,
            (Ok(Ok(p)), false) => Some(p),
            (res, _) => {
                mon.violation("finalize", format!("{desc}\ncompleted {order:?}: {:?}", res.map(|x| x.map(|_| "proof").map_err(|e| e.to_string()))));
                return;
            }
        };
        let mut want_tx = Map::new();
        for i in &order { want_tx = merge_maps(want_tx, w.maps(&txs[*i])); }
        if let Some(p) = &tx_proof {
            mon.eval();
            let got = p.events_present().then(|| p.events());
            if got != root(&want_tx) {
                mon.violation("tx-events", format!("{desc}\narrival {arrived:?}\ncompleted {order:?}\nevents {got:?}, expected {:?}", root(&want_tx)));
                return;
            }
            mon.count("transactions in proofs", order.len() as u64);
        }

        // -- the matches' proof
        let mut rest: Map = Map::new();
        let mut done = order.clone();
        if r.chance(1, 2) { r.shuffle(&mut done); }
        let same_order = done == order;
        // events are folded per transaction as they came
        let mut lines: BTreeMap<usize, Map> = BTreeMap::new();
        for t in 0..txs.len() { lines.insert(t, Map::new()); }
        // parts of carried transactions came in earlier blocks
        for (i, t) in txs.iter().enumerate().take(carried) {
            for k in 0..t.cast.len() {
                if t.done[k] && !arrived.contains(&(i, k)) {
                    for e in &t.events[k] { fold_line(lines.get_mut(&i).unwrap(), w.programs[t.cast[k]].id, e); }
                }
            }
        }
        for (i, k) in &arrived {
            for e in &txs[*i].events[*k] { fold_line(lines.get_mut(i).unwrap(), w.programs[txs[*i].cast[*k]].id, e); }
        }
        for i in &done {
            mon.eval();
            if !matches!(guard(|| matches.ready_tx(txs[*i].key.unwrap()).is_ok()), Ok(true)) {
                mon.violation("ready-refused", format!("{desc}\ntx {i}"));
            }
            if guard(|| matches.ready_tx(txs[*i].key.unwrap()).is_err()) != Ok(true) {
                mon.violation("ready-twice", format!("{desc}\ntx {i}"));
            }
            for (a, t) in lines.remove(i).unwrap() {
                let t = match rest.remove(&a) { Some(o) => T::node(o, t), None => t };
                rest.insert(a, t);
            }
        }
        // late transactions' reads
        let mut touched: BTreeMap<u64, (Obj, Obj)> = plans.iter().map(|(a, p)| (*a, (p.old, p.new))).collect();
        if rest.contains_key(&spare) { touched.insert(spare, (kept, kept)); }
        mon.eval();
        if touched.keys().ne(rest.keys()) {
            // a plan's events all belong to completed transactions
            mon.violation("harness/addresses", format!("{desc}\n{:x?}\n{:x?}", touched.keys(), rest.keys()));
            return;
        }
        let match_proof = if rest.is_empty() { None } else {
            let mut asked = vec![];
            let res = guard(|| matches.finalize(height, |a| { asked.push(a.0); touched.get(&a.0).copied().unwrap_or_default() }));
            mon.eval();
            asked.sort_unstable();
            if asked.iter().ne(rest.keys()) { mon.violation("match-addresses", format!("{desc}\nasked for {asked:x?}, expected {:x?}", rest.keys())); }
            match res {
                Err(e) => { mon.violation("match-refused", format!("{desc}\narrival {arrived:?}\n{e}")); return; }
                Ok(p) => {
                    let sums = touched.iter().map(|(a, (o, n))| (*a, summary(*a, obj_hash(o), obj_hash(n)))).collect();
                    if Some(p.events()) != root(&rest) {
                        mon.violation("match-events", format!("{desc}\narrival {arrived:?}\n{:?}, expected {:?}", p.events(), root(&rest)));
                    }
                    if Some(p.state_hash()) != present_root(64, &sums) {
                        mon.violation("match-state", format!("{desc}\n{:?}, expected {:?}", p.state_hash(), present_root(64, &sums)));
                    }
                    if p.block_height() != height { mon.violation("match-height", format!("{desc}\n{}", p.block_height())); }
                    Some(p)
                }
            }
        };

        // -- the state's
        for (a, p) in &plans {
            st.apply_operation(Address(*a), match p.op { Operation::Upsert(o) => Operation::Upsert(o), Operation::Delete => Operation::Delete, Operation::Read => Operation::Read });
        }
        if rest.contains_key(&spare) { st.apply_operation(Address(spare), Operation::Read); }

        // -- the block
        if let (Some(tp), Some(mp)) = (&tx_proof, &match_proof) {
            if let Some((a, b, c)) = &before {
                mon.eval();
                mon.count("replayed blocks", 1);
                if matches!(guard(|| blocks.increment(a, b, c)), Ok(Ok(()))) { mon.violation("replay", format!("{desc}\nthe previous block's proofs again")); return; }
                if matches!(guard(|| blocks.increment(tp, b, st.verif_proof())), Ok(Ok(()))) { mon.violation("replay-match", desc.clone()); return; }
            }
            if blocks.height() + 1 != height { mon.violation("height-moved", format!("{desc}\n{} after refusals", blocks.height())); return; }
            let same = root(&want_tx) == root(&rest);
            let res = guard(|| blocks.increment(tp, mp, st.verif_proof()));
            mon.eval();
            match (same, matches!(res, Ok(Ok(())))) {
                (true, true) => mon.count("blocks", 1),
                (false, false) => {
                    mon.count(if same_order { "blocks whose two sides shape an address's events differently" } else { "blocks whose transactions became ready in another order" }, 1);
                    if let Some(s) = special { mon.violation(&format!("unprovable/{s}"), format!("{desc}\nthe events' two proofs differ: {:?} and {:?}", root(&want_tx), root(&rest))); }
                    return;
                }
                (true, false) => { mon.violation("block-refused", format!("{desc}\narrival {arrived:?}\n{:?}", res.map(|x| x.map_err(|e| e.to_string())))); return; }
                (false, true) => { mon.violation("block-accepted", desc.clone()); return; }
            }
            if blocks.height() != height { mon.violation("height", format!("{desc}\n{} after the block", blocks.height())); }
            before = Some((tx_proof.unwrap(), match_proof.unwrap(), st.verif_proof().clone()));
        } else if !plans.is_empty() || tx_proof.is_some() && match_proof.is_none() {
            // nothing to match: no block can be made of it
            mon.count("blocks without events", 1);
            return;
        }
        if special.is_some() { return; }
        st.finalize();
        for (a, p) in &plans {
            match &p.op {
                Operation::Upsert(o) => { map.insert(*a, *o); }
                Operation::Delete => { map.remove(a); }
                Operation::Read => {}
            }
        }
        if b == 0 { mon.sample(json!({"block": desc, "arrival": format!("{arrived:?}"), "completed": format!("{order:?}")})); }
        pending = txs.into_iter().filter(|t| t.done.iter().any(|d| !*d)).collect();
        mon.count("transactions left pending", pending.len() as u64);
        if match_proof_none(&before, height) { return; }
    }
}

/// No block was made, so heights no longer line up.
fn match_proof_none<A, B: Height, Cc>(before: &Option<(A, B, Cc)>, height: u64) -> bool { before.as_ref().map_or(true, |b| b.1.h() != height) }
trait Height { fn h(&self) -> u64; }
impl Height for mozak_recproofs::circuits::match_delta::BranchProof<F, C, D> { fn h(&self) -> u64 { self.block_height() } }

fn fold_line(m: &mut Map, owner: [F; 4], e: &CanonicalEvent) {
    let t = T::L(event_hash(owner, e));
    let t = match m.remove(&addr_of(e)) { Some(o) => T::node(o, t), None => t };
    m.insert(addr_of(e), t);
}

pub fn run() -> ! {
    let mon = Arc::new(Mon::new("C41"));
    mon.assume("the stand-in proof system: a proof exists exactly if the circuit's conditions hold for its witness");
    mon.assume("programs' own proofs are stand-ins with the public values of the recursive VM circuit");
    let mut r = mon.rng(0);
    let mut ids = vec![[f(0); 4]];
    for _ in 0..5 { ids.push(std::array::from_fn(|_| f(r.u64() % P))); }
    let programs: Vec<Program> = ids.into_iter().map(Program::new).collect();
    let tx = AuxTransactionData::new(&CONFIG, &programs[0].indices(), &programs[0].circuit.common);
    let md = AuxMatchesData::new(&CONFIG);
    let (small, deep) = (AuxStateData::new(&CONFIG, 8), AuxStateData::new(&CONFIG, 63));
    let (bs, bd) = (AuxBlockData::new(&CONFIG, &tx, &md, &small), AuxBlockData::new(&CONFIG, &tx, &md, &deep));
    let worlds = [
        World { programs: &programs, tx: &tx, md: &md, su: &small, blk: &bs, depth: 8 },
        World { programs: &programs, tx: &tx, md: &md, su: &deep, blk: &bd, depth: 63 },
    ];
    for s in ["four-events-of-one-program", "two-transactions-two-events-each"] { chain(&mon, &worlds[0], &mut mon.rng(1), Some(s)); }
    let (n, m) = (mon.n(1800, 60000), mon.n(20000, 1_000_000));
    let w = cores();
    parallel(w, |t| {
        for i in (0..m).filter(|i| i % w == t) {
            let mut r = mon.rng(1_000_000 + i);
            reductions(&mon, &mut r);
            addresses(&mon, &mut r);
        }
        for i in (0..n).filter(|i| i % w == t) {
            if !mon.within(400, 3600) { return; }
            let mut r = mon.rng(10 + i);
            chain(&mon, &worlds[r.idx(2)], &mut r, None);
        }
    });
    mon.finish("lists and address-sorted lists reduced and compared with the expected trees; branch addresses compared with bit strings; chains of blocks whose transactions' parts arrive in random order among misfitting ones: completions, transaction, event and state roots and block acceptance compared with a reference, transactions that miss a part carried over")
}

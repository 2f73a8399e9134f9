//! C40: the node's sparse state tree against a reference map, after every operation.
use std::collections::BTreeMap;
use std::sync::Arc;

use mozak_node::block_proposer::state::{AuxStateData, Operation, State};
use mozak_node::block_proposer::Address;
use mozak_recproofs::test_utils::CONFIG;
use monlib::{cores, fnv, guard, hash_dbg, json, parallel, Mon, Rng};

use crate::native::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Touch { Read, Write, Delete }

/// What one address went through in the running block.
#[derive(Clone, Copy, Debug)]
struct Entry { old: Option<Obj>, new: Option<Obj>, touch: Touch }

struct Model { levels: u32, map: BTreeMap<u64, Obj>, block: BTreeMap<u64, Entry> }

impl Model {
    fn state(&self, a: u64) -> (Option<Obj>, Option<Obj>) {
        match self.block.get(&a) {
            Some(e) => (e.old, e.new),
            None => (self.map.get(&a).copied(), self.map.get(&a).copied()),
        }
    }
    /// false: this operation conflicts with what the block did before
    fn apply(&mut self, a: u64, op: &Operation) -> bool {
        let had = self.block.get(&a).copied();
        let cur = self.map.get(&a).copied();
        let e = match (had, op) {
            (None, Operation::Read) => Entry { old: cur, new: cur, touch: Touch::Read },
            (None, Operation::Delete) => Entry { old: cur, new: None, touch: Touch::Delete },
            (None, Operation::Upsert(o)) => Entry { old: cur, new: Some(*o), touch: Touch::Write },
            (Some(e), Operation::Read) => e,
            (Some(e), Operation::Delete) => match e.touch {
                Touch::Read => if e.old.is_some() { Entry { new: None, touch: Touch::Delete, ..e } } else { e },
                Touch::Delete => e,
                Touch::Write => return false,
            },
            (Some(e), Operation::Upsert(o)) => match e.touch {
                Touch::Read => Entry { new: Some(*o), touch: Touch::Write, ..e },
                Touch::Delete => return false,
                Touch::Write => if e.new == Some(*o) { e } else { return false },
            },
        };
        self.block.insert(a, e);
        true
    }
    fn empty() -> H { obj_hash(&Obj::default()) }
    fn h(o: Option<Obj>) -> H { o.map_or(Self::empty(), |o| obj_hash(&o)) }
    fn root(&self, new: bool) -> H {
        let mut m: BTreeMap<u64, H> = self.map.iter().map(|(a, o)| (*a, obj_hash(o))).collect();
        if new { for (a, e) in &self.block { m.insert(*a, Self::h(e.new)); } }
        sparse_root(self.levels, &m, Self::empty())
    }
    fn summary(&self) -> Option<H> {
        let m = self.block.iter().map(|(a, e)| (*a, summary(*a, Self::h(e.old), Self::h(e.new)))).collect();
        present_root(self.levels, &m)
    }
    fn finish(&mut self) {
        for (a, e) in std::mem::take(&mut self.block) {
            match e.new { Some(o) => { self.map.insert(a, o); } None => { self.map.remove(&a); } }
        }
    }
}

fn check(mon: &Mon, st: &State, m: &Model, pool: &[u64], at: &str, log: &str) {
    mon.eval();
    for a in pool {
        let got = st.get_state(Address(*a));
        let got = (got.0.copied(), got.1.copied());
        if got != m.state(*a) {
            mon.violation(&format!("lookup/{at}"), format!("{log}\nobject at {a:#x}: got {got:?}, expected {:?}", m.state(*a)));
        }
    }
    let p = st.verif_proof();
    if p.old() != m.root(false) {
        mon.violation(&format!("old-root/{at}"), format!("{log}\nold root {:?}, the map's is {:?}", p.old(), m.root(false)));
    }
    if p.new() != m.root(true) {
        mon.violation(&format!("new-root/{at}"), format!("{log}\nnew root {:?}, the map's is {:?}", p.new(), m.root(true)));
    }
    let got = p.summary_present().then(|| p.summary());
    if got != m.summary() {
        mon.violation(&format!("summary/{at}"), format!("{log}\nsummary {got:?}, expected {:?}", m.summary()));
    }
    if p.address_present() != m.summary().is_some() || (p.address_present() && p.address() != 0) {
        mon.violation(&format!("address/{at}"), format!("{log}\nroot address {:?} {}", p.address_present(), p.address()));
    }
}

fn history(mon: &Mon, aux: &AuxStateData, r: &mut Rng, depth: u32, max_ops: u64) {
    let levels = depth + 1;
    let mask = if levels == 64 { u64::MAX } else { (1 << levels) - 1 };
    let base = r.u64() & mask;
    let mut pool: Vec<u64> = vec![];
    for _ in 0..r.range(2, 7) {
        let a = match r.below(6) {
            0 => 0,
            1 => mask,
            2 | 3 => base ^ r.below(4),
            4 => base ^ (1 << r.below(u64::from(levels))),
            _ => r.u64(),
        } & mask;
        // beyond the field: see `edges`
        pool.push(if a >= P - 1 { a & 0x7fff_ffff_ffff_ffff } else { a });
    }
    pool.sort_unstable();
    pool.dedup();
    let objs: Vec<Obj> = (0..4).map(|i| if i == 0 && r.chance(1, 3) { Obj::default() } else { rnd_obj(r) }).collect();
    let mut st = State::new(aux, depth as usize);
    let mut m = Model { levels, map: BTreeMap::new(), block: BTreeMap::new() };
    let mut log = format!("tree of {levels} levels");
    check(mon, &st, &m, &pool, "new", &log);
    let blocks = r.range(1, 6);
    for b in 0..blocks {
        let n = r.below(max_ops + 1);
        let mut ops = vec![];
        for _ in 0..n {
            let a = *r.pick(&pool);
            let op = match r.below(5) {
                0 | 1 => Operation::Upsert(*r.pick(&objs)),
                2 => Operation::Read,
                _ => Operation::Delete,
            };
            ops.push((a, op));
        }
        for (a, op) in ops {
            let mut probe = Model { levels, map: m.map.clone(), block: m.block.clone() };
            if !probe.apply(a, &op) {
                // only as the last thing this tree does: a refusal leaves it unusable
                if r.chance(1, 12) {
                    mon.count("conflicts refused", 1);
                    mon.eval();
                    if guard(|| st.apply_operation(Address(a), op)).is_ok() {
                        mon.violation("conflict/accepted", format!("{log}\nblock {b}: {op:?} at {a:#x} after {:?}", m.block.get(&a)));
                    }
                    return;
                }
                continue;
            }
            log += &format!("\nblock {b}: {a:#x} {}", match op { Operation::Upsert(o) => format!("upsert {:x}", hash_dbg(&o)), o => format!("{o:?}") });
            m = probe;
            mon.count("operations", 1);
            if let Err(e) = guard(|| st.apply_operation(Address(a), op)) {
                mon.violation("operation/refused", format!("{log}\nrefused: {e}"));
                return;
            }
            if r.chance(1, 2) { check(mon, &st, &m, &pool, "op", &log); }
        }
        check(mon, &st, &m, &pool, "block", &log);
        mon.nontrivial(fnv(format!("{depth}{:?}", m.block).as_bytes()));
        if r.chance(1, 3) && !m.block.is_empty() {
            // the same final effect reached by another history
            let mut other = State::new(aux, depth as usize);
            for (a, o) in &m.map { other.apply_operation(Address(*a), Operation::Upsert(*o)); }
            other.finalize();
            let mut es: Vec<_> = m.block.iter().collect();
            r.shuffle(&mut es);
            for (a, e) in es {
                other.apply_operation(Address(*a), match (e.touch, e.new) {
                    (Touch::Read, _) => Operation::Read,
                    (Touch::Write, Some(o)) => Operation::Upsert(o),
                    _ => Operation::Delete,
                });
            }
            let (p, q) = (st.verif_proof(), other.verif_proof());
            mon.count("replays in another order", 1);
            mon.eval();
            if (p.old(), p.new(), p.summary()) != (q.old(), q.new(), q.summary()) {
                mon.violation("history-dependent", format!("{log}\nanother order of the same effects gives {:?} {:?}", q.old(), q.new()));
            }
        }
        log += "\nfinalize";
        if let Err(e) = guard(|| st.finalize()) {
            mon.violation("finalize/refused", format!("{log}\n{e}"));
            return;
        }
        let gone: Vec<u64> = m.block.iter().filter(|(_, e)| e.old.is_some() && e.new.is_none()).map(|x| *x.0).collect();
        mon.count("deletions finalised", gone.len() as u64);
        m.finish();
        mon.count("blocks", 1);
        check(mon, &st, &m, &pool, "finalized", &log);
        for a in gone {
            if st.get_state(Address(a)) != (None, None) {
                mon.violation("deleted-object-remains", format!("{log}\n{a:#x}"));
            }
        }
    }
    mon.sample(json!({"levels": levels, "addresses": pool.len(), "blocks": blocks, "history": log}));
}

/// Addresses the field cannot tell apart from others.
fn edges(mon: &Mon, aux: &AuxStateData) {
    for a in [P - 2, P - 1, P, P + 1, u64::MAX] {
        mon.eval();
        let o = Obj { credits: f(5), ..Obj::default() };
        let r = guard(|| {
            let mut st = State::new(aux, 63);
            st.apply_operation(Address(a), Operation::Upsert(o));
            let p = st.verif_proof();
            (p.new(), p.summary_present(), p.address())
        });
        let want = sparse_root(64, &[(a, obj_hash(&o))].into_iter().collect(), Model::empty());
        match r {
            Ok((n, true, 0)) if n == want => {}
            r => mon.violation(&format!("address-beyond-field/{a:#x}"), format!("object created at {a:#x}: {r:?}")),
        }
    }
}

pub fn run() -> ! {
    let mon = Arc::new(Mon::new("C40"));
    mon.assume("the stand-in proof system: a proof exists exactly if the circuit's conditions hold for its witness");
    let small = AuxStateData::new(&CONFIG, 8);
    let deep = AuxStateData::new(&CONFIG, 63);
    edges(&mon, &deep);
    let n = mon.n(6000, 200_000);
    let w = cores();
    parallel(w, |t| {
        for i in 0..n {
            if i % w != t { continue; }
            let mut r = mon.rng(i);
            let (aux, depth, ops) = match r.below(10) {
                0 => (&deep, 63, 4),
                1 => (&small, 8, 8),
                2 | 3 => (&small, 0, 5),
                4 | 5 => (&small, 1, 8),
                6 | 7 => (&small, 2, 10),
                _ => (&small, r.range(3, 8) as u32, 10),
            };
            if !mon.within(400, 3600) { return; }
            history(&mon, aux, &mut r, depth, ops);
        }
    });
    mon.finish("the node's state tree driven through random histories of reads, upserts, deletions and block ends on trees of 1 to 64 levels; after operations, blocks and finalisation its lookups and the public values of its root proof compared with a reference map and natively computed roots")
}

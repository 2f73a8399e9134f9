//! Independent reference computations.
use monlib::poseidon::{hash_bytes, hash_pad, two_to_one};

use crate::scenario::{Ev, Id};

/// Root of the compressed binary trie; `l` sorted by address.
pub fn merkle(l: &[(u64, Id)]) -> Id {
    if l.is_empty() {
        return [0; 32];
    }
    let mut nodes: Vec<(u64, Id)> = vec![];
    let mut i = 0;
    while i < l.len() {
        let j = (i..l.len()).find(|j| l[*j].0 != l[i].0).unwrap_or(l.len());
        let mut g: Vec<Id> = l[i..j].iter().map(|x| x.1).collect();
        while g.len() > 1 {
            g = g.chunks(2).map(|c| if c.len() == 2 { two_to_one(c[0], c[1]) } else { c[0] }).collect();
        }
        nodes.push((l[i].0, g[0]));
        i = j;
    }
    fn trie(n: &[(u64, Id)]) -> Id {
        if n.len() == 1 {
            return n[0].1;
        }
        let top = 63 - (n[0].0 ^ n[n.len() - 1].0).leading_zeros();
        let mid = n.iter().position(|x| (x.0 >> top) & 1 == 1).unwrap();
        two_to_one(trie(&n[..mid]), trie(&n[mid..]))
    }
    trie(&nodes)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Canon {
    pub addr: [u8; 8],
    pub ty: u8,
    pub value: Id,
}
impl Canon {
    pub fn of(e: &Ev) -> Canon { Canon { addr: e.addr, ty: e.ty, value: hash_pad(&e.data) } }

    pub fn hash(&self) -> Id {
        let mut b = u64::from(self.ty).to_le_bytes().to_vec();
        b.extend(self.addr);
        b.extend(self.value);
        hash_bytes(&b)
    }

    pub fn key(&self) -> (u64, u8, Id) { (u64::from_le_bytes(self.addr), self.ty, self.value) }
}

/// Emission positions in canonical order.
pub fn canonical_order(c: &[Canon]) -> Vec<usize> {
    let mut o: Vec<usize> = (0..c.len()).collect();
    o.sort_by_key(|i| (c[*i].key(), *i));
    o
}

pub fn events_root(c: &[Canon]) -> Id {
    let o = canonical_order(c);
    merkle(&o.iter().map(|i| (u64::from_le_bytes(c[*i].addr), c[*i].hash())).collect::<Vec<_>>())
}

pub fn cast_root(callees: impl IntoIterator<Item = Id>) -> Id {
    let s: std::collections::BTreeSet<Id> = callees.into_iter().collect();
    merkle(&s.into_iter().enumerate().map(|(i, x)| (i as u64, x)).collect::<Vec<_>>())
}

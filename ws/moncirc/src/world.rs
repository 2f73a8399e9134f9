//! One set of traces under attack: cells can be changed, and the violated constraints and unbalanced
//! relations are kept up to date; `repair` searches for further changes that make all of them hold.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::OnceLock;

use mozak_circuits::stark::mozak_stark::TableKind;
use monlib::Rng;
use plonky2::field::types::{Field, Field64, PrimeField64};

use crate::sys::{self, col, lookups, tabs, u, Bag, Traces, F};

pub type Cell = (usize, usize, usize);

/// What is violated: a constraint of a table on a row, or the balance of one tuple of a relation.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Item {
    Constraint(usize, usize, usize),
    Tuple(usize, Vec<u64>),
}

impl Item {
    /// The same without the place.
    pub fn class(&self) -> String {
        match self {
            Item::Constraint(t, _, c) => format!("{:?}/{c}", tabs()[*t].kind()),
            Item::Tuple(l, _) => format!("relation/{l}"),
        }
    }
}

pub fn index(k: TableKind) -> usize { tabs().iter().position(|t| t.kind() == k).unwrap() }

/// Sides of relations by table: (relation, side).
fn sides(t: usize) -> &'static [(usize, usize)] {
    static S: OnceLock<Vec<Vec<(usize, usize)>>> = OnceLock::new();
    &S.get_or_init(|| {
        tabs()
            .iter()
            .map(|t| {
                let mut v = vec![];
                for (l, ss) in lookups().iter().enumerate() {
                    for (i, s) in ss.iter().enumerate() {
                        if s.kind == t.kind() {
                            v.push((l, i));
                        }
                    }
                }
                v
            })
            .collect()
    })[t]
}

/// Cells every constraint depends on: (next row?, column).
pub fn support(t: usize) -> &'static Vec<Vec<(bool, usize)>> {
    static S: OnceLock<Vec<Vec<Vec<(bool, usize)>>>> = OnceLock::new();
    &S.get_or_init(|| {
        tabs()
            .iter()
            .map(|t| {
                let n = t.columns();
                let mut r = Rng::new(99);
                let mut f = |k: usize| (0..k).map(|_| F::from_noncanonical_u64(r.u64())).collect::<Vec<F>>();
                let (lv, nv, pi) = (f(n), f(n), f(t.public_inputs()));
                let base = t.values(&lv, &nv, &pi);
                let mut out = vec![vec![]; base.len()];
                for nx in [false, true] {
                    for c in 0..n {
                        let (mut a, mut b) = (lv.clone(), nv.clone());
                        let x = if nx { &mut b } else { &mut a };
                        x[c] += F::from_canonical_u64(0x1234_5678_9abc);
                        for (i, v) in t.values(&a, &b, &pi).iter().enumerate() {
                            if *v != base[i] {
                                out[i].push((nx, c));
                            }
                        }
                    }
                }
                out
            })
            .collect()
    })[t]
}

/// Relations whose provider is a pure table of facts: any true fact can be added to it.
fn fact(l: usize, t: &[u64]) -> bool {
    static NAMES: OnceLock<Vec<u8>> = OnceLock::new();
    let kinds = NAMES.get_or_init(|| {
        lookups()
            .iter()
            .map(|ss| {
                let has = |k: TableKind| ss.iter().any(|s| s.kind == k);
                if has(TableKind::RangeCheck) && ss.iter().all(|s| s.kind != TableKind::RangeCheckU8) {
                    1
                } else if has(TableKind::Xor) && ss.iter().any(|s| s.cols.len() == 3) {
                    2
                } else if has(TableKind::Bitshift) && ss.iter().all(|s| s.kind != TableKind::RangeCheck) {
                    3
                } else if has(TableKind::RangeCheckU8) {
                    4
                } else {
                    0
                }
            })
            .collect()
    });
    match (kinds[l], t) {
        (1, [v]) => *v < 1 << 32,
        (2, [a, b, o]) => *a < 1 << 32 && *b < 1 << 32 && a ^ b == *o,
        (3, [a, m]) => *a < 32 && 1 << a == *m,
        (4, [v]) => *v < 256,
        _ => false,
    }
}

#[derive(Clone)]
pub struct World {
    pub rows: Vec<Vec<Vec<F>>>,
    pi: Vec<Vec<F>>,
    bad: BTreeMap<(usize, usize), Vec<usize>>,
    bags: Vec<Bag>,
    nbad: usize,
    pub frozen_cols: HashSet<(usize, usize)>,
    pub frozen: HashSet<Cell>,
    last: HashMap<Cell, u64>,
}

impl World {
    pub fn new(tr: &Traces, entry: u32) -> World {
        let mut w = World {
            rows: tabs().iter().map(|t| (0..sys::height(&tr[t.kind()])).map(|i| sys::row(&tr[t.kind()], i)).collect()).collect(),
            pi: tabs().iter().map(|t| sys::pis(t.kind(), entry)).collect(),
            bad: BTreeMap::new(),
            bags: vec![Bag::new(); lookups().len()],
            nbad: 0,
            frozen_cols: HashSet::new(),
            frozen: HashSet::new(),
            last: HashMap::new(),
        };
        for t in 0..w.rows.len() {
            for i in 0..w.rows[t].len() {
                w.check(t, i);
                w.contribute(t, i, F::ONE);
            }
        }
        w
    }

    pub fn traces(&self) -> Traces {
        let mut tr = Traces::default();
        for (t, rows) in tabs().iter().zip(&self.rows) {
            tr[t.kind()] = sys::from_rows(t.columns(), rows);
        }
        tr
    }

    fn pair(&self, t: usize, i: usize) -> (&[F], &[F]) {
        let r = &self.rows[t];
        (&r[i], &r[(i + 1) % r.len()])
    }

    fn check(&mut self, t: usize, i: usize) {
        let n = self.rows[t].len();
        let (lv, nv) = self.pair(t, i);
        let b = tabs()[t].all_bad(lv, nv, &self.pi[t], i == 0, i + 1 == n);
        let old = if b.is_empty() { self.bad.remove(&(t, i)) } else { self.bad.insert((t, i), b.clone()) };
        self.nbad = self.nbad + b.len() - old.map_or(0, |x| x.len());
    }

    fn contribute(&mut self, t: usize, i: usize, sign: F) {
        for &(l, s) in sides(t) {
            let (lv, nv) = self.pair(t, i);
            let s = &lookups()[l][s];
            let m = col(&s.filter, lv, nv) * sign;
            if m.is_zero() {
                continue;
            }
            let key: Vec<u64> = s.cols.iter().map(|c| u(col(c, lv, nv))).collect();
            let counted = !fact(l, &key);
            let e = self.bags[l].entry(key.clone()).or_insert(F::ZERO);
            let before = e.is_nonzero();
            *e += m;
            let after = e.is_nonzero();
            if !after {
                self.bags[l].remove(&key);
            }
            if counted {
                self.nbad = self.nbad + usize::from(after) - usize::from(before);
            }
        }
    }

    pub fn cost(&self) -> usize { self.nbad }

    /// Changes cells; returns the previous values.
    pub fn set(&mut self, ch: &[(Cell, F)]) -> Vec<(Cell, F)> {
        let mut rows: Vec<(usize, usize)> = vec![];
        for ((t, i, _), _) in ch {
            let n = self.rows[*t].len();
            for r in [(*t, *i), (*t, (*i + n - 1) % n)] {
                if !rows.contains(&r) {
                    rows.push(r);
                }
            }
        }
        for &(t, i) in &rows {
            self.contribute(t, i, F::NEG_ONE);
        }
        let mut old = vec![];
        for &((t, i, c), v) in ch {
            old.push(((t, i, c), self.rows[t][i][c]));
            self.rows[t][i][c] = v;
        }
        old.reverse();
        for &(t, i) in &rows {
            self.contribute(t, i, F::ONE);
            self.check(t, i);
        }
        old
    }

    pub fn violated(&self) -> Vec<Item> {
        let mut v: Vec<Item> = self.bad.iter().flat_map(|(&(t, i), cs)| cs.iter().map(move |&c| Item::Constraint(t, i, c))).collect();
        for (l, b) in self.bags.iter().enumerate() {
            let mut ks: Vec<_> = b.keys().filter(|k| !fact(l, k)).cloned().collect();
            ks.sort();
            v.extend(ks.into_iter().map(|k| Item::Tuple(l, k)));
        }
        v
    }

    fn free(&self, c: Cell) -> bool { !self.frozen.contains(&c) && !self.frozen_cols.contains(&(c.0, c.2)) }

    /// Solves one constraint for one cell.
    fn solve(&self, (t, i, c): (usize, usize, usize), cell: Cell, r: &mut Rng) -> Vec<F> {
        let (lv, nv) = self.pair(t, i);
        let (mut lv, mut nv) = (lv.to_vec(), nv.to_vec());
        let n = self.rows[t].len();
        let deg = 4;
        let mut ys = vec![];
        for x in 0..=deg {
            let x = F::from_canonical_usize(x);
            if cell.1 == i {
                lv[cell.2] = x;
            }
            if cell.1 == (i + 1) % n {
                nv[cell.2] = x;
            }
            ys.push(tabs()[t].values(&lv, &nv, &self.pi[t])[c]);
        }
        roots(&interpolate(&ys), r)
    }

    fn moves(&self, it: &Item, r: &mut Rng) -> Vec<Vec<(Cell, F)>> {
        let mut out: Vec<Vec<(Cell, F)>> = vec![];
        match it {
            Item::Constraint(t, i, c) => {
                let n = self.rows[*t].len();
                let mut sup: Vec<Cell> = support(*t)[*c].iter().map(|&(nx, k)| (*t, if nx { (i + 1) % n } else { *i }, k)).filter(|c| self.free(*c)).collect();
                r.shuffle(&mut sup);
                sup.truncate(10);
                for cell in sup {
                    for x in self.solve((*t, *i, *c), cell, r) {
                        if x != self.rows[cell.0][cell.1][cell.2] {
                            out.push(vec![(cell, x)]);
                        }
                    }
                }
            }
            Item::Tuple(l, key) => {
                let w = self.bags[*l].get(key).copied().unwrap_or(F::ZERO);
                // the tuple, and one that lacks the opposite
                let mut others: Vec<&Vec<u64>> = self.bags[*l].keys().filter(|k| *k != key).collect();
                others.sort();
                if others.len() > 4 {
                    r.shuffle(&mut others);
                    others.truncate(4);
                }
                let mut rows: Vec<(usize, usize, usize)> = vec![];
                for (si, s) in lookups()[*l].iter().enumerate() {
                    let t = index(s.kind);
                    for i in 0..self.rows[t].len() {
                        rows.push((si, t, i));
                    }
                }
                r.shuffle(&mut rows);
                let mut spare = 3;
                for (si, t, i) in rows {
                    if out.len() > 24 {
                        break;
                    }
                    let s = &lookups()[*l][si];
                    let (lv, nv) = self.pair(t, i);
                    let m = col(&s.filter, lv, nv);
                    let here: Vec<u64> = s.cols.iter().map(|c| u(col(c, lv, nv))).collect();
                    if &here == key {
                        // change the multiplicity, or turn the row into another missing tuple
                        if let Some(x) = self.aim(t, i, &s.filter, m - w) {
                            out.push(vec![x]);
                        }
                        for o in &others {
                            out.extend(self.retarget(t, i, s, o));
                        }
                    } else if m.is_nonzero() && others.contains(&&here) {
                        out.extend(self.retarget(t, i, s, key));
                    } else if m == -w && spare > 0 {
                        // a row whose own tuple is not missed
                        spare -= 1;
                        out.extend(self.retarget(t, i, s, key));
                    } else if m.is_zero() && spare > 0 {
                        spare -= 1;
                        if let (Some(mut ch), Some(x)) = (self.retarget(t, i, s, key), self.aim(t, i, &s.filter, -w)) {
                            ch.push(x);
                            out.push(ch);
                        }
                    }
                }
            }
        }
        out
    }

    /// A change of one cell that gives a linear combination a value.
    fn aim(&self, t: usize, i: usize, c: &sys::Column_, want: F) -> Option<(Cell, F)> {
        let (lv, nv) = self.pair(t, i);
        let n = self.rows[t].len();
        let d = want - col(c, lv, nv);
        let cells = c
            .lv_linear_combination
            .iter()
            .map(|&(k, a)| ((t, i, k), a))
            .chain(c.nv_linear_combination.iter().map(|&(k, a)| ((t, (i + 1) % n, k), a)))
            .filter(|(c, a)| *a != 0 && self.free(*c))
            .collect::<Vec<_>>();
        if cells.is_empty() {
            return None;
        }
        let (cell, a) = cells[(u(d) as usize ^ i) % cells.len()];
        let a = if a > 0 { F::from_canonical_u64(a as u64) } else { -F::from_canonical_u64(a.unsigned_abs()) };
        Some((cell, self.rows[cell.0][cell.1][cell.2] + d * a.inverse()))
    }

    fn retarget(&self, t: usize, i: usize, s: &sys::Side, key: &[u64]) -> Option<Vec<(Cell, F)>> {
        let mut ch = vec![];
        for (c, k) in s.cols.iter().zip(key) {
            let want = F::from_canonical_u64(*k);
            let (lv, nv) = self.pair(t, i);
            if col(c, lv, nv) != want {
                ch.push(self.aim(t, i, c, want)?);
            }
        }
        (!ch.is_empty()).then_some(ch)
    }

    /// Searches for a set of traces that satisfies everything; `seen` gets every violation that was the only one left.
    pub fn repair(&mut self, steps: usize, r: &mut Rng, seen: &mut HashSet<String>) -> bool {
        let mut best = self.cost();
        let mut stale = 0;
        for step in 0..steps as u64 {
            let v = self.violated();
            if v.is_empty() {
                return true;
            }
            if v.len() == 1 || v.iter().all(|x| x.class() == v[0].class()) {
                seen.insert(v[0].class());
            }
            if v.len() > 60 {
                return false;
            }
            if stale > 12 {
                return false;
            }
            let it = r.pick(&v).clone();
            let mut ms = self.moves(&it, r);
            ms.retain(|m| m.iter().all(|(c, _)| self.last.get(c).map_or(true, |l| step - l > 3)));
            if ms.is_empty() {
                stale += 1;
                continue;
            }
            r.shuffle(&mut ms);
            ms.truncate(16);
            let mut pick = (usize::MAX, 0);
            if r.chance(1, 8) {
                pick = (0, r.idx(ms.len()));
            } else {
                for (j, m) in ms.iter().enumerate() {
                    let undo = self.set(m);
                    if self.cost() < pick.0 {
                        pick = (self.cost(), j);
                    }
                    self.set(&undo);
                }
            }
            let m = ms.swap_remove(pick.1);
            self.set(&m);
            for (c, _) in &m {
                self.last.insert(*c, step);
            }
            if self.cost() < best {
                best = self.cost();
                stale = 0;
            } else {
                stale += 1;
            }
        }
        self.cost() == 0
    }
}

pub fn interpolate(ys: &[F]) -> Vec<F> {
    // Lagrange over 0..n, small
    let n = ys.len();
    let mut out = vec![F::ZERO; n];
    for i in 0..n {
        if ys[i].is_zero() {
            continue;
        }
        let mut p = vec![F::ONE];
        let mut d = F::ONE;
        for j in 0..n {
            if j != i {
                let x = F::from_canonical_usize(j);
                let mut q = vec![F::ZERO; p.len() + 1];
                for (k, c) in p.iter().enumerate() {
                    q[k + 1] += *c;
                    q[k] -= *c * x;
                }
                p = q;
                d *= F::from_canonical_usize(i) - x;
            }
        }
        let s = ys[i] * d.inverse();
        for (k, c) in p.iter().enumerate() {
            out[k] += *c * s;
        }
    }
    trim(out)
}

fn trim(mut p: Vec<F>) -> Vec<F> {
    while p.last().is_some_and(|x| x.is_zero()) {
        p.pop();
    }
    p
}

fn rem(mut a: Vec<F>, f: &[F]) -> Vec<F> {
    let inv = f[f.len() - 1].inverse();
    while a.len() >= f.len() {
        let s = a[a.len() - 1] * inv;
        let o = a.len() - f.len();
        for (k, c) in f.iter().enumerate() {
            a[o + k] -= *c * s;
        }
        a.pop();
    }
    trim(a)
}

fn mul(a: &[F], b: &[F], f: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] += *x * *y;
        }
    }
    rem(trim(o), f)
}

fn pow(b: &[F], mut e: u64, f: &[F]) -> Vec<F> {
    let mut o = rem(vec![F::ONE], f);
    let mut b = rem(b.to_vec(), f);
    while e > 0 {
        if e & 1 == 1 {
            o = mul(&o, &b, f);
        }
        b = mul(&b, &b, f);
        e >>= 1;
    }
    o
}

fn gcd(a: Vec<F>, b: Vec<F>) -> Vec<F> {
    let (mut a, mut b) = (a, b);
    while !b.is_empty() {
        let r = rem(a, &b);
        a = b;
        b = r;
    }
    a
}

/// All roots in the field of a polynomial of small degree.
pub fn roots(p: &[F], r: &mut Rng) -> Vec<F> {
    match p.len() {
        0 | 1 => return vec![],
        2 => return vec![-p[0] * p[1].inverse()],
        _ => {}
    }
    // x^p - x
    let mut h = pow(&[F::ZERO, F::ONE], F::ORDER, p);
    h.resize(h.len().max(2), F::ZERO);
    h[1] -= F::ONE;
    let g = gcd(p.to_vec(), trim(h));
    let mut out = vec![];
    let mut todo = vec![g];
    let mut tries = 0;
    while let Some(g) = todo.pop() {
        match g.len() {
            0 | 1 => {}
            2 => out.push(-g[0] * g[1].inverse()),
            _ => {
                tries += 1;
                if tries > 40 {
                    break;
                }
                let a = F::from_noncanonical_u64(r.u64());
                let mut h = pow(&[a, F::ONE], (F::ORDER - 1) / 2, &g);
                if h.is_empty() {
                    h = vec![F::ZERO];
                }
                h[0] -= F::ONE;
                let d = gcd(g.clone(), trim(h));
                if d.len() > 1 && d.len() < g.len() {
                    // the quotient
                    let mut a = g.clone();
                    let mut q = vec![F::ZERO; g.len() - d.len() + 1];
                    let inv = d[d.len() - 1].inverse();
                    while a.len() >= d.len() {
                        let s = a[a.len() - 1] * inv;
                        let o = a.len() - d.len();
                        for (k, c) in d.iter().enumerate() {
                            a[o + k] -= *c * s;
                        }
                        a.pop();
                        q[o] = s;
                    }
                    todo.push(d);
                    todo.push(trim(q));
                } else {
                    todo.push(g);
                }
            }
        }
    }
    out
}

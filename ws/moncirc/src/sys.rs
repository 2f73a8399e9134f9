//! The whole constraint system of the real circuits as a predicate on traces: every table's own
//! constraints, every cross-table relation as an equality of multisets, the public tables.
use std::collections::HashMap;
use std::sync::OnceLock;

use mozak_circuits::cross_table_lookup::{Column, CrossTableLookup};
use mozak_circuits::generation::generate_traces;
use mozak_circuits::stark::mozak_stark::{MozakStark, TableKind, TableKindArray};
use mozak_runner::elf::Program;
use mozak_runner::vm::ExecutionRecord;
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::util::timing::TimingTree;
use starky::constraint_consumer::{ConstraintConsumer, Rows};
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

pub use mozak_circuits::test_utils::{C, D, F};

pub use mozak_circuits::cross_table_lookup::Column as Column_;

pub type Table = Vec<PolynomialValues<F>>;
pub type Traces = TableKindArray<Table>;
pub type Sys = MozakStark<F, D>;

/// What the monitors need of one table, whatever its type.
pub trait Tab: Sync + Send {
    fn kind(&self) -> TableKind;
    fn columns(&self) -> usize;
    fn public_inputs(&self) -> usize;
    fn degree(&self) -> usize;
    /// Indices of the constraints violated on one row.
    fn bad(&self, lv: &[F], nv: &[F], pi: &[F], first: bool, last: bool) -> Option<usize>;
    fn all_bad(&self, lv: &[F], nv: &[F], pi: &[F], first: bool, last: bool) -> Vec<usize>;
    /// The value of every constraint, wherever it applies.
    fn values(&self, lv: &[F], nv: &[F], pi: &[F]) -> Vec<F>;
}

struct W<S> {
    s: S,
    kind: TableKind,
}

pub fn applies(r: Rows, first: bool, last: bool) -> bool {
    match r {
        Rows::All => true,
        Rows::Transition => !last,
        Rows::First => first,
        Rows::Last => last,
    }
}

impl<S: Stark<F, D> + Send> Tab for W<S> {
    fn kind(&self) -> TableKind { self.kind }

    fn columns(&self) -> usize { S::COLUMNS }

    fn public_inputs(&self) -> usize { S::PUBLIC_INPUTS }

    fn degree(&self) -> usize { self.s.constraint_degree() }

    fn bad(&self, lv: &[F], nv: &[F], pi: &[F], first: bool, last: bool) -> Option<usize> {
        self.all_bad(lv, nv, pi, first, last).first().copied()
    }

    fn all_bad(&self, lv: &[F], nv: &[F], pi: &[F], first: bool, last: bool) -> Vec<usize> {
        let frame = S::EvaluationFrame::<F, F, 1>::from_values(lv, nv, pi);
        let mut c = ConstraintConsumer::<F>::new_recording();
        self.s.eval_packed_generic::<F, F, 1>(&frame, &mut c);
        c.recorded()
            .into_iter()
            .enumerate()
            .filter(|(_, s)| applies(s.rows, first, last) && s.value.is_nonzero())
            .map(|(i, _)| i)
            .collect()
    }

    fn values(&self, lv: &[F], nv: &[F], pi: &[F]) -> Vec<F> {
        let frame = S::EvaluationFrame::<F, F, 1>::from_values(lv, nv, pi);
        let mut c = ConstraintConsumer::<F>::new_recording();
        self.s.eval_packed_generic::<F, F, 1>(&frame, &mut c);
        c.recorded().into_iter().map(|s| s.value).collect()
    }
}

/// `each!(sys, |stark, kind| expr)` for every table.
#[macro_export]
macro_rules! each {
    ($sys:expr, |$s:ident, $k:ident| $e:expr) => {{
        use mozak_circuits::stark::mozak_stark::TableKind as K;
        $crate::each!(@ $sys, $s, $k, $e;
            cpu_stark Cpu, rangecheck_stark RangeCheck, xor_stark Xor, shift_amount_stark Bitshift,
            program_stark Program, program_mult_stark ProgramMult, memory_stark Memory,
            elf_memory_init_stark ElfMemoryInit, memory_zeroinit_stark MemoryZeroInit,
            rangecheck_u8_stark RangeCheckU8, halfword_memory_stark HalfWordMemory,
            fullword_memory_stark FullWordMemory, private_tape_stark StorageDevicePrivate,
            public_tape_stark StorageDevicePublic, call_tape_stark CallTape, event_tape_stark EventTape,
            events_commitment_tape_stark EventsCommitmentTape,
            cast_list_commitment_tape_stark CastListCommitmentTape,
            self_prog_id_tape_stark SelfProgIdTape, register_init_stark RegisterInit,
            register_stark Register, register_zero_read_stark RegisterZeroRead,
            register_zero_write_stark RegisterZeroWrite, poseidon2_stark Poseidon2,
            poseidon2_sponge_stark Poseidon2Sponge, poseidon2_output_bytes_stark Poseidon2OutputBytes,
            cpu_skeleton_stark CpuSkeleton, add_stark Add, blt_taken_stark BltTaken,
            tape_commitments_stark TapeCommitments)
    }};
    (@ $sys:expr, $s:ident, $k:ident, $e:expr; $($f:ident $n:ident),*) => {
        vec![$({ let $s = &$sys.$f; let $k = K::$n; $e }),*]
    };
}

pub fn sys() -> &'static Sys {
    static S: OnceLock<Sys> = OnceLock::new();
    S.get_or_init(Sys::default)
}

pub fn tabs() -> &'static [Box<dyn Tab>] {
    static T: OnceLock<Vec<Box<dyn Tab>>> = OnceLock::new();
    T.get_or_init(|| each!(sys(), |s, k| Box::new(W { s: *s, kind: k }) as Box<dyn Tab>))
}

pub fn tab(k: TableKind) -> &'static dyn Tab {
    tabs().iter().find(|t| t.kind() == k).expect("every kind is listed").as_ref()
}

pub fn name(k: TableKind) -> String { format!("{k:?}") }

pub fn u(x: F) -> u64 { x.to_canonical_u64() }

pub fn row(t: &Table, i: usize) -> Vec<F> { t.iter().map(|c| c.values[i]).collect() }

pub fn height(t: &Table) -> usize { t.first().map_or(0, |c| c.values.len()) }

pub fn from_rows(columns: usize, rows: &[Vec<F>]) -> Table {
    (0..columns).map(|c| PolynomialValues::new(rows.iter().map(|r| r[c]).collect())).collect()
}

pub fn traces(program: &Program, record: &ExecutionRecord<F>) -> Traces {
    generate_traces::<F, D>(program, record, &mut TimingTree::default())
}

/// Public inputs of each table.
pub fn pis(k: TableKind, entry: u32) -> Vec<F> {
    if k == TableKind::CpuSkeleton {
        vec![F::from_canonical_u32(entry)]
    } else {
        vec![]
    }
}

/// First violated constraint of one table over the rows `which` (all when empty).
pub fn table_bad(t: &dyn Tab, tr: &Table, pi: &[F], which: &[usize]) -> Option<(usize, usize)> {
    let n = height(tr);
    let check = |i: usize| {
        let (lv, nv) = (row(tr, i), row(tr, (i + 1) % n));
        t.bad(&lv, &nv, pi, i == 0, i + 1 == n).map(|c| (i, c))
    };
    if which.is_empty() { (0..n).find_map(check) } else { which.iter().find_map(|&i| check(i)) }
}

/// Shape and constraints of every table.
pub fn constraints(tr: &Traces, entry: u32) -> Vec<(String, String)> {
    let mut v = vec![];
    for t in tabs() {
        let k = t.kind();
        let x = &tr[k];
        let n = height(x);
        if x.len() != t.columns() || x.iter().any(|c| c.values.len() != n) {
            v.push((format!("table-shape/{k:?}"), format!("{} columns of heights {:?}", x.len(), x.iter().map(|c| c.values.len()).collect::<Vec<_>>())));
            continue;
        }
        if n < 8 || !n.is_power_of_two() {
            v.push((format!("table-height/{k:?}"), format!("height {n}")));
            continue;
        }
        if let Some((r, c)) = table_bad(t.as_ref(), x, &pis(k, entry), &[]) {
            let all = t.all_bad(&row(x, r), &row(x, (r + 1) % n), &pis(k, entry), r == 0, r + 1 == n);
            v.push((
                format!("constraint/{k:?}"),
                format!("table {k:?} row {r} of {n}: constraint {c} (all {all:?}) is not zero\nlv={:?}\nnv={:?}", row(x, r).iter().map(|x| u(*x)).collect::<Vec<_>>(), row(x, (r + 1) % n).iter().map(|x| u(*x)).collect::<Vec<_>>()),
            ));
        }
    }
    v
}

/// One side of a relation.
pub struct Side {
    pub kind: TableKind,
    pub cols: Vec<Column>,
    pub filter: Column,
}

pub fn lookups() -> &'static Vec<Vec<Side>> {
    static L: OnceLock<Vec<Vec<Side>>> = OnceLock::new();
    L.get_or_init(|| {
        sys()
            .cross_table_lookups
            .iter()
            .map(|CrossTableLookup { looking_tables }| {
                looking_tables
                    .iter()
                    .map(|t| {
                        let (kind, cols, filter) = t.verif_parts();
                        Side { kind, cols: cols.clone(), filter: filter.clone() }
                    })
                    .collect()
            })
            .collect()
    })
}

/// Own evaluation of a column: linear combination of the row, the next row and a constant.
pub fn col(c: &Column, lv: &[F], nv: &[F]) -> F {
    let f = |x: i64| if x >= 0 { F::from_canonical_u64(x as u64) } else { -F::from_canonical_u64(x.unsigned_abs()) };
    let mut s = f(c.constant);
    for &(i, k) in &c.lv_linear_combination {
        s += lv[i] * f(k);
    }
    for &(i, k) in &c.nv_linear_combination {
        s += nv[i] * f(k);
    }
    s
}

pub type Bag = HashMap<Vec<u64>, F>;

/// Adds (or removes, with `sign` -1) the contributions of one row of one table to lookup `l`.
pub fn contribute(bag: &mut Bag, l: usize, k: TableKind, tr: &Table, i: usize, sign: F) {
    let n = height(tr);
    if n == 0 {
        return;
    }
    let (lv, nv) = (row(tr, i), row(tr, (i + 1) % n));
    for s in lookups()[l].iter().filter(|s| s.kind == k) {
        let m = col(&s.filter, &lv, &nv) * sign;
        if m.is_nonzero() {
            let key: Vec<u64> = s.cols.iter().map(|c| u(col(c, &lv, &nv))).collect();
            *bag.entry(key).or_insert(F::ZERO) += m;
        }
    }
}

/// The signed multiset of a relation; it balances when empty.
pub fn balance(tr: &Traces, l: usize) -> (Bag, u64) {
    let mut bag = Bag::new();
    let mut n = 0;
    let mut done: Vec<TableKind> = vec![];
    for s in &lookups()[l] {
        if done.contains(&s.kind) {
            continue;
        }
        done.push(s.kind);
        for i in 0..height(&tr[s.kind]) {
            contribute(&mut bag, l, s.kind, &tr[s.kind], i, F::ONE);
            n += 1;
        }
    }
    bag.retain(|_, v| v.is_nonzero());
    (bag, n)
}

pub fn lookup_name(l: usize) -> String {
    let mut v: Vec<String> = vec![];
    for s in &lookups()[l] {
        let n = name(s.kind);
        if !v.contains(&n) {
            v.push(n);
        }
    }
    let n = v.len();
    format!("{}..{}", v[0], v[n - 1])
}

/// All relations.
pub fn relations(tr: &Traces) -> Vec<(String, String)> {
    let mut out = vec![];
    for l in 0..lookups().len() {
        let (bag, _) = balance(tr, l);
        if !bag.is_empty() {
            let mut b: Vec<_> = bag.iter().map(|(k, v)| (k.clone(), v.to_canonical_i64())).collect();
            b.sort();
            out.push((format!("lookup/{l}/{}", lookup_name(l)), format!("relation {l} is unbalanced by {} tuples: {:?}", b.len(), &b[..b.len().min(6)])));
        }
    }
    out
}

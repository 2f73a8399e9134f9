//! C24: proofs verify for honest runs and for nothing else.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

use monlib::{guard, json, Mon, Rng};
use mozak_circuits::public_sub_table::PublicSubTableValues;
use mozak_circuits::stark::batch_prover::batch_prove;
use mozak_circuits::stark::batch_verifier::batch_verify_proof;
use mozak_circuits::stark::mozak_stark::{PublicInputs, TableKind, TableKindArray, PUBLIC_TABLE_KINDS};
use mozak_circuits::stark::proof::{AllProof, BatchProof};
use mozak_circuits::stark::prover::{get_program_id, prove, prove_with_traces};
use mozak_circuits::stark::verifier::verify_proof;
use mozak_circuits::stark::recursive_verifier::{recursive_batch_stark_circuit, recursive_mozak_stark_circuit, MozakBatchStarkVerifierCircuit, MozakStarkVerifierCircuit};
use mozak_circuits::test_utils::{fast_test_circuit_config, fast_test_config};
use plonky2::field::types::{Field, PrimeField64};
use plonky2::hash::merkle_tree::MerkleCap;
use plonky2::util::timing::TimingTree;
use serde_json::Value;
use starky::config::StarkConfig;

use crate::gen;
use crate::lockstep::Case;
use crate::progs::{self, Run};
use crate::sys::{self, u, C, D, F};

type Proof = AllProof<F, C, D>;
type Batch = BatchProof<F, C, D>;

fn config(r: &mut Rng) -> StarkConfig {
    let mut c = fast_test_config();
    // enough queries that a change of a random challenge cannot go unnoticed on the smallest tables
    c.fri_config.num_query_rounds = 8;
    c.fri_config.cap_height = *r.pick(&[0, 0, 1]);
    c
}

pub struct Made {
    run: Run,
    config: StarkConfig,
    all: Value,
    batch: Value,
    bits: TableKindArray<usize>,
}

fn entry(run: &Run) -> PublicInputs<F> { PublicInputs { entry_point: F::from_canonical_u32(run.program.entry_point) } }

fn verify_all(p: Proof, c: &StarkConfig) -> Verdict { verdict(guard(|| verify_proof(sys::sys(), p, c))) }
fn verify_batch(p: Batch, m: &Made) -> Verdict {
    verdict(guard(|| batch_verify_proof(sys::sys(), &PUBLIC_TABLE_KINDS, p, &m.config, &m.bits)))
}

enum Verdict {
    Accept,
    Reject(String),
    Crash(String),
}
fn verdict(r: Result<anyhow::Result<()>, String>) -> Verdict {
    match r {
        Ok(Ok(())) => Verdict::Accept,
        Ok(Err(e)) => Verdict::Reject(e.to_string().chars().take(90).collect()),
        Err(p) => Verdict::Crash(p),
    }
}

fn commitment(p: &TableKindArray<Vec<PublicSubTableValues<F>>>) -> Vec<Vec<u64>> {
    p[TableKind::TapeCommitments].iter().map(|t| t.iter().map(|r| if r.len() == 1 { u(r[0]) } else { u64::MAX }).collect()).collect()
}

/// Proves a run both ways, twice, and checks what the proofs say about it.
fn make(m: &Mon, run: Run, r: &mut Rng) -> Option<Made> {
    let config = config(r);
    let what = progs::show(&run.case);
    let s = sys::sys();
    let go = || guard(|| prove::<F, C, D>(&run.program, &run.record, s, &config, entry(&run), &mut TimingTree::default()));
    let (a, b) = (go(), go());
    let (a, b) = match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
        (a, _) => {
            m.violation("honest-run-not-proven", format!("{}\n{what}", match a { Ok(Err(e)) => e.to_string(), Err(p) => p, _ => "second time only".into() }));
            return None;
        }
    };
    let all = serde_json::to_value(&a).unwrap();
    if all != serde_json::to_value(&b).unwrap() {
        m.violation("proving-not-deterministic", what.clone());
    }
    m.count("proofs", 2);
    // what the proof claims
    let tapes = [run.record.last_state.events_commitment_tape.0, run.record.last_state.cast_list_commitment_tape.0];
    let want: Vec<Vec<u64>> = tapes.iter().map(|t| t.iter().map(|b| u64::from(*b)).collect()).collect();
    if commitment(&a.public_sub_table_values) != want {
        m.violation("public-commitments", format!("proof says {:?}, tapes are {want:?}\n{what}", commitment(&a.public_sub_table_values)));
    }
    if a.public_inputs.entry_point != F::from_canonical_u32(run.program.entry_point) {
        m.violation("public-entry-point", what.clone());
    }
    match verify_all(serde_json::from_value(all.clone()).unwrap(), &config) {
        Verdict::Accept => {}
        Verdict::Reject(e) => m.violation("honest-proof-rejected", format!("{e}\n{what}")),
        Verdict::Crash(e) => m.violation("honest-proof-crashes", format!("{e}\n{what}")),
    }
    let go = || guard(|| batch_prove::<F, C, D>(&run.program, &run.record, s, &PUBLIC_TABLE_KINDS, &config, entry(&run), &mut TimingTree::default()));
    let (bp, bits) = match go() {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            m.violation("batch-honest-run-not-proven", format!("{e}\n{what}"));
            return None;
        }
        Err(e) => {
            m.violation("batch-honest-run-not-proven", format!("{e}\n{what}"));
            return None;
        }
    };
    let batch = serde_json::to_value(&bp).unwrap();
    if let Ok(Ok((b2, _))) = go() {
        if serde_json::to_value(&b2).unwrap() != batch {
            m.violation("batch-proving-not-deterministic", what.clone());
        }
    }
    m.count("batch-proofs", 2);
    if commitment(&bp.public_sub_table_values) != want {
        m.violation("batch-public-commitments", what.clone());
    }
    if bp.program_id != a.program_id {
        m.violation("batch-program-id-differs", what.clone());
    }
    let made = Made { run, config, all, batch, bits };
    match verify_batch(serde_json::from_value(made.batch.clone()).unwrap(), &made) {
        Verdict::Accept => {}
        Verdict::Reject(e) => m.violation("batch-honest-proof-rejected", format!("{e}\n{what}")),
        Verdict::Crash(e) => m.violation("batch-honest-proof-crashes", format!("{e}\n{what}")),
    }
    Some(made)
}

// ---- changing proofs ----

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Step {
    Key(String),
    Index(usize),
}
type Path = Vec<Step>;

fn at<'a>(v: &'a Value, p: &[Step]) -> Option<&'a Value> {
    p.iter().try_fold(v, |v, s| match s {
        Step::Key(k) => v.get(k),
        Step::Index(i) => v.get(*i),
    })
}
fn at_mut<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Step::Key(k) => v.get_mut(k).unwrap(),
        Step::Index(i) => v.get_mut(*i).unwrap(),
    })
}

/// All nodes of a proof by what they are: the path with its indices removed.
fn index(v: &Value, path: &mut Path, leaves: &mut BTreeMap<String, Vec<Path>>, arrays: &mut BTreeMap<String, Vec<Path>>) {
    match v {
        Value::Array(a) => {
            if !path.is_empty() {
                arrays.entry(class(path)).or_default().push(path.clone());
            }
            for (i, x) in a.iter().enumerate() {
                path.push(Step::Index(i));
                index(x, path, leaves, arrays);
                path.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                path.push(Step::Key(k.clone()));
                index(x, path, leaves, arrays);
                path.pop();
            }
        }
        _ => leaves.entry(class(path)).or_default().push(path.clone()),
    }
}
fn class(p: &[Step]) -> String {
    p.iter().map(|s| match s { Step::Key(k) => k.as_str(), Step::Index(_) => "*" }).collect::<Vec<_>>().join(".")
}

const P: u64 = 0xffff_ffff_0000_0001;

fn change_leaf(v: &mut Value, r: &mut Rng) -> bool {
    match v {
        Value::Number(n) => {
            let x = n.as_u64().unwrap_or(0) % P;
            let y = match r.below(6) {
                0 => if x == P - 1 { 0 } else { x + 1 },
                1 => if x == 0 { P - 1 } else { x - 1 },
                2 => 0,
                3 => r.u64() % P,
                4 => x ^ (1 << r.below(8)),
                _ => ((u128::from(x) + (1u128 << 32)) % u128::from(P)) as u64,
            } % P;
            *v = json!(y);
            x != y
        }
        Value::String(s) => {
            let mut b: Vec<u8> = s.bytes().collect();
            let i = 2 + r.idx(b.len() - 2);
            b[i] = if b[i] == b'0' { b'1' } else { b'0' };
            let t = String::from_utf8(b).unwrap();
            let d = *s != t;
            *v = json!(t);
            d
        }
        _ => false,
    }
}

/// Equal as field elements.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).is_some_and(|y| same(x, y))),
        (Value::Number(a), Value::Number(b)) => match (a.as_u64(), b.as_u64()) {
            (Some(x), Some(y)) => x % P == y % P,
            _ => a == b,
        },
        _ => a == b,
    }
}

struct Change {
    kind: &'static str,
    class: String,
    detail: String,
    path: Option<Path>,
    value: Value,
}

/// Parts of a batch proof that carry nothing: the per-table commitments and
/// opening proofs of tables inside the batch, and the batch's own openings.
fn carries_nothing(batch: bool, p: &[Step]) -> bool {
    if !batch {
        return false;
    }
    match p.first() {
        Some(Step::Key(k)) if k == "proofs" => {
            let Some(Step::Index(t)) = p.get(1) else { return false };
            let public = PUBLIC_TABLE_KINDS.iter().any(|k| *k as usize == *t);
            !public && !matches!(p.get(2), Some(Step::Key(k)) if k == "openings")
        }
        Some(Step::Key(k)) if k == "batch_stark_proof" => matches!(p.get(1), Some(Step::Key(k)) if k == "openings"),
        _ => false,
    }
}

fn pick_path<'a>(r: &mut Rng, m: &'a BTreeMap<String, Vec<Path>>, turn: usize) -> (&'a String, &'a Path) {
    let (c, ps) = m.iter().nth(turn % m.len()).unwrap();
    (c, &ps[r.idx(ps.len())])
}

fn change(base: &Value, other: &Value, leaves: &BTreeMap<String, Vec<Path>>, arrays: &BTreeMap<String, Vec<Path>>, r: &mut Rng, turn: usize) -> Option<(Change, Path)> {
    let mut v = base.clone();
    match turn % 8 {
        0..=3 => {
            let (c, p) = pick_path(r, leaves, turn / 8 * 4 + turn % 8);
            let n = at_mut(&mut v, p);
            let before = n.clone();
            change_leaf(n, r).then(|| ())?;
            let after = n.clone();
            Some((Change { kind: "value", class: c.clone(), detail: format!("{p:?}: {before} -> {after}"), path: Some(p.clone()), value: v }, p.clone()))
        }
        4 => {
            let (c, p) = pick_path(r, arrays, turn / 8);
            let Value::Array(a) = at_mut(&mut v, p) else { return None };
            let n = a.len();
            let what = match r.below(6) {
                5 if n > 0 => {
                    let x = a.last()?.clone();
                    a.extend(std::iter::repeat(x).take(70));
                    "last repeated 70 times"
                }
                0 => {
                    a.pop()?;
                    "last dropped"
                }
                1 if n > 0 => {
                    a.remove(0);
                    "first dropped"
                }
                2 => {
                    let x = a.last()?.clone();
                    a.push(x);
                    "last doubled"
                }
                3 if n > 0 => {
                    a.clear();
                    "emptied"
                }
                _ => {
                    let x = a.first()?.clone();
                    a.insert(0, x);
                    "first doubled"
                }
            };
            Some((Change { kind: "length", class: c.clone(), detail: format!("{p:?} of {n}: {what}"), path: Some(p.clone()), value: v }, p.clone()))
        }
        5 => {
            let (c, p) = pick_path(r, arrays, turn / 8);
            let Value::Array(a) = at_mut(&mut v, p) else { return None };
            if a.len() < 2 {
                return None;
            }
            let i = r.idx(a.len());
            let j = (i + 1 + r.idx(a.len() - 1)) % a.len();
            a.swap(i, j);
            Some((Change { kind: "swap", class: c.clone(), detail: format!("{p:?}: {i} and {j} exchanged"), path: Some(p.clone()), value: v }, p.clone()))
        }
        6 => {
            let (c, p) = pick_path(r, arrays, turn / 8);
            let x = at(other, p)?.clone();
            *at_mut(&mut v, p) = x;
            Some((Change { kind: "other-proof", class: c.clone(), detail: format!("{p:?} taken from the other proof"), path: Some(p.clone()), value: v }, p.clone()))
        }
        _ => {
            let (c, p) = pick_path(r, leaves, turn / 8);
            let x = at(other, p)?.clone();
            *at_mut(&mut v, p) = x;
            Some((Change { kind: "other-proof", class: c.clone(), detail: format!("{p:?} taken from the other proof"), path: Some(p.clone()), value: v }, p.clone()))
        }
    }
}

/// Do values of this class only enter the challenges (unless a query happens to end in this entry of a cap)?
fn only_moves_queries(class: &str) -> bool { ["pow_witness", ".ctl_zs_cap.", ".quotient_polys_cap.", ".commit_phase_merkle_caps."].iter().any(|x| format!("{class}.").contains(x)) }

/// Do all queries of the table this path leads into open the same rows?
fn all_alike(base: &Value, p: &[Step]) -> bool {
    p.len() > 2 && at(base, &p[..2]).and_then(|o| o["opening_proof"]["query_round_proofs"].as_array()).is_some_and(|q| {
        let leaves = |r: &Value| r["initial_trees_proof"].clone();
        q.iter().all(|x| leaves(x) == leaves(&q[0]))
    })
}

fn judge(m: &Mon, made: &Made, batch: bool, c: &Change) {
    m.eval();
    m.nontrivial(monlib::fnv(format!("{batch}{}{}{}", c.kind, c.class, c.detail).as_bytes()));
    let base = if batch { &made.batch } else { &made.all };
    if same(base, &c.value) {
        m.count("unchanged", 1);
        return;
    }
    let pre = if batch { "batch-" } else { "" };
    let v = if batch {
        match serde_json::from_value(c.value.clone()) {
            Ok(p) => verify_batch(p, made),
            Err(_) => {
                m.count("not-a-proof", 1);
                return;
            }
        }
    } else {
        match serde_json::from_value(c.value.clone()) {
            Ok(p) => verify_all(p, &made.config),
            Err(_) => {
                m.count("not-a-proof", 1);
                return;
            }
        }
    };
    m.count(&format!("{pre}changed:{}:{}", c.kind, c.class.split('.').filter(|x| *x != "*").collect::<Vec<_>>().join(".")), 1);
    match v {
        // the nonce or a part of a commitment that no query opens, of a table whose rows are all alike: any position
        // opened is as good as any other
        Verdict::Accept if !batch && only_moves_queries(&c.class) && c.path.as_ref().is_some_and(|p| all_alike(base, p)) => m.count("accepted:another-nonce-or-cap-for-a-constant-table", 1),
        Verdict::Accept => m.violation(&format!("{pre}accepted/{}/{}", c.kind, c.class), format!("the verifier accepts a changed proof: {}\n{}", c.detail, progs::show(&made.run.case))),
        Verdict::Reject(e) => m.count(&format!("{pre}rejected:{}", e.split(['(', '[']).next().unwrap_or("").trim()), 1),
        Verdict::Crash(e) => m.violation(&format!("{pre}crash/{}/{}", c.kind, c.class), format!("{e}; {}\n{}", c.detail, progs::show(&made.run.case))),
    }
}

fn changes(m: &Mon, made: &Made, other: &Made, batch: bool, r: &mut Rng, n: usize, turn0: usize) {
    let (base, oth) = if batch { (&made.batch, &other.batch) } else { (&made.all, &other.all) };
    let (mut leaves, mut arrays) = (BTreeMap::new(), BTreeMap::new());
    index(base, &mut vec![], &mut leaves, &mut arrays);
    for x in [&mut leaves, &mut arrays] {
        for v in x.values_mut() {
            v.retain(|p| !carries_nothing(batch, p));
        }
        x.retain(|_, v| !v.is_empty());
    }
    for t in turn0..turn0 + n {
        if let Some((c, _)) = change(base, oth, &leaves, &arrays, r, t) {
            judge(m, made, batch, &c);
        }
    }
    // public data as a whole
    for k in ["public_inputs", "program_id", "public_sub_table_values"] {
        let mut v = base.clone();
        v[k] = oth[k].clone();
        judge(m, made, batch, &Change { kind: "statement", class: k.into(), detail: format!("{k} of another proof"), path: None, value: v });
    }
    for (a, b) in [("public_inputs", "program_id"), ("public_sub_table_values", "public_inputs"), ("proofs", "public_sub_table_values"), ("proofs", "program_id")] {
        let mut v = base.clone();
        v[a] = oth[a].clone();
        v[b] = oth[b].clone();
        let mut w = oth.clone();
        w[a] = base[a].clone();
        w[b] = base[b].clone();
        if !same(&v, oth) && !same(&w, base) {
            judge(m, made, batch, &Change { kind: "statement", class: format!("{a}+{b}"), detail: format!("{a} and {b} of another proof"), path: None, value: v });
        }
    }
    let kind = TableKind::TapeCommitments as usize;
    let mut v = base.clone();
    let Some(t) = v["public_sub_table_values"][kind].as_array_mut() else { return };
    let rows = t[0].as_array().unwrap().len();
    if t.len() == 2 {
        t.swap(0, 1);
        judge(m, made, batch, &Change { kind: "statement", class: "commitments-exchanged".into(), detail: "event and cast list commitments exchanged".into(), path: None, value: v });
    }
    for s in 0..2 {
        let mut v = base.clone();
        let (i, j) = (r.idx(rows), r.idx(rows));
        v["public_sub_table_values"][kind][s].as_array_mut().unwrap().swap(i, j);
        judge(m, made, batch, &Change { kind: "statement", class: "commitment-order".into(), detail: format!("bytes {i} and {j} of public sub-table {s} exchanged"), path: None, value: v });
    }
    forge(m, made, batch, base, r);
}

/// A commitment chosen after the challenges: the verifier's sums over the
/// claimed rows are kept, the rows are not.
fn forge(m: &Mon, made: &Made, batch: bool, base: &Value, r: &mut Rng) {
    // the challenges a verifier would use that observed no more than this
    for (seen, ch) in [("caps", challenges(made, batch, base, false)), ("caps and public inputs", challenges(made, batch, base, true))] {
        let Some(ch) = ch else { return };
        forge_with(m, made, batch, base, r, seen, &ch);
    }
}

fn forge_with(m: &Mon, made: &Made, batch: bool, base: &Value, r: &mut Rng, seen: &str, ch: &[(F, F)]) {
    let kind = TableKind::TapeCommitments as usize;
    for which in 0..2 {
        let rows: Vec<F> = base["public_sub_table_values"][kind][which].as_array().unwrap().iter().map(|x| F::from_canonical_u64(x[0].as_u64().unwrap())).collect();
        for (form, positions) in [("with-positions", true), ("without-positions", false)] {
            let at = |i: usize, (b, g): (F, F)| if positions { g + b * F::from_canonical_usize(i) } else { g };
            let sum = |xs: &[Option<F>], c: (F, F)| xs.iter().enumerate().filter_map(|(i, x)| x.map(|x| (x + at(i, c)).inverse())).sum::<F>();
            let all: Vec<Option<F>> = rows.iter().map(|x| Some(*x)).collect();
            let mut done = false;
            for _ in 0..6 {
                // two rows are solved for
                let p = r.idx(rows.len());
                let q = (p + 1 + r.idx(rows.len() - 1)) % rows.len();
                let xs: Vec<Option<F>> = (0..rows.len()).map(|i| (i != p && i != q).then(|| F::from_canonical_u64(r.below(256)))).collect();
                let s: Vec<F> = ch.iter().map(|c| sum(&all, *c) - sum(&xs, *c)).collect();
                let Some((a, b)) = solve_pair([at(p, ch[0]), at(p, ch[1])], [at(q, ch[0]), at(q, ch[1])], [s[0], s[1]]) else {
                    m.count("forgery-without-root", 1);
                    continue;
                };
                let xs: Vec<Option<F>> = xs.iter().enumerate().map(|(i, x)| Some(x.unwrap_or(if i == p { a } else { b }))).collect();
                assert!(ch.iter().all(|c| sum(&xs, *c) == sum(&all, *c)));
                m.count("forgeries", 1);
                let mut v = base.clone();
                v["public_sub_table_values"][kind][which] = json!(xs.iter().map(|x| vec![u(x.unwrap())]).collect::<Vec<_>>());
                judge(m, made, batch, &Change { kind: "statement", class: "commitment-forged".into(), detail: format!("rows of public sub-table {which} chosen to keep the verifier's sums ({form}), knowing the challenges from {seen}"), path: None, value: v });
                done = true;
                break;
            }
            m.count(if done { "forged" } else { "not-forged" }, 1);
        }
    }
}

fn challenges(made: &Made, batch: bool, base: &Value, inputs: bool) -> Option<Vec<(F, F)>> {
    use mozak_circuits::stark::permutation::challenge::GrandProductChallengeTrait;
    use plonky2::iop::challenger::Challenger;
    use plonky2::plonk::config::GenericConfig;
    let mut c = Challenger::<F, <C as GenericConfig<D>>::Hasher>::new();
    if batch {
        let p: Batch = serde_json::from_value(base.clone()).ok()?;
        for k in PUBLIC_TABLE_KINDS {
            c.observe_cap(&p.proofs[k].trace_cap);
        }
        c.observe_cap(&p.batch_stark_proof.trace_cap);
    } else {
        let p: Proof = serde_json::from_value(base.clone()).ok()?;
        for p in &p.proofs {
            c.observe_cap(&p.trace_cap);
        }
    }
    if inputs {
        c.observe_elements(&[F::from_canonical_u64(base["public_inputs"]["entry_point"].as_u64()?)]);
    }
    Some(c.get_grand_product_challenge_set(made.config.num_challenges).challenges.iter().map(|x| (x.beta, x.gamma)).collect())
}

/// 1/(a + c_i) + 1/(b + d_i) = s_i for i = 0, 1.
fn solve_pair(c: [F; 2], d: [F; 2], s: [F; 2]) -> Option<(F, F)> {
    // s ab + (s d - 1) a + (s c - 1) b + (s c d - c - d) = 0
    let e = |i: usize| (s[i], s[i] * d[i] - F::ONE, s[i] * c[i] - F::ONE, s[i] * c[i] * d[i] - c[i] - d[i]);
    let ((t0, u0, v0, w0), (t1, u1, v1, w1)) = (e(0), e(1));
    // without ab: x a + y b + z = 0
    let (x, y, z) = (u0 * t1 - u1 * t0, v0 * t1 - v1 * t0, w0 * t1 - w1 * t0);
    let n = -y.try_inverse()?;
    let (k, l) = (x * n, z * n); // b = k a + l
    let (qa, qb, qc) = (t0 * k, t0 * l + u0 + v0 * k, v0 * l + w0);
    let root = sqrt(qb.square() - qa * qc * F::from_canonical_u64(4))?;
    let a = (root - qb) * (qa.double()).try_inverse()?;
    let b = k * a + l;
    (0..2).all(|i| a + c[i] != F::ZERO && b + d[i] != F::ZERO).then_some((a, b))
}

fn sqrt(x: F) -> Option<F> {
    // Tonelli-Shanks with p - 1 = 2^32 * (2^32 - 1)
    if x == F::ZERO {
        return Some(x);
    }
    if x.exp_u64((P - 1) / 2) != F::ONE {
        return None;
    }
    let q = (P - 1) >> 32;
    let mut m = 32u32;
    let mut c = F::MULTIPLICATIVE_GROUP_GENERATOR.exp_u64(q);
    let mut t = x.exp_u64(q);
    let mut r = x.exp_u64(q.div_ceil(2));
    while t != F::ONE {
        let mut i = 0;
        let mut s = t;
        while s != F::ONE {
            s = s.square();
            i += 1;
        }
        let mut b = c;
        for _ in 0..m - i - 1 {
            b = b.square();
        }
        m = i;
        c = b.square();
        t *= c;
        r *= b;
    }
    (r.square() == x).then_some(r)
}

/// The recursive verifier is the same verifier: it has a proof for what the
/// native one accepts, with the same public values, and none for anything else.
fn recursion(m: &Mon, made: &Made, other: Option<&Made>, batch: bool, r: &mut Rng, n: usize) {
    // these circuits are big
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    let circ = fast_test_circuit_config();
    let what = progs::show(&made.run.case);
    let pre = if batch { "batch-recursion" } else { "recursion" };
    let s = sys::sys();
    enum Circuit {
        All(MozakStarkVerifierCircuit<F, C, D>),
        Batch(MozakBatchStarkVerifierCircuit<F, C, D>),
    }
    let built = guard(|| {
        if batch {
            Circuit::Batch(recursive_batch_stark_circuit::<F, C, D>(s, &made.bits, &PUBLIC_TABLE_KINDS, &circ, &made.config))
        } else {
            let p: Proof = serde_json::from_value(made.all.clone()).unwrap();
            Circuit::All(recursive_mozak_stark_circuit::<F, C, D>(s, &p.degree_bits(&made.config), &circ, &made.config))
        }
    });
    let circuit = match built {
        Ok(c) => c,
        Err(e) => {
            m.violation(&format!("{pre}/circuit-not-built"), format!("{e}\n{what}"));
            return;
        }
    };
    let prove = |v: &Value| -> Option<Result<Vec<u64>, String>> {
        let out = match &circuit {
            Circuit::All(c) => {
                let p: Proof = serde_json::from_value(v.clone()).ok()?;
                guard(|| c.prove(&p).and_then(|q| c.circuit.verify(q.clone()).map(|()| q.public_inputs)))
            }
            Circuit::Batch(c) => {
                let p: Batch = serde_json::from_value(v.clone()).ok()?;
                guard(|| c.prove(&p).and_then(|q| c.circuit.verify(q.clone()).map(|()| q.public_inputs)))
            }
        };
        Some(match out {
            Ok(Ok(p)) => Ok(p.iter().map(|x| u(*x)).collect()),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => Err(e),
        })
    };
    let base = if batch { &made.batch } else { &made.all };
    m.eval();
    m.count(&format!("{pre}:honest"), 1);
    match prove(base) {
        Some(Ok(pis)) => {
            let id = hex_bytes(base["program_id"].as_str().unwrap_or_default());
            let l = &made.run.record.last_state;
            let want: Vec<u64> = std::iter::once(u64::from(made.run.program.entry_point))
                .chain(id.iter().chain(&l.events_commitment_tape.0).chain(&l.cast_list_commitment_tape.0).map(|b| u64::from(*b)))
                .collect();
            if pis != want {
                m.violation(&format!("{pre}/public-values"), format!("the recursive proof says {pis:?}, the execution {want:?}\n{what}"));
            }
        }
        Some(Err(e)) => m.violation(&format!("{pre}/honest-proof-rejected"), format!("{e}\n{what}")),
        None => {}
    }
    let (mut leaves, mut arrays) = (BTreeMap::new(), BTreeMap::new());
    index(base, &mut vec![], &mut leaves, &mut arrays);
    for v in leaves.values_mut() {
        v.retain(|p| !carries_nothing(batch, p));
    }
    leaves.retain(|c, v| !v.is_empty() && !c.ends_with("pow_witness"));
    let mut tried: Vec<(String, String, Value)> = vec![];
    for t in 0..n {
        let turn = t + r.idx(100);
        let (c, p) = pick_path(r, &leaves, turn);
        let mut v = base.clone();
        if change_leaf(at_mut(&mut v, p), r) {
            tried.push((format!("value/{c}"), format!("{p:?}"), v));
        }
    }
    if let Some(o) = other {
        let oth = if batch { &o.batch } else { &o.all };
        for k in ["public_inputs", "program_id", "public_sub_table_values"] {
            let mut v = base.clone();
            v[k] = oth[k].clone();
            tried.push((format!("statement/{k}"), "of another proof".into(), v));
        }
    }
    let kind = TableKind::TapeCommitments as usize;
    for which in 0..2 {
        let (i, j) = (r.idx(32), r.idx(32));
        let mut v = base.clone();
        v["public_sub_table_values"][kind][which].as_array_mut().unwrap().swap(i, j);
        tried.push(("statement/commitment-order".into(), format!("sub-table {which}"), v));
    }
    for (c, d, v) in tried {
        if same(&v, base) {
            continue;
        }
        m.eval();
        m.nontrivial(monlib::fnv(format!("{pre}{c}{d}").as_bytes()));
        m.count(&format!("{pre}:changed"), 1);
        if let Some(Ok(_)) = prove(&v) {
            m.violation(&format!("{pre}/accepted/{c}"), format!("{d}\n{what}"));
        }
    }
}

fn hex_bytes(s: &str) -> Vec<u8> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// A prover that lists its public rows in another order, or claims other public inputs.
fn dishonest(m: &Mon, run: &Run, config: &StarkConfig, r: &mut Rng) {
    let what = progs::show(&run.case);
    let Ok(tr) = guard(|| sys::traces(&run.program, &run.record)) else { return };
    let say = |name: &str, v: Verdict| {
        m.eval();
        m.count(&format!("dishonest:{name}"), 1);
        match v {
            Verdict::Accept => m.violation(&format!("accepted/dishonest-prover/{name}"), what.clone()),
            Verdict::Reject(_) => {}
            Verdict::Crash(e) => m.violation(&format!("crash/dishonest-prover/{name}"), format!("{e}\n{what}")),
        }
    };
    let prove = |tr: &sys::Traces, entry: F| guard(|| prove_with_traces::<F, C, D>(sys::sys(), config, PublicInputs { entry_point: entry }, tr, &mut TimingTree::default()));
    let e = F::from_canonical_u32(run.program.entry_point);
    // another entry point
    for x in [e + F::from_canonical_u64(4), e + F::ONE, F::from_canonical_u64(r.u64() % P)] {
        if let Ok(Ok(p)) = prove(&tr, x) {
            say("entry-point", verify_all(p, config));
        } else {
            m.count("dishonest-not-proven:entry-point", 1);
        }
    }
    // rows of the commitments in another order: the public commitment is another string of bytes
    let tape = run.record.last_state.events_commitment_tape.0;
    let (i, j) = (r.idx(32), r.idx(32));
    if tape[i] != tape[j] {
        let mut t = tr.clone();
        let h = sys::height(&t[TableKind::TapeCommitments]);
        if h == 64 {
            for c in &mut t[TableKind::TapeCommitments] {
                c.values.swap(32 + i, 32 + j);
            }
            if let Ok(Ok(p)) = prove(&t, e) {
                let mut shown = commitment(&p.public_sub_table_values);
                // a verifier reads the commitment in the order it is given
                let same = shown.remove(0) == tape.iter().map(|b| u64::from(*b)).collect::<Vec<_>>();
                if !same {
                    say("commitment-order", verify_all(p, config));
                }
            }
        }
    }
}

/// The program id is a function of the program, and of nothing else.
fn identity(m: &Mon, r: &mut Rng, made: &Made) {
    let s = sys::sys();
    let id_of = |c: &Case| -> Option<(String, u64)> {
        // a changed program may loop
        if !progs::halts(c, 1000) {
            m.count("identity:does-not-halt", 1);
            return None;
        }
        let run = progs::run(c).ok()?;
        let tr = guard(|| sys::traces(&run.program, &run.record)).ok()?;
        Some((id(&tr, run.program.entry_point, &made.config), run.record.executed.len() as u64))
    };
    let base = made.all["program_id"].as_str().unwrap_or_default().to_string();
    let mut c = made.run.case.clone();
    c.tapes = gen::tapes(r, 40);
    if let Some((x, _)) = id_of(&c) {
        m.eval();
        m.count("identity:other-tapes", 1);
        if x != base {
            m.violation("program-id/depends-on-tapes", format!("{x} for other tapes, {base}\n{}", progs::show(&c)));
        }
    }
    let mut c = made.run.case.clone();
    let k = r.idx(c.segs.len());
    if c.segs[k].data.is_empty() {
        return;
    }
    let i = r.idx(c.segs[k].data.len());
    c.segs[k].data[i] ^= 1 << r.below(8);
    if let Some((x, _)) = id_of(&c) {
        m.eval();
        m.count("identity:other-byte", 1);
        if x == base {
            m.violation("program-id/same-for-another-program", format!("byte {i} of segment {k} changed\n{}", progs::show(&c)));
        }
    }
    let _ = s;
}

fn id(tr: &sys::Traces, entry: u32, config: &StarkConfig) -> String {
    use plonky2::fri::oracle::PolynomialBatch;
    use plonky2::plonk::config::GenericConfig;
    let cap = |k: TableKind| -> MerkleCap<F, <C as GenericConfig<D>>::Hasher> {
        PolynomialBatch::<F, C, D>::from_values(tr[k].clone(), config.fri_config.rate_bits, false, config.fri_config.cap_height, &mut TimingTree::default(), None).merkle_tree.cap
    };
    let x = get_program_id::<F, C, D>(F::from_canonical_u32(entry), &cap(TableKind::Program), &cap(TableKind::ElfMemoryInit));
    serde_json::to_value(x).unwrap().as_str().unwrap_or_default().to_string()
}

fn workload(r: &mut Rng) -> Option<Run> {
    for _ in 0..20 {
        let c = match r.below(4) {
            0 => gen::halting(r),
            1 | 2 => progs::ecall_program(r),
            _ => progs::edge_program(r),
        };
        if let Ok(run) = progs::run(&c) {
            if progs::excluded(&run).is_none() && run.record.executed.len() < 400 {
                return Some(run);
            }
        }
    }
    None
}

pub fn run() -> ! {
    let m = Mon::new("C24");
    let n = m.n(32, 300);
    let per = m.n(220, 900) as usize;
    let rec = m.n(10, 40) as usize;
    let t = AtomicU64::new(0);
    monlib::parallel(monlib::cores(), |w| {
        let mut r: Rng = m.rng(w + 1);
        let mut previous: Option<Made> = None;
        loop {
            let k = t.fetch_add(1, Ordering::SeqCst);
            if k >= n + monlib::cores() as u64 || !m.within(240, 780) {
                break;
            }
            let Some(run) = workload(&mut r) else { continue };
            m.sample(json!({"program": progs::show(&run.case), "steps": run.record.executed.len()}));
            let Some(mut made) = make(&m, run, &mut r) else { continue };
            if let Some(p) = &previous {
                // both ways need the same shape of proof: take the other's where the paths agree
                changes(&m, &made, p, false, &mut r, per, (k as usize) * per);
                changes(&m, &made, p, true, &mut r, per, (k as usize) * per);
            }
            if (k + w) % 2 == 0 {
                recursion(&m, &made, previous.as_ref(), k % 4 < 2, &mut r, rec);
            }
            dishonest(&m, &made.run, &made.config, &mut r);
            identity(&m, &mut r, &made);
            std::mem::swap(previous.get_or_insert_with(|| Made { run: progs::run(&made.run.case).unwrap(), config: made.config.clone(), all: Value::Null, batch: Value::Null, bits: made.bits.clone() }), &mut made);
        }
    });
    m.assume("plonky2 and starky are stand-ins (shims/) with the same transcript structure: Poseidon2, Merkle trees, FRI with the configured queries");
    m.finish("one evaluation is one changed proof (a value, a length, an exchange, a part of another proof, a forged public value, a dishonest prover) given to the real verifier; honest proofs are made and checked first; distinct: hash of the change")
}

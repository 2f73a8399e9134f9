//! Every table's constraints and columns in every evaluator, and the declared degrees.
use monlib::{guard, json, Mon, Rng};
use mozak_circuits::cross_table_lookup::{
    compose_ctl_with_challenge, eval_cross_table_lookup_checks_circuit, partial_sums, Column, ColumnWithTypedInput, CtlCheckVarsTarget,
};
use mozak_circuits::linear_combination::ColumnSparse;
use mozak_circuits::register::general::columns::Register;
use mozak_circuits::stark::mozak_stark::TableKind;
use mozak_circuits::stark::permutation::challenge::GrandProductChallenge;
use plonky2::field::extension::quadratic::QuadraticExtension;
use plonky2::field::polynomial::PolynomialValues;
use plonky2::field::types::Field;
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::iop::target::Target;
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::{CircuitConfig, CircuitData};
use starky::constraint_consumer::{record_circuit_constraints, take_circuit_constraints, ConstraintConsumer, RecursiveConstraintConsumer, Rows};
use starky::evaluation_frame::StarkEvaluationFrame;
use starky::stark::Stark;

use crate::c28::M;
use crate::pack::Pack4;
use crate::progs;
use crate::sys::{self, u, C, D, F};

type E = QuadraticExtension<F>;
type Fails = Vec<(String, String)>;

/// Recursive evaluation of one table, compiled once.
struct Circuit {
    data: CircuitData<F, C, D>,
    lv: Vec<ExtensionTarget<D>>,
    nv: Vec<ExtensionTarget<D>>,
    pi: Vec<ExtensionTarget<D>>,
    z: [ExtensionTarget<D>; 2],
    challenge: [Target; 2],
    rows: Vec<Rows>,
    /// how many of the constraints are the table's own
    own: usize,
}

trait Work: Sync + Send {
    fn kind(&self) -> TableKind;
    fn columns(&self) -> usize;
    fn pis(&self) -> usize;
    fn degree(&self) -> usize;
    fn base(&self, lv: &[F], nv: &[F], pi: &[F]) -> Vec<(Rows, F)>;
    fn ext(&self, lv: &[E], nv: &[E], pi: &[E]) -> Vec<(Rows, E)>;
    fn packed(&self, lv: &[Pack4<F>], nv: &[Pack4<F>], pi: &[F]) -> Vec<(Rows, Pack4<F>)>;
    fn circuit(&self) -> &Circuit;
}

struct W<S> {
    s: S,
    kind: TableKind,
    c: Circuit,
}

/// The sides of relations and public tables that concern one table.
fn sides(k: TableKind) -> Vec<(Vec<Column>, Column)> {
    let mut v: Vec<(Vec<Column>, Column)> =
        sys::lookups().iter().flatten().filter(|s| s.kind == k).map(|s| (s.cols.clone(), s.filter.clone())).collect();
    for p in &sys::sys().public_sub_tables {
        let (kind, columns, filter) = p.table.verif_parts();
        if kind == k {
            v.push((columns.clone(), filter.clone()));
        }
    }
    v
}

fn compile<S: Stark<F, D>>(s: &S, kind: TableKind) -> Circuit {
    let mut b = CircuitBuilder::<F, D>::new(CircuitConfig::standard_recursion_config());
    let ext = |b: &mut CircuitBuilder<F, D>, n: usize| (0..n).map(|_| b.add_virtual_extension_target()).collect::<Vec<_>>();
    let (lv, nv, pi, z) = (ext(&mut b, S::COLUMNS), ext(&mut b, S::COLUMNS), ext(&mut b, S::PUBLIC_INPUTS), ext(&mut b, 2));
    let challenge = [b.add_virtual_target(), b.add_virtual_target()];
    let (zero, one) = (b.zero_extension(), b.one_extension());
    let mut rc = RecursiveConstraintConsumer::new(zero, vec![], one, one, one);
    let vars = S::EvaluationFrameTarget::from_values(&lv, &nv, &pi);
    record_circuit_constraints();
    s.eval_ext_circuit(&mut b, &vars, &mut rc);
    let mut seen = take_circuit_constraints();
    let own = seen.len();
    let sides = sides(kind);
    let ctl: Vec<CtlCheckVarsTarget<D>> = sides
        .iter()
        .map(|(c, f)| CtlCheckVarsTarget { local_z: z[0], next_z: z[1], challenges: GrandProductChallenge { beta: challenge[0], gamma: challenge[1] }, columns: c, filter_column: f })
        .collect();
    record_circuit_constraints();
    eval_cross_table_lookup_checks_circuit::<S, F, D>(&mut b, &vars, &ctl, &mut rc);
    seen.extend(take_circuit_constraints());
    for s in &seen {
        b.register_public_inputs(&s.1);
    }
    // every column by itself, after the constraints
    for (c, f) in &sides {
        for c in c.iter().chain([f]) {
            let t = c.eval_circuit(&mut b, &lv, &nv);
            b.register_public_inputs(&t.0);
        }
    }
    Circuit { data: b.build::<C>(), lv, nv, pi, z: [z[0], z[1]], challenge, rows: seen.iter().map(|s| s.0).collect(), own }
}

impl<S: Stark<F, D> + Send> Work for W<S> {
    fn kind(&self) -> TableKind { self.kind }

    fn columns(&self) -> usize { S::COLUMNS }

    fn pis(&self) -> usize { S::PUBLIC_INPUTS }

    fn degree(&self) -> usize { self.s.constraint_degree() }

    fn base(&self, lv: &[F], nv: &[F], pi: &[F]) -> Vec<(Rows, F)> {
        let mut c = ConstraintConsumer::<F>::new_recording();
        self.s.eval_packed_generic::<F, F, 1>(&S::EvaluationFrame::<F, F, 1>::from_values(lv, nv, pi), &mut c);
        c.recorded().into_iter().map(|s| (s.rows, s.value)).collect()
    }

    fn ext(&self, lv: &[E], nv: &[E], pi: &[E]) -> Vec<(Rows, E)> {
        let mut c = ConstraintConsumer::<E>::new_recording();
        self.s.eval_ext(&S::EvaluationFrame::<E, E, D>::from_values(lv, nv, pi), &mut c);
        c.recorded().into_iter().map(|s| (s.rows, s.value)).collect()
    }

    fn packed(&self, lv: &[Pack4<F>], nv: &[Pack4<F>], pi: &[F]) -> Vec<(Rows, Pack4<F>)> {
        let mut c = ConstraintConsumer::<Pack4<F>>::new_recording();
        self.s.eval_packed_base::<Pack4<F>>(&S::EvaluationFrame::<F, Pack4<F>, 1>::from_values(lv, nv, pi), &mut c);
        c.recorded().into_iter().map(|s| (s.rows, s.value)).collect()
    }

    fn circuit(&self) -> &Circuit { &self.c }
}

fn works() -> Vec<Box<dyn Work>> { crate::each!(sys::sys(), |s, k| Box::new(W { s: *s, kind: k, c: compile(s, k) }) as Box<dyn Work>) }

fn el(r: &mut Rng, style: u64) -> F {
    match style {
        0 => F::from_canonical_u64(r.below(2)),
        1 => F::from_canonical_u64(u64::from(r.edge32())),
        2 => F::from_canonical_u64(r.below(300)),
        3 => F::from_noncanonical_u64(r.u64()),
        _ => {
            let s = r.below(4);
            el(r, s)
        }
    }
}

fn m(e: &E) -> M { M([u(e.0[0]).into(), u(e.0[1]).into()]) }
fn mf(x: F) -> M { M([u(x).into(), 0]) }

/// Own value of a column over pairs.
fn own_col(c: &Column, lv: &[M], nv: &[M]) -> M {
    let mut s = M::int(c.constant.into());
    for (i, k) in &c.lv_linear_combination {
        s = M::bin(0, s, M::bin(2, lv[*i], M::int((*k).into())));
    }
    for (i, k) in &c.nv_linear_combination {
        s = M::bin(0, s, M::bin(2, nv[*i], M::int((*k).into())));
    }
    s
}

fn check(w: &dyn Work, r: &mut Rng, honest: Option<(Vec<F>, Vec<F>)>) -> Fails {
    let k = w.kind();
    let mut out: Fails = vec![];
    let n = w.columns();
    let style = r.below(5);
    let random = |r: &mut Rng, n: usize| (0..n).map(|_| el(r, style)).collect::<Vec<F>>();
    let (mut lv, mut nv) = honest.unwrap_or_else(|| (random(r, n), random(r, n)));
    if r.chance(1, 3) {
        for _ in 0..1 + r.below(3) {
            let i = r.idx(2 * n);
            let x = el(r, 4);
            if i < n { lv[i] = x } else { nv[i - n] = x }
        }
    }
    let pi = random(r, w.pis());
    let base = w.base(&lv, &nv, &pi);
    if w.base(&lv, &nv, &pi).iter().map(|x| x.1).ne(base.iter().map(|x| x.1)) {
        out.push((format!("repeat/{k:?}"), "a second evaluation differs".into()));
    }
    let e = |x: &F| E::from(*x);
    // base values as extension values
    let lift = w.ext(&lv.iter().map(e).collect::<Vec<_>>(), &nv.iter().map(e).collect::<Vec<_>>(), &pi.iter().map(e).collect::<Vec<_>>());
    let cmp = |what: &str, a: Vec<(Rows, M)>, b: Vec<(Rows, M)>, out: &mut Fails| {
        if a != b {
            let i = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).unwrap_or(0);
            out.push((format!("{what}/{k:?}"), format!("constraint {i} of {}: {:?} against {:?}\nlv={:?}\nnv={:?}\npi={:?}", a.len(), a.get(i), b.get(i), lv, nv, pi)));
        }
    };
    let bm: Vec<(Rows, M)> = base.iter().map(|x| (x.0, mf(x.1))).collect();
    cmp("base-extension", bm.clone(), lift.iter().map(|x| (x.0, m(&x.1))).collect(), &mut out);
    // four rows packed
    let lanes: Vec<(Vec<F>, Vec<F>)> = (0..4).map(|j| if j == 2 { (lv.clone(), nv.clone()) } else { (random(r, n), random(r, n)) }).collect();
    let pack = |f: &dyn Fn(usize, usize) -> F| (0..n).map(|c| Pack4(core::array::from_fn(|j| f(j, c)))).collect::<Vec<Pack4<F>>>();
    let pk = w.packed(&pack(&|j, c| lanes[j].0[c]), &pack(&|j, c| lanes[j].1[c]), &pi);
    for (j, l) in lanes.iter().enumerate() {
        let b = w.base(&l.0, &l.1, &pi);
        cmp("base-packed", b.iter().map(|x| (x.0, mf(x.1))).collect(), pk.iter().map(|x| (x.0, mf(x.1.0[j]))).collect(), &mut out);
    }
    // true extension values, in the circuit too
    let ex = |r: &mut Rng, v: &[F]| v.iter().map(|x| QuadraticExtension([*x, el(r, style)])).collect::<Vec<E>>();
    let (el_, en, ep) = if r.chance(1, 4) {
        (lv.iter().map(e).collect(), nv.iter().map(e).collect(), pi.iter().map(e).collect())
    } else {
        (ex(r, &lv), ex(r, &nv), ex(r, &pi))
    };
    let xv = w.ext(&el_, &en, &ep);
    let c = w.circuit();
    let zs = [el(r, 4), el(r, 4)];
    let zs = ex(r, &zs);
    let (beta, gamma) = (el(r, 3), el(r, 3));
    let mut pw = PartialWitness::new();
    for (t, v) in [(&c.lv, &el_), (&c.nv, &en), (&c.pi, &ep)] {
        for (t, v) in t.iter().zip(v.iter()) {
            pw.set_extension_target(*t, *v);
        }
    }
    for i in 0..2 {
        pw.set_extension_target(c.z[i], zs[i]);
        pw.set_target(c.challenge[i], [beta, gamma][i]);
    }
    let em: (Vec<M>, Vec<M>) = (el_.iter().map(m).collect(), en.iter().map(m).collect());
    match c.data.prove(pw) {
        Err(x) => out.push((format!("circuit-unprovable/{k:?}"), format!("{x}"))),
        Ok(p) => {
            let got: Vec<M> = p.public_inputs.chunks(D).map(|c| M([u(c[0]).into(), u(c[1]).into()])).collect();
            let gc: Vec<(Rows, M)> = c.rows.iter().copied().zip(got.iter().copied()).collect();
            cmp("extension-circuit", xv.iter().map(|x| (x.0, m(&x.1))).collect(), gc[..c.own].to_vec(), &mut out);
            // lookups: two constraints each, as the argument defines them
            let mut want = vec![];
            let mut cols = vec![];
            for (cs, f) in sides(k) {
                let vals: Vec<M> = cs.iter().map(|c| own_col(c, &em.0, &em.1)).collect();
                let mult = own_col(&f, &em.0, &em.1);
                let comb = M::bin(0, vals.iter().rev().fold(M([0, 0]), |a, x| M::bin(0, M::bin(2, a, mf(beta)), *x)), mf(gamma));
                let (z, nz) = (m(&zs[0]), m(&zs[1]));
                want.push((Rows::Last, M::bin(1, M::bin(2, nz, comb), mult)));
                want.push((Rows::Transition, M::bin(1, M::bin(2, M::bin(1, nz, z), comb), mult)));
                cols.extend(vals);
                cols.push(mult);
            }
            cmp("lookup-circuit", want, gc[c.own..].to_vec(), &mut out);
            let got = &got[c.rows.len()..];
            if got != &cols[..] {
                out.push((format!("column-circuit/{k:?}"), format!("{got:?} against {cols:?}")));
            }
        }
    }
    // columns
    let bm: (Vec<M>, Vec<M>) = (lv.iter().map(|x| mf(*x)).collect(), nv.iter().map(|x| mf(*x)).collect());
    let t: Vec<PolynomialValues<F>> = (0..n).map(|i| PolynomialValues::new(vec![nv[i], lv[i]])).collect();
    let challenge = GrandProductChallenge { beta, gamma };
    for (i, (cs, f)) in sides(k).into_iter().enumerate() {
        for (j, c) in cs.iter().chain([&f]).enumerate() {
            let want = own_col(c, &bm.0, &bm.1);
            let sp: ColumnSparse<F> = c.to_field();
            let a = [c.eval::<F, F, F, 1, [F]>(&lv, &nv), c.eval_row::<F>(&lv, &nv), sp.eval_table(&t, 1)];
            if a.iter().any(|x| mf(*x) != want) {
                out.push((format!("column-base/{k:?}"), format!("side {i} column {j} ({c:?}): {a:?} against {want:?}")));
            }
            let x = c.eval::<F, E, E, D, [E]>(&el_, &en);
            if m(&x) != own_col(c, &em.0, &em.1) {
                out.push((format!("column-extension/{k:?}"), format!("side {i} column {j} ({c:?}): {x:?}")));
            }
        }
        // combination with the challenge, and the running sums over a two-row table
        let sp: Vec<ColumnSparse<F>> = cs.iter().map(Column::to_field).collect();
        let one = |l: &[M], n: &[M]| {
            let vals: Vec<M> = cs.iter().map(|c| own_col(c, l, n)).collect();
            (M::bin(0, vals.iter().rev().fold(M([0, 0]), |a, x| M::bin(0, M::bin(2, a, mf(beta)), *x)), mf(gamma)), own_col(&f, l, n))
        };
        let (c1, m1) = one(&bm.0, &bm.1);
        let (c0, m0) = one(&bm.1, &bm.0);
        let got = compose_ctl_with_challenge(&sp, challenge).eval_table(&t, 1);
        if mf(got) != c1 {
            out.push((format!("combine/{k:?}"), format!("side {i}: {got:?} against {c1:?}")));
        }
        let fld = |m: M| F::from_canonical_u64(m.0[0] as u64);
        if c0.0[0] != 0 && c1.0[0] != 0 {
            // row 1 (the last) first, then row 0
            let z0 = fld(m1) * fld(c1).inverse();
            let z1 = z0 + fld(m0) * fld(c0).inverse();
            let z = partial_sums(&t, &cs, &f, challenge).values;
            if z != vec![z0, z1] {
                out.push((format!("partial-sums/{k:?}"), format!("side {i}: {z:?} against {:?}", [z0, z1])));
            }
        }
    }
    out
}

/// On a random line, a constraint is a polynomial of at most its degree.
fn degrees(w: &dyn Work, r: &mut Rng) -> Fails {
    let k = w.kind();
    let d = w.degree();
    let n = w.columns();
    let v = |r: &mut Rng, n: usize| (0..n).map(|_| el(r, 3)).collect::<Vec<F>>();
    let (a, b) = ((v(r, n), v(r, n), v(r, w.pis())), (v(r, n), v(r, n), v(r, w.pis())));
    let at = |t: u64| {
        let t = F::from_canonical_u64(t);
        let f = |x: &[F], y: &[F]| x.iter().zip(y).map(|(x, y)| *x + t * *y).collect::<Vec<F>>();
        // public inputs are constants
        w.base(&f(&a.0, &b.0), &f(&a.1, &b.1), &a.2)
    };
    const POINTS: u64 = 14;
    let ys: Vec<Vec<(Rows, F)>> = (0..POINTS).map(at).collect();
    let mut out = vec![];
    for c in 0..ys[0].len() {
        let mut diff: Vec<F> = ys.iter().map(|y| y[c].1).collect();
        let mut deg = 0usize;
        for i in 0..POINTS as usize {
            if diff.iter().any(|x| x.is_nonzero()) {
                deg = i;
            }
            diff = diff.windows(2).map(|w| w[1] - w[0]).collect();
        }
        // the first and last row constraints are multiplied by a polynomial of full degree
        let extra = usize::from(matches!(ys[0][c].0, Rows::First | Rows::Last));
        if deg + extra > d {
            out.push((format!("degree/{k:?}"), format!("constraint {c} ({:?}) has degree {deg}, declared {d}", ys[0][c].0)));
        }
    }
    // lookups: (z' - z) * combination - filter, columns being linear
    if sides(k).iter().any(|_| true) && d < 2 {
        out.push((format!("degree-lookup/{k:?}"), format!("declared {d}")));
    }
    out
}

/// Typed linear combinations mean what their operators say.
fn typed(r: &mut Rng) -> Fails {
    const N: usize = 7;
    type T = ColumnWithTypedInput<Register<i64>>;
    let n = Register::<i64>::default().into_iter().count();
    let vals: Vec<(i128, i128)> = (0..n).map(|_| (r.below(1000) as i128 - 500, r.below(1000) as i128 - 500)).collect();
    let mut out = vec![];
    let unit = |i: usize| -> T { T { lv_linear_combination: (0..n).map(|j| i64::from(i == j)).collect(), nv_linear_combination: Register::default(), constant: 0 } };
    // (typed, value on (lv, nv), value on (nv, lv))
    let mut v: Vec<(T, i128, i128)> = (0..n).map(|i| (unit(i), vals[i].0, vals[i].1)).collect();
    v.push((T::constant(3), 3, 3));
    for _ in 0..10 + N {
        let (a, b) = (v[r.idx(v.len())], v[r.idx(v.len())]);
        let i = r.below(9) as i64 - 4;
        let j = i128::from(i);
        let x = match r.below(13) {
            0 => (a.0 + b.0, a.1 + b.1, a.2 + b.2),
            1 => (a.0 - b.0, a.1 - b.1, a.2 - b.2),
            2 => (a.0 + i, a.1 + j, a.2 + j),
            3 => (i + a.0, a.1 + j, a.2 + j),
            4 => (a.0 - i, a.1 - j, a.2 - j),
            5 => (i - a.0, j - a.1, j - a.2),
            6 => (a.0 * i, a.1 * j, a.2 * j),
            7 => (i * a.0, a.1 * j, a.2 * j),
            8 => (-a.0, -a.1, -a.2),
            9 => (!a.0, 1 - a.1, 1 - a.2),
            10 => ([a.0, b.0].into_iter().sum(), a.1 + b.1, a.2 + b.2),
            11 => (T::reduce_with_powers([a.0, b.0, a.0], i), a.1 + j * b.1 + j * j * a.1, a.2 + j * b.2 + j * j * a.2),
            _ => (T::ascending_sum([a.0, b.0, a.0]), b.1 + 2 * a.1, b.2 + 2 * a.2),
        };
        if x.1.abs().max(x.2.abs()) < 1 << 40 {
            v.push(x);
        }
    }
    for (t, x, y) in &v {
        let lv: Vec<F> = vals.iter().map(|v| F::from_noncanonical_i64(v.0 as i64)).collect();
        let nv: Vec<F> = vals.iter().map(|v| F::from_noncanonical_i64(v.1 as i64)).collect();
        let cols = [Column::from(*t)];
        let (a, b) = (cols[0].eval_row::<F>(&lv, &nv), cols[0].eval_row::<F>(&nv, &lv));
        // flipping twice and differences only make sense while nothing is in the next row
        let fl = Column::from(t.flip()).eval_row::<F>(&lv, &nv);
        let df = Column::from(t.diff()).eval_row::<F>(&lv, &nv);
        let want = [M::int(*x), M::int(*y), M::int(*y), M::int(*y - *x)];
        let got = [a, b, fl, df].map(mf);
        // a constant is the same in both rows
        let want = [want[0], want[1], want[2], want[3]];
        if got != want {
            out.push(("typed-columns".into(), format!("{t:?}: {got:?} against {want:?}")));
        }
        // sparse arithmetic
        let s: ColumnSparse<F> = cols[0].to_field();
        let o: ColumnSparse<F> = Column::from(v[0].0).to_field();
        let tt: Vec<PolynomialValues<F>> = (0..n).map(|i| PolynomialValues::new(vec![lv[i], nv[i]])).collect();
        let three = F::from_canonical_u64(3);
        let got = [(&s + &o).eval_table(&tt, 0), (s.clone() - o.clone()).eval_table(&tt, 0), (&s * three).eval_table(&tt, 0), (-s.clone()).eval_table(&tt, 0), (&s + three).eval_table(&tt, 0)].map(mf);
        let (x, o) = (*x, v[0].1);
        let want = [x + o, x - o, 3 * x, -x, x + 3].map(M::int);
        if got != want {
            out.push(("sparse-columns".into(), format!("{t:?}: {got:?} against {want:?}")));
        }
    }
    out
}

pub fn run() -> ! {
    let m = Mon::new("C27");
    let ws = works();
    m.count("tables", ws.len() as u64);
    m.count("circuits compiled", ws.len() as u64);
    // honest rows to start from
    let mut r = m.rng(99);
    let mut pool = vec![];
    while pool.len() < 12 {
        let c = if pool.len() % 2 == 0 { progs::ecall_program(&mut r) } else { progs::edge_program(&mut r) };
        if let Ok(run) = progs::run(&c) {
            if let Ok(t) = guard(|| sys::traces(&run.program, &run.record)) {
                pool.push(t);
            }
        }
    }
    let n = m.n(4000, 100_000);
    let t = std::sync::atomic::AtomicU64::new(0);
    monlib::parallel(monlib::cores(), |wk| {
        let mut r: Rng = m.rng(wk + 1);
        while t.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < n && m.within(45, 600) {
            for w in &ws {
                m.eval();
                m.count(&format!("table:{:?}", w.kind()), 1);
                let honest = r.chance(1, 3).then(|| {
                    let tr = &pool[r.idx(pool.len())][w.kind()];
                    let h = sys::height(tr);
                    let i = r.idx(h);
                    (sys::row(tr, i), sys::row(tr, (i + 1) % h))
                });
                let seed = r.u64();
                m.nontrivial(seed ^ w.kind() as u64);
                match guard(|| {
                    let mut r = Rng::new(seed);
                    let mut v = check(w.as_ref(), &mut r, honest);
                    if seed % 8 == 0 {
                        v.extend(degrees(w.as_ref(), &mut r));
                    }
                    v
                }) {
                    Ok(v) => v.into_iter().for_each(|(s, d)| m.violation(&s, &d)),
                    Err(e) => m.violation(&format!("panics/{:?}", w.kind()), &e),
                }
            }
            let seed = r.u64();
            match guard(|| typed(&mut Rng::new(seed))) {
                Ok(v) => v.into_iter().for_each(|(s, d)| m.violation(&s, &d)),
                Err(e) => m.violation("panics/typed", &e),
            }
        }
    });
    for w in &ws {
        m.sample(json!({"table": format!("{:?}", w.kind()), "constraints": w.circuit().own, "lookup constraints": w.circuit().rows.len() - w.circuit().own, "declared degree": w.degree()}));
    }
    m.assume("the packed field of width 4, field and extension arithmetic and the circuit builder are stand-ins for plonky2's");
    m.finish("one evaluation is one assignment of a table's current row, next row and public values (random, edge, binary, or from honest traces, altered): all its constraints and lookup columns evaluated on base, packed, extension and in-circuit values and compared; degrees measured on random lines; distinct: seed of the assignment and table")
}

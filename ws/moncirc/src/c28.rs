//! The expression language: random formulas over every value type and evaluator.
use std::collections::HashMap;
use std::fmt::Debug;

use expr::{BinOp, Cached, Counting, Evaluator, Expr, ExprBuilder, PureEvaluator, UnaOp};
use monlib::{guard, json, Mon, Rng};
use mozak_circuits::expr::{build_ext, build_packed, packed_field_evaluator, ConstraintBuilder};
use plonky2::field::extension::quadratic::QuadraticExtension;
use plonky2::field::packed::PackedField;
use plonky2::field::types::{Field, PrimeField64};
use plonky2::iop::ext_target::ExtensionTarget;
use plonky2::iop::witness::{PartialWitness, WitnessWrite};
use plonky2::plonk::circuit_builder::CircuitBuilder;
use plonky2::plonk::circuit_data::CircuitConfig;
use starky::constraint_consumer::{record_circuit_constraints, take_circuit_constraints, ConstraintConsumer, RecursiveConstraintConsumer, Rows};

use crate::pack::Pack4;
use crate::sys::{C, D, F};

const P: u128 = 0xffff_ffff_0000_0001;
type E = QuadraticExtension<F>;

/// Own arithmetic: integers modulo p, and pairs a + b X with X^2 = 7.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct M(pub [u128; 2]);
impl M {
    pub fn int(x: i128) -> M { M([x.rem_euclid(P as i128) as u128, 0]) }

    pub fn bin(op: u8, a: M, b: M) -> M {
        let (a, b) = (a.0, b.0);
        M(match op {
            0 => [(a[0] + b[0]) % P, (a[1] + b[1]) % P],
            1 => [(a[0] + P - b[0]) % P, (a[1] + P - b[1]) % P],
            _ => [(a[0] * b[0] % P + 7 * (a[1] * b[1] % P)) % P, (a[0] * b[1] % P + a[1] * b[0] % P) % P],
        })
    }

    pub fn neg(a: M) -> M { M::bin(1, M([0, 0]), a) }
}

/// A step in building a formula; operands are indices of earlier ones.
#[derive(Clone, Debug)]
enum Ins {
    Lit(usize),
    Constant(i64),
    From(i64),
    Default,
    /// op, form, left, right, integer
    Bin(u8, u8, usize, usize, i64),
    Neg(bool, usize),
    Sum(bool, Vec<usize>),
    IsBinary(usize),
    Powers(Vec<usize>, i64),
}

/// Result of a step: field value, and the integer when no variable or builder is involved.
#[derive(Clone, Copy, Debug)]
struct Val {
    m: M,
    int: Option<i64>,
}

fn combine(op: u8, a: Val, b: Val) -> Option<Val> {
    let int = match (a.int, b.int) {
        (Some(x), Some(y)) => Some(match op {
            0 => x.checked_add(y)?,
            1 => x.checked_sub(y)?,
            _ => x.checked_mul(y)?,
        }),
        _ => None,
    };
    Some(Val { m: M::bin(op, a.m, b.m), int })
}

fn of_int(i: i64) -> Val { Val { m: M::int(i.into()), int: Some(i) } }

/// The meaning of a step; `None` when it would leave the range of pure integers.
fn meaning(ins: &Ins, v: &[Val], lits: &[M]) -> Option<Val> {
    Some(match ins {
        Ins::Lit(i) => Val { m: lits[*i], int: None },
        Ins::Constant(i) => Val { m: M::int((*i).into()), int: None },
        Ins::From(i) => of_int(*i),
        Ins::Default => of_int(0),
        Ins::Bin(op, form, a, b, i) => match form {
            0 | 3 | 5 => combine(*op, v[*a], v[*b])?,
            1 | 4 => combine(*op, v[*a], of_int(*i))?,
            _ => combine(*op, of_int(*i), v[*b])?,
        },
        Ins::Neg(_, a) => Val { m: M::neg(v[*a].m), int: match v[*a].int { Some(x) => Some(x.checked_neg()?), None => None } },
        Ins::Sum(_, xs) => xs.iter().try_fold(of_int(0), |s, x| combine(0, s, v[*x]))?,
        Ins::IsBinary(a) => combine(2, v[*a], combine(1, of_int(1), v[*a])?)?,
        Ins::Powers(xs, base) => xs.iter().rev().try_fold(of_int(0), |s, x| combine(0, combine(2, s, of_int(*base))?, v[*x]))?,
    })
}

/// The same step through the real operators.
fn build<'a, V: Copy>(eb: &'a ExprBuilder, ins: &Ins, v: &[Expr<'a, V>], lits: &[V]) -> Expr<'a, V> {
    match ins {
        Ins::Lit(i) => eb.lit(lits[*i]),
        Ins::Constant(i) => eb.constant(*i),
        Ins::From(i) => Expr::from(*i),
        Ins::Default => Expr::default(),
        Ins::Bin(op, form, a, b, i) => {
            let (x, y, i) = (v[*a], v[*b], *i);
            let mut z = x;
            match (op, form) {
                (0, 0) => x + y,
                (0, 1) => x + i,
                (0, 2) => i + y,
                (0, 3) => x + &y,
                (0, 4) => {
                    z += i;
                    z
                }
                (0, _) => {
                    z += y;
                    z
                }
                (1, 0) => x - y,
                (1, 1) => x - i,
                (1, 2) => i - y,
                (1, 3) => x - &y,
                (1, 4) => {
                    z -= i;
                    z
                }
                (1, _) => {
                    z -= y;
                    z
                }
                (_, 0) => x * y,
                (_, 1) => x * i,
                (_, 2) => i * y,
                (_, 3) => x * &y,
                (_, 4) => {
                    z *= i;
                    z
                }
                (_, _) => {
                    z *= y;
                    z
                }
            }
        }
        Ins::Neg(r, a) => if *r { -&v[*a] } else { -v[*a] },
        Ins::Sum(r, xs) => {
            let t: Vec<Expr<'a, V>> = xs.iter().map(|x| v[*x]).collect();
            if *r { t.iter().sum() } else { t.into_iter().sum() }
        }
        Ins::IsBinary(a) => v[*a].is_binary(),
        Ins::Powers(xs, b) => Expr::reduce_with_powers(xs.iter().map(|x| v[*x]), *b),
    }
}

fn ints(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 => i64::MAX - r.below(3) as i64,
        1 => i64::MIN + r.below(3) as i64,
        2 => r.u64() as i64,
        3 => (r.u32() as i64) << r.below(3),
        4 => -(r.u32() as i64),
        _ => r.below(9) as i64 - 4,
    }
}

fn random_program(r: &mut Rng, lits: &[M], len: usize, small: bool) -> (Vec<Ins>, Vec<Val>) {
    let (mut p, mut v) = (vec![], vec![]);
    while p.len() < len {
        let n = v.len().max(1);
        // prefer recent ones, so that formulas are deep and shared
        let pick = |r: &mut Rng| if r.chance(1, 2) { n - 1 - r.idx(n.min(4)) } else { r.idx(n) };
        let int = |r: &mut Rng| if small { r.below(5) as i64 - 2 } else { ints(r) };
        let ins = match if v.is_empty() { r.below(4) } else { r.below(20) } {
            0 => Ins::Lit(r.idx(lits.len())),
            1 => Ins::Constant(int(r)),
            2 => Ins::From(int(r)),
            3 => Ins::Default,
            4 => Ins::Neg(r.chance(1, 2), pick(r)),
            5 => Ins::Sum(r.chance(1, 2), (0..r.below(6)).map(|_| pick(r)).collect()),
            6 => Ins::IsBinary(pick(r)),
            7 => Ins::Powers((0..r.below(6)).map(|_| pick(r)).collect(), int(r)),
            8 | 9 => Ins::Lit(r.idx(lits.len())),
            _ => Ins::Bin(r.below(3) as u8, r.below(6) as u8, pick(r), pick(r), int(r)),
        };
        let Some(x) = meaning(&ins, &v, lits) else { continue };
        p.push(ins);
        v.push(x);
    }
    (p, v)
}

/// An evaluator that keeps the rules of the algebra visible: it evaluates to own arithmetic.
struct Own {
    ops: u64,
}
impl<'a> Evaluator<'a, Wrap> for Own {
    fn bin_op(&mut self, op: BinOp, l: Wrap, r: Wrap) -> Wrap {
        self.ops += 1;
        Wrap(M::bin(match op { BinOp::Add => 0, BinOp::Sub => 1, BinOp::Mul => 2 }, l.0, r.0))
    }

    fn una_op(&mut self, op: UnaOp, x: Wrap) -> Wrap {
        self.ops += 1;
        match op {
            UnaOp::Neg => Wrap(M::neg(x.0)),
        }
    }

    fn constant(&mut self, value: i64) -> Wrap { Wrap(M::int(value.into())) }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Wrap(M);

fn f(m: u128) -> F { F::from_canonical_u64(m as u64) }
fn un(x: F) -> u128 { x.to_canonical_u64().into() }

type Fails = Vec<(String, String)>;

fn compare<V: Debug>(what: &str, p: &[Ins], vals: &[Val], got: Vec<V>, conv: impl Fn(&V) -> M, want: impl Fn(M) -> M, out: &mut Fails) {
    if got.len() != vals.len() {
        out.push((format!("{what}/count"), format!("{} values for {}", got.len(), vals.len())));
    }
    for (i, (g, w)) in got.iter().zip(vals).enumerate() {
        if conv(g) != want(w.m) {
            let kind = match &p[i] {
                Ins::Bin(op, form, ..) => format!("{}-{}", ["add", "sub", "mul"][*op as usize], ["expr-expr", "expr-int", "int-expr", "expr-ref", "assign-int", "assign-expr"][*form as usize]),
                x => format!("{x:?}").split(['(', ' ', '{']).next().unwrap_or("").to_lowercase(),
            };
            out.push((format!("{what}/{kind}"), format!("step {i} ({:?}) is {g:?}, expected {:?}\n{:?}", p[i], want(w.m), &p[..=i])));
            return;
        }
    }
}

/// Evaluates all steps in one go, in the given order, with one evaluator.
fn all<'a, V: Copy>(mut e: impl Evaluator<'a, V>, x: &[Expr<'a, V>], order: &[usize]) -> Vec<V> {
    let mut out: HashMap<usize, V> = HashMap::new();
    for i in order {
        out.insert(*i, e.eval(x[*i]));
    }
    (0..x.len()).map(|i| out[&i]).collect()
}

fn generic<V: Copy + Debug>(name: &str, r: &mut Rng, p: &[Ins], vals: &[Val], lits: &[V], conv: impl Fn(&V) -> M, want: impl Fn(M) -> M, pure: impl Fn() -> PureEvaluator<V>, out: &mut Fails)
where
    PureEvaluator<V>: for<'a> Evaluator<'a, V>, {
    let eb = ExprBuilder::default();
    let mut x: Vec<Expr<'_, V>> = vec![];
    for i in p {
        let y = build(&eb, i, &x, lits);
        x.push(y);
    }
    // without caching the sharing is unfolded, so only small formulas
    let mut size: Vec<u64> = vec![];
    for i in p {
        let s = |j: &usize| size[*j];
        size.push(1 + match i {
            Ins::Bin(_, 0 | 3 | 5, a, b, _) => s(a) + s(b),
            Ins::Bin(_, 1 | 4, a, ..) => s(a),
            Ins::Bin(_, _, _, b, _) => s(b),
            Ins::Neg(_, a) => s(a),
            Ins::Sum(_, v) | Ins::Powers(v, _) => v.iter().map(s).sum::<u64>() * 2,
            Ins::IsBinary(a) => 2 * s(a),
            _ => 0,
        });
        let l = size.len() - 1;
        size[l] = size[l].min(1 << 40);
    }
    let mut order: Vec<usize> = (0..p.len()).collect();
    r.shuffle(&mut order);
    let small: Vec<usize> = (0..p.len()).take_while(|i| size[*i] < 2000).collect();
    let n = small.len();
    compare(&format!("{name}/pure"), p, &vals[..n], all(pure(), &x[..n], &small), &conv, &want, out);
    compare(&format!("{name}/cached"), p, vals, all(Cached::from(pure()), &x, &order), &conv, &want, out);
    order.reverse();
    compare(&format!("{name}/cached-twice"), p, vals, all(Cached::<V, Cached<V, PureEvaluator<V>>>::from(Cached::<V, _>::from(pure())), &x, &order), &conv, &want, out);
}

fn counting(p: &[Ins], vals: &[Val], lits: &[i64], out: &mut Fails) {
    let eb = ExprBuilder::default();
    let mut x: Vec<Expr<'_, i64>> = vec![];
    for i in p {
        let y = build(&eb, i, &x, lits);
        x.push(y);
    }
    let mut c = Counting::<PureEvaluator<i64>>::default();
    for (i, e) in x.iter().enumerate() {
        let before = c.count();
        let g = c.eval(*e);
        if M::int(g.into()) != vals[i].m {
            out.push(("counting/value".into(), format!("step {i} of {p:?} is {g}, expected {:?}", vals[i])));
            return;
        }
        if c.count() < before {
            out.push(("counting/count".into(), format!("the count went from {before} to {}", c.count())));
        }
        if i % 3 == 0 {
            c.reset();
            if c.count() != 0 {
                out.push(("counting/reset".into(), format!("{}", c.count())));
            }
        }
    }
    let mut c: Cached<i64, Counting<PureEvaluator<i64>>> = Cached::default();
    for (i, e) in x.iter().enumerate().rev() {
        let g = c.eval(*e);
        if M::int(g.into()) != vals[i].m {
            out.push(("cached-counting/value".into(), format!("step {i} of {p:?} is {g}, expected {:?}", vals[i])));
            return;
        }
    }
}

/// Bounds of integer formulas: the size of every intermediate value.
fn int_bound(p: &[Ins], lits: &[i64]) -> usize {
    let mut b: Vec<f64> = vec![];
    let one = |b: &Vec<f64>, x: &usize| b[*x];
    for (n, i) in p.iter().enumerate() {
        let x = match i {
            Ins::Lit(i) => (lits[*i] as f64).abs(),
            Ins::Constant(i) | Ins::From(i) => (*i as f64).abs(),
            Ins::Default => 0.,
            Ins::Bin(op, form, l, r, i) => {
                let (l, r) = match form {
                    0 | 3 | 5 => (b[*l], b[*r]),
                    1 | 4 => (b[*l], (*i as f64).abs()),
                    _ => ((*i as f64).abs(), b[*r]),
                };
                if *op == 2 { l * r } else { l + r }
            }
            Ins::Neg(_, a) => b[*a],
            Ins::Sum(_, v) => v.iter().map(|x| one(&b, x)).sum(),
            Ins::IsBinary(a) => b[*a] * (b[*a] + 1.),
            Ins::Powers(v, base) => v.iter().rev().fold(0., |s, x| s * (*base as f64).abs() + b[*x]),
        };
        if x > 1e18 {
            return n;
        }
        b.push(x);
    }
    p.len()
}

fn kinds(r: &mut Rng, n: usize) -> Vec<u8> { (0..n).map(|_| r.below(4) as u8).collect() }

fn constraints<'a, V: Copy>(kinds: &[u8], x: &[Expr<'a, V>]) -> ConstraintBuilder<Expr<'a, V>> {
    let mut cb = ConstraintBuilder::default();
    for (k, e) in kinds.iter().zip(x) {
        match k {
            0 => cb.always(*e),
            1 => cb.transition(*e),
            2 => cb.first_row(*e),
            _ => cb.last_row(*e),
        }
    }
    cb
}

fn rows_of(k: u8) -> Rows { [Rows::All, Rows::Transition, Rows::First, Rows::Last][k as usize] }

fn via_packed<FE, PF, const D2: usize>(name: &str, kinds: &[u8], p: &[Ins], vals: &[Val], lits: &[PF], conv: impl Fn(&PF) -> M, out: &mut Fails)
where
    FE: plonky2::field::extension::FieldExtension<D2, BaseField = F>,
    PF: PackedField<Scalar = FE>, {
    let eb = ExprBuilder::default();
    let mut x: Vec<Expr<'_, PF>> = vec![];
    for i in p {
        let y = build(&eb, i, &x, lits);
        x.push(y);
    }
    let mut c = ConstraintConsumer::<PF>::new_recording();
    build_packed::<F, FE, PF, D, D2>(constraints(kinds, &x), &mut c);
    let got = c.recorded();
    if got.iter().map(|s| s.rows).ne(kinds.iter().map(|k| rows_of(*k))) {
        out.push((format!("{name}/kinds"), format!("{:?} for {kinds:?}", got.iter().map(|s| s.rows).collect::<Vec<_>>())));
        return;
    }
    compare(name, p, vals, got.into_iter().map(|s| s.value).collect(), conv, |m| m, out);
}

fn via_circuit(kinds: &[u8], p: &[Ins], vals: &[Val], lits: &[M], out: &mut Fails) {
    let mut b = CircuitBuilder::<F, D>::new(CircuitConfig::standard_recursion_config());
    let lt: Vec<ExtensionTarget<D>> = lits.iter().map(|_| b.add_virtual_extension_target()).collect();
    let zero = b.zero_extension();
    let one = b.one_extension();
    let mut rc = RecursiveConstraintConsumer::new(zero, vec![], one, one, one);
    let eb = ExprBuilder::default();
    let mut x = vec![];
    for i in p {
        let y = build(&eb, i, &x, &lt);
        x.push(y);
    }
    record_circuit_constraints();
    build_ext(constraints(kinds, &x), &mut b, &mut rc);
    let seen = take_circuit_constraints();
    if seen.iter().map(|s| s.0).ne(kinds.iter().map(|k| rows_of(*k))) {
        out.push(("circuit/kinds".into(), format!("{:?} for {kinds:?}", seen.iter().map(|s| s.0).collect::<Vec<_>>())));
        return;
    }
    for s in &seen {
        b.register_public_inputs(&s.1);
    }
    let data = b.build::<C>();
    let mut pw = PartialWitness::new();
    for (t, m) in lt.iter().zip(lits) {
        pw.set_extension_target(*t, QuadraticExtension([f(m.0[0]), f(m.0[1])]));
    }
    match data.prove(pw) {
        Err(e) => out.push(("circuit/unprovable".into(), format!("{e}\n{p:?}"))),
        Ok(pr) => {
            let got: Vec<M> = pr.public_inputs.chunks(D).map(|c| M([un(c[0]), un(c[1])])).collect();
            compare("circuit", p, vals, got, |m| *m, |m| m, out);
        }
    }
}

fn round(m: &Mon, r: &mut Rng) {
    m.eval();
    let len = *r.pick(&[3usize, 8, 20, 60]);
    let base_field = r.chance(1, 2);
    let el = |r: &mut Rng| -> u128 {
        match r.below(4) {
            0 => r.below(3).into(),
            1 => P - 1 - u128::from(r.below(3)),
            2 => r.u32().into(),
            _ => u128::from(r.u64()) % P,
        }
    };
    let lits: Vec<M> = (0..6).map(|_| M([el(r), if base_field { 0 } else { el(r) }])).collect();
    let (p, vals) = random_program(r, &lits, len, false);
    m.nontrivial(monlib::fnv(format!("{p:?}").as_bytes()));
    for i in &p {
        match i {
            Ins::Bin(o, f, ..) => m.count(&format!("operator:{}-{}", ["add", "sub", "mul"][*o as usize], f), 1),
            x => m.count(&format!("step:{}", format!("{x:?}").split(['(', ' ']).next().unwrap_or("")), 1),
        }
    }
    if r.chance(1, 500) {
        m.sample(json!({"formula": format!("{p:?}"), "last value": format!("{:?}", vals.last())}));
    }
    let k = kinds(r, p.len());
    let seed = r.u64();
    let res = guard(|| {
        let mut r = Rng::new(seed);
        let mut out = vec![];
        let el: Vec<E> = lits.iter().map(|m| QuadraticExtension([f(m.0[0]), f(m.0[1])])).collect();
        let ce = |x: &E| M([un(x.0[0]), un(x.0[1])]);
        generic("own", &mut r, &p, &vals, &el, ce, |m| m, || packed_field_evaluator::<F, E, E, D, D>(), &mut out);
        via_packed::<E, E, D>("constraints-ext", &k, &p, &vals, &el, ce, &mut out);
        via_circuit(&k, &p, &vals, &lits, &mut out);
        // a visible evaluator of our own, with and without a cache
        {
            let eb = ExprBuilder::default();
            let wl: Vec<Wrap> = lits.iter().map(|m| Wrap(*m)).collect();
            let mut x: Vec<Expr<'_, Wrap>> = vec![];
            for i in &p {
                let y = build(&eb, i, &x, &wl);
                x.push(y);
            }
            let order: Vec<usize> = (0..p.len()).collect();
            compare("own-evaluator", &p, &vals, all(Cached::from(Own { ops: 0 }), &x, &order), |w| w.0, |m| m, &mut out);
        }
        if base_field {
            let fl: Vec<F> = lits.iter().map(|m| f(m.0[0])).collect();
            let cf = |x: &F| M([un(*x), 0]);
            generic("field", &mut r, &p, &vals, &fl, cf, |m| m, || packed_field_evaluator::<F, F, F, D, 1>(), &mut out);
            via_packed::<F, F, 1>("constraints-base", &k, &p, &vals, &fl, cf, &mut out);
            // four different values in one pack: each lane is its own formula value
            let lane: Vec<Vec<M>> = (0..4).map(|j| (0..lits.len()).map(|i| lits[(i + j) % lits.len()]).collect()).collect();
            let pl: Vec<Pack4<F>> = (0..lits.len()).map(|i| Pack4(core::array::from_fn(|j| f(lane[j][i].0[0])))).collect();
            for (j, l) in lane.iter().enumerate() {
                let mut v: Vec<Val> = vec![];
                for i in &p {
                    let Some(y) = meaning(i, &v, l) else { return vec![("own/lane".to_string(), "the model depends on values".to_string())] };
                    v.push(y);
                }
                via_packed::<F, Pack4<F>, 1>("constraints-packed", &k, &p, &v, &pl, |x| M([un(x.0[j]), 0]), &mut out);
            }
        }
        out
    });
    match res {
        Ok(v) => v.into_iter().for_each(|(s, d)| m.violation(&s, &d)),
        Err(e) => m.violation("panics", &format!("{e}\n{p:?}")),
    }
    // integers as values
    let il: Vec<i64> = (0..6).map(|_| r.below(7) as i64 - 3).collect();
    let im: Vec<M> = il.iter().map(|x| M::int((*x).into())).collect();
    let (p, vals) = random_program(r, &im, 12, true);
    let n = int_bound(&p, &il);
    let res = guard(|| {
        let mut out = vec![];
        counting(&p[..n], &vals[..n], &il, &mut out);
        out
    });
    match res {
        Ok(v) => v.into_iter().for_each(|(s, d)| m.violation(&s, &d)),
        Err(e) => m.violation("panics-integers", &format!("{e}\n{p:?}")),
    }
}

/// Pure integers beyond 64 bits.
fn overflow(m: &Mon) {
    let cases: [(&str, fn() -> Expr<'static, F>, i128); 4] = [
        ("max + 1", || Expr::from(i64::MAX) + 1, i64::MAX as i128 + 1),
        ("min - 1", || Expr::from(i64::MIN) - 1, i64::MIN as i128 - 1),
        ("2^62 * 4", || Expr::from(1i64 << 62) * 4, 1i128 << 64),
        ("-min", || -Expr::from(i64::MIN), -(i64::MIN as i128)),
    ];
    for (n, e, want) in cases {
        m.eval();
        match guard(|| packed_field_evaluator::<F, F, F, D, 1>().eval(e())) {
            Ok(v) if M([un(v), 0]) == M::int(want) => {}
            Ok(v) => m.violation("basic-fold-overflow", &format!("{n} = {v:?}")),
            Err(p) => m.violation("basic-fold-overflow", &format!("{n}: {p}")),
        }
    }
}

/// Sharing must not cost time: 2^80 paths.
fn sharing(m: &Mon) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let eb = ExprBuilder::default();
        let mut x = eb.lit(f(3));
        let mut y = M::int(3);
        for i in 0..80 {
            (x, y) = if i % 2 == 0 { (x * x, M::bin(2, y, y)) } else { (x + x, M::bin(0, y, y)) };
        }
        let got = Cached::from(packed_field_evaluator::<F, F, F, D, 1>()).eval(x);
        let _ = tx.send((un(got), y));
    });
    m.eval();
    match rx.recv_timeout(std::time::Duration::from_secs(120)) {
        Ok((g, y)) if M([g, 0]) == y => {}
        Ok((g, y)) => m.violation("sharing", &format!("{g} instead of {y:?}")),
        Err(e) => m.violation("sharing-not-used", &format!("a formula of 80 shared nodes: {e}")),
    }
}

pub fn run() -> ! {
    let m = Mon::new("C28");
    overflow(&m);
    sharing(&m);
    let n = m.n(150_000, 5_000_000);
    let t = std::sync::atomic::AtomicU64::new(0);
    monlib::parallel(monlib::cores(), |w| {
        let mut r: Rng = m.rng(w + 1);
        while t.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < n && m.within(40, 600) {
            round(&m, &mut r);
        }
    });
    m.assume("field and extension arithmetic and the circuit builder are stand-ins; the expected values come from separate modular arithmetic");
    m.finish("one evaluation is one random formula DAG of up to 60 steps over all operator forms, combinators and constants, evaluated by the pure, cached, counting, packed, extension and in-circuit evaluators and compared at every step with separate modular arithmetic; distinct: hash of the formula")
}

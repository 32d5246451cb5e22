//! C02: proofs of false statements are rejected, and only exempt rows may violate a constraint.
#[path = "../../kit/fam.rs"]
mod fam;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::hooks::{self, Event};
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::proof::{options::ProofOptions, stark::StarkProof};
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::starks::constraints::boundary::BoundaryConstraints;
use lambdaworks_stark::starks::example::dummy_air::{dummy_trace, DummyAIR};
use lambdaworks_stark::starks::example::fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs};
use lambdaworks_stark::starks::example::{fibonacci_2_columns, quadratic_air, simple_fibonacci};
use lambdaworks_stark::starks::{context::AirContext, frame::Frame, trace::TraceTable, traits::AIR};
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use std::sync::Arc;

fn menu(cols: usize, full: bool) -> Menu {
    use Kind::*;
    Menu {
        offsets: if full { vec![vec![0, 1], vec![0, 1, 2], vec![0], vec![0, 2], vec![0, 1, 3], vec![0, 3], vec![1, 0], vec![2, 0, 1], vec![0, 1, 1]] } else { vec![vec![0, 1], vec![0, 1, 2], vec![0], vec![0, 2], vec![1, 0]] },
        kinds: vec![Fib, Sq, Cube, SquareOf(0), Bool, Alt],
        max_cols: cols,
        aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0)], vec![Aux::Perm(0, 0), Aux::Scaled(0)]],
        extra: vec![0, 1, 2],
        bnd: 5,
    }
}

/// The auxiliary randomness of the prover's run: its first challenges.
fn prove_recorded<F: IsFFTField>(
    rows: &[Vec<E<F>>],
    spec: &Arc<Spec<F>>,
    o: &ProofOptions,
) -> (Option<StarkProof<F>>, Vec<E<F>>)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    hooks::start_recording();
    let r = guard(|| prove::<F, FamAir<F>>(&table(rows), spec, o));
    let ev = hooks::stop_recording();
    let rap = ev
        .iter()
        .filter_map(|e| match e {
            Event::Challenge(c) => Some(*c),
            _ => None,
        })
        .take(spec.n_rap)
        .map(|mut c| {
            // top bits cleared so that the value is below the field's modulus
            let clear = 256 - (F::field_bit_size() - 1);
            for i in 0..clear {
                c[i / 8] &= !(0x80 >> (i % 8));
            }
            E::<F>::from_bytes_be(&c).unwrap()
        })
        .collect();
    (r.ok().and_then(|r| r.ok()), rap)
}

/// Proves `rows` under `claimed` and compares the verdict with the plain-matrix oracle.
fn compare<F: IsFFTField>(ch: &Ch, rows: &[Vec<E<F>>], prover: &Arc<Spec<F>>, claimed: &Arc<Spec<F>>, o: &ProofOptions, what: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let (proof, rap) = prove_recorded(rows, prover, o);
    ch.ops(1);
    ch.validated(1);
    let n = rows.len();
    let name = || format!("{what}: {} n={n} {o:?}", claimed.name());
    ch.state(&(claimed.name(), n, o.blowup_factor, what));
    let full = if rap.len() == prover.n_rap { Some(prover.full_rows(rows, &rap)) } else { None };
    let Some(full) = full else {
        return ch.outcome("prover gave up before committing");
    };
    let bad = claimed.violated(&full, &rap);
    let Some(proof) = proof else {
        if bad.is_none() {
            ch.fail("no-proof-of-true-statement", name());
        } else {
            ch.outcome("false: no proof");
        }
        return;
    };
    let v = guard(|| verify::<F, FamAir<F>>(&proof, claimed, o));
    match (bad, v) {
        (None, Ok(true)) => ch.outcome("true: accepted"),
        (None, v) => ch.fail("true-statement-rejected", format!("{v:?} {}", name())),
        (Some(_), Ok(false)) => ch.outcome("false: rejected"),
        (Some(why), v) => {
            let kind = why.split(' ').next().unwrap().to_string();
            ch.fail(format!("false-statement-accepted:{kind}"), format!("{v:?}, violated {why}; {}", name()))
        }
    }
}

fn cells<F: IsFFTField>(ch: &mut Ch, lens: &[usize], m: &Menu, blow: &[u8])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let Some((spec, rows)) = choose::<F>(ch, n, m) else { return };
    let b = ch.of(blow);
    if !spec.carried_by(n, b as usize) {
        return;
    }
    let o = opts(b, 1, 7, 0);
    let spec = Arc::new(spec);
    compare(ch, &rows, &spec, &spec, &o, "unchanged");
    // an unconstrained change may leave the composition polynomial too high: the reference only decides
    // about statements the shape supports, which exempt rows always are
    for r in 0..n {
        for c in 0..spec.main.len() {
            let mut bad = rows.clone();
            bad[r][c] = &bad[r][c] + &E::<F>::one();
            compare(ch, &bad, &spec, &spec, &o, &format!("cell ({r},{c}) plus one"));
        }
        for c in 0..spec.aux.len() {
            let mut f = (*spec).clone();
            f.aux_fault = Some((r, c, 1));
            compare(ch, &rows, &Arc::new(f), &spec, &o, &format!("auxiliary cell ({r},{c}) plus one"));
        }
    }
    ch.sample(|| serde_json::json!({"system": spec.name(), "n": n, "cells": n * spec.n_cols()}));
}

/// The verifier asks for another statement than the one proven.
fn other_statement<F: IsFFTField>(ch: &mut Ch, lens: &[usize], m: &Menu)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let Some((spec, rows)) = choose::<F>(ch, n, m) else { return };
    if !spec.carried_by(n, 4) {
        return;
    }
    other_statements::<F>(ch, spec, rows, n, 1)
}
/// Every changed statement, or a chosen share of them.
fn other_statements<F: IsFFTField>(ch: &mut Ch, spec: Spec<F>, rows: Vec<Vec<E<F>>>, n: usize, shares: usize)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let share = if shares > 1 { ch.pick(shares) } else { 0 };
    let count = std::cell::Cell::new(0usize);
    let o = opts(4, 2, 7, 1);
    let spec = Arc::new(spec);
    let (Some(proof), rap) = prove_recorded(&rows, &spec, &o) else { return };
    let full = spec.full_rows(&rows, &rap);
    let check = |s: Spec<F>, what: String| {
        count.set(count.get() + 1);
        if count.get() % shares != share || s.violated(&full, &rap).is_none() {
            return;
        }
        ch.ops(1);
        ch.validated(1);
        ch.state(&(spec.name(), n, &what));
        let v = guard(|| verify::<F, FamAir<F>>(&proof, &Arc::new(s.clone()), &o));
        if v == Ok(false) {
            ch.outcome("other statement: rejected");
        } else {
            ch.fail("other-statement-accepted", format!("{v:?} {what}: {} n={n}", spec.name()));
        }
    };
    for i in 0..spec.bnd.len() {
        for d in [1u64, 1 << 31, 77] {
            let mut s = (*spec).clone();
            s.bnd[i].value = &s.bnd[i].value + &E::<F>::from(d);
            check(s, format!("boundary value {i} plus {d}"));
        }
        for st in 0..n {
            let mut s = (*spec).clone();
            s.bnd[i].step = st;
            check(s, format!("boundary {i} moved to step {st}"));
        }
        for c in 0..spec.n_cols() {
            let mut s = (*spec).clone();
            s.bnd[i].col = c;
            check(s, format!("boundary {i} moved to column {c}"));
        }
    }
    for c in 0..spec.n_cols() {
        for st in 0..n {
            let mut s = (*spec).clone();
            s.bnd.push(Bnd { col: c, step: st, value: &full[st][c] + &E::<F>::one() });
            check(s, format!("extra boundary at ({st},{c})"));
        }
    }
    for k in 0..spec.cons.len() {
        for e in 0..spec.cons[k].exempt {
            let mut s = (*spec).clone();
            s.cons[k].exempt = e;
            check(s, format!("constraint {k} in force on all but {e} rows"));
        }
        let mut s = (*spec).clone();
        s.cons[k].terms.push(Term { coef: 1, cells: vec![], rap: None });
        check(s, format!("constraint {k} plus one"));
    }
    // other options
    for b in [1u8, 2, 8, 16] {
        option(ch, &proof, &spec, &opts(b, 2, 7, 1), n);
    }
    for off in [3u64, 5, 14, 49] {
        option(ch, &proof, &spec, &opts(4, 2, off, 1), n);
    }
    for q in [3usize, 4, 20] {
        option(ch, &proof, &spec, &opts(4, q, 7, 1), n);
    }
    option(ch, &proof, &spec, &opts(4, 2, 7, 60), n);
}

fn option<F: IsFFTField>(ch: &Ch, proof: &StarkProof<F>, spec: &Arc<Spec<F>>, o: &ProofOptions, n: usize)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    if !legal_offset::<F>(o.coset_offset, n, o.blowup_factor as usize) {
        return;
    }
    ch.ops(1);
    ch.validated(1);
    ch.state(&(spec.name(), n, format!("{o:?}")));
    let v = guard(|| verify::<F, FamAir<F>>(proof, spec, o));
    if v == Ok(false) {
        ch.outcome("other options: rejected");
    } else {
        ch.fail("other-options-accepted", format!("{v:?} {o:?}: {} n={n}", spec.name()));
    }
}

/// A shipped system whose auxiliary column may be built wrongly by the prover.
#[derive(Clone)]
struct Tampered<A: AIR> {
    air: A,
    fault: Option<(usize, E<A::Field>)>,
    inputs: (A::PublicInputs, Option<(usize, E<A::Field>)>),
}

impl<A: AIR> AIR for Tampered<A>
where
    A::PublicInputs: Clone,
{
    type Field = A::Field;
    type RAPChallenges = A::RAPChallenges;
    type PublicInputs = (A::PublicInputs, Option<(usize, E<A::Field>)>);

    fn new(n: usize, inputs: &Self::PublicInputs, o: &ProofOptions) -> Self {
        Tampered { air: A::new(n, &inputs.0, o), fault: inputs.1.clone(), inputs: inputs.clone() }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<Self::Field>, rap: &Self::RAPChallenges) -> TraceTable<Self::Field> {
        let aux = self.air.build_auxiliary_trace(main, rap);
        let Some((row, d)) = &self.fault else { return aux };
        let mut cols = aux.cols();
        cols[0][*row] = &cols[0][*row] + d;
        TraceTable::new_from_cols(&cols)
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> Self::RAPChallenges {
        self.air.build_rap_challenges(t)
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.air.number_auxiliary_rap_columns()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.air.composition_poly_degree_bound()
    }
    fn compute_transition(&self, f: &Frame<Self::Field>, rap: &Self::RAPChallenges) -> Vec<E<Self::Field>> {
        self.air.compute_transition(f, rap)
    }
    fn boundary_constraints(&self, rap: &Self::RAPChallenges) -> BoundaryConstraints<Self::Field> {
        self.air.boundary_constraints(rap)
    }
    fn context(&self) -> &AirContext {
        self.air.context()
    }
    fn trace_length(&self) -> usize {
        self.air.trace_length()
    }
    fn pub_inputs(&self) -> &Self::PublicInputs {
        &self.inputs
    }
}

/// What a shipped system says about its main rows, and which of its auxiliary cells are tied down.
struct Says<'a, F: IsFFTField> {
    name: &'a str,
    main: &'a dyn Fn(&[Vec<E<F>>]) -> bool,
    aux_rows: usize,
}

/// Every cell of an honest trace of a shipped system departs, by every amount: accepted exactly when
/// what the system says still holds.
fn departures<A: AIR + Send + Sync>(ch: &Ch, t: &TraceTable<A::Field>, says: &Says<A::Field>, pi: A::PublicInputs, o: &ProofOptions)
where
    A::PublicInputs: Clone + Send + Sync,
    A::RAPChallenges: Send + Sync,
    FieldElement<A::Field>: ByteConversion + Send + Sync,
{
    let honest: Vec<Vec<E<A::Field>>> = t.rows();
    let n = honest.len();
    let run = |rows: &[Vec<E<A::Field>>], fault: Option<(usize, E<A::Field>)>, holds: bool, what: String| {
        ch.ops(1);
        ch.validated(1);
        ch.state(&(says.name, n, &what, o.blowup_factor));
        let name = || format!("{} n={n} {o:?}: {what}", says.name);
        let claimed = (pi.clone(), None);
        let departed = (pi.clone(), fault);
        let proof = match guard(|| prove::<A::Field, Tampered<A>>(&table(rows), &departed, o)) {
            Ok(Ok(p)) => p,
            _ if holds => return ch.fail("no-proof-of-true-statement", name()),
            _ => return ch.outcome("false: no proof"),
        };
        let v = guard(|| verify::<A::Field, Tampered<A>>(&proof, &claimed, o));
        match (holds, v) {
            (true, Ok(true)) => ch.outcome("true: accepted"),
            (true, v) => ch.fail("true-statement-rejected", format!("{v:?} {}", name())),
            (false, Ok(false)) => ch.outcome("false: rejected"),
            (false, v) => ch.fail(format!("false-statement-accepted:{}", says.name), format!("{v:?} {}", name())),
        }
    };
    run(&honest, None, (says.main)(&honest), "unchanged".into());
    for d in [fe::<A::Field>(1), fe::<A::Field>(-1), fe::<A::Field>(1 << 40)] {
        for r in 0..n {
            for c in 0..honest[0].len() {
                let mut rows = honest.clone();
                rows[r][c] = &rows[r][c] + &d;
                let holds = (says.main)(&rows);
                run(&rows, None, holds, format!("cell ({r},{c}) plus {d:?}"));
            }
            if says.aux_rows > 0 {
                run(&honest, Some((r, d.clone())), r >= says.aux_rows, format!("auxiliary cell {r} plus {d:?}"));
            }
        }
    }
}

/// Honest proofs of a shipped system, put forward for other public inputs, each false of the trace.
fn other_inputs<A: AIR + Send + Sync>(ch: &Ch, t: &TraceTable<A::Field>, pi: A::PublicInputs, others: Vec<A::PublicInputs>, o: &ProofOptions, name: &str)
where
    A::PublicInputs: Clone + Send + Sync + std::fmt::Debug,
    A::RAPChallenges: Send + Sync,
    FieldElement<A::Field>: ByteConversion + Send + Sync,
{
    let Ok(Ok(proof)) = guard(|| prove::<A::Field, A>(t, &pi, o)) else {
        return ch.fail("no-proof-of-true-statement", format!("{name} {pi:?} n={} {o:?}", t.n_rows()));
    };
    for other in others {
        ch.ops(1);
        ch.validated(1);
        let what = format!("{name} proven for {pi:?}, put forward for {other:?}, n={} {o:?}", t.n_rows());
        ch.state(&what);
        match guard(|| verify::<A::Field, A>(&proof, &other, o)) {
            Ok(false) => ch.outcome("other inputs: rejected"),
            v => ch.fail(format!("other-inputs-accepted:{name}"), format!("{v:?} {what}")),
        }
    }
}

fn shipped<F: IsFFTField>(ch: &mut Ch, lens: &[usize])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let one = fe::<F>(1);
    let o = ch.of(&[ProofOptions::default_test_options(), opts(2, 1, 7, 0), opts(8, 2, 5, 2)]);
    let which = ch.pick(4);
    let (a0, a1) = ch.of(&[(1i64, 1i64), (0, 3), (-1, 2)]);
    let (a0, a1) = (fe::<F>(a0), fe::<F>(a1));
    let fib = simple_fibonacci::FibonacciPublicInputs { a0: a0.clone(), a1: a1.clone() };
    let amounts = [fe::<F>(1), fe::<F>(-1), fe::<F>(1 << 40)];
    let pairs = || {
        let mut v: Vec<_> = vec![];
        for d in &amounts {
            v.push(simple_fibonacci::FibonacciPublicInputs { a0: &a0 + d, a1: a1.clone() });
            v.push(simple_fibonacci::FibonacciPublicInputs { a0: a0.clone(), a1: &a1 + d });
            v.push(simple_fibonacci::FibonacciPublicInputs { a0: &a0 + d, a1: &a1 - d });
        }
        v.push(simple_fibonacci::FibonacciPublicInputs { a0: a1.clone(), a1: a0.clone() });
        v.retain(|p| p.a0 != a0 || p.a1 != a1);
        v
    };
    let adds = |r: &[Vec<E<F>>], rows: usize| (0..rows).all(|i| r[i + 2][0] == &r[i + 1][0] + &r[i][0]);
    match which {
        0 if n > 2 => {
            let t = simple_fibonacci::fibonacci_trace([a0.clone(), a1.clone()], n);
            let main = |r: &[Vec<E<F>>]| adds(r, n - 2) && r[0][0] == a0 && r[1][0] == a1;
            departures::<simple_fibonacci::FibonacciAIR<F>>(ch, &t, &Says { name: "FibonacciAIR", main: &main, aux_rows: 0 }, fib.clone(), &o);
            other_inputs::<simple_fibonacci::FibonacciAIR<F>>(ch, &t, fib, pairs(), &o, "FibonacciAIR")
        }
        1 => {
            let t = fibonacci_2_columns::fibonacci_trace_2_columns([a0.clone(), a1.clone()], n);
            let main = |r: &[Vec<E<F>>]| {
                let step = |i: usize| r[i + 1][0] == &r[i][0] + &r[i][1] && r[i + 1][1] == &r[i][1] + &r[i + 1][0];
                (0..n - 1).all(step) && r[0] == [a0.clone(), a1.clone()]
            };
            departures::<fibonacci_2_columns::Fibonacci2ColsAIR<F>>(ch, &t, &Says { name: "Fibonacci2ColsAIR", main: &main, aux_rows: 0 }, fib.clone(), &o);
            other_inputs::<fibonacci_2_columns::Fibonacci2ColsAIR<F>>(ch, &t, fib, pairs(), &o, "Fibonacci2ColsAIR")
        }
        2 => {
            let t = quadratic_air::quadratic_trace(a0.clone(), n);
            let main = |r: &[Vec<E<F>>]| (0..n - 1).all(|i| r[i + 1][0] == &r[i][0] * &r[i][0]) && r[0][0] == a0;
            let pi = quadratic_air::QuadraticPublicInputs { a0: a0.clone() };
            departures::<quadratic_air::QuadraticAIR<F>>(ch, &t, &Says { name: "QuadraticAIR", main: &main, aux_rows: 0 }, pi.clone(), &o);
            let others = amounts.iter().map(|d| quadratic_air::QuadraticPublicInputs { a0: &a0 + d }).collect();
            other_inputs::<quadratic_air::QuadraticAIR<F>>(ch, &t, pi, others, &o, "QuadraticAIR")
        }
        // the randomized system fixes its first two values to one; its trace has a row more than its steps
        3 if a0 == one && n > 4 => {
            let steps = ch.range(n / 2, n - 1);
            let t = fibonacci_rap_trace([one.clone(), one.clone()], steps);
            let main = |r: &[Vec<E<F>>]| adds(r, steps - 2) && r[0][0] == one && r[1][0] == one;
            let pi = FibonacciRAPPublicInputs { steps, a0: one.clone(), a1: one.clone() };
            departures::<FibonacciRAP<F>>(ch, &t, &Says { name: "FibonacciRAP", main: &main, aux_rows: n }, pi.clone(), &o);
            // more steps than the trace has
            let others = (steps + 1..n + 3).map(|steps| FibonacciRAPPublicInputs { steps, ..pi.clone() }).collect();
            other_inputs::<FibonacciRAP<F>>(ch, &t, pi, others, &o, "FibonacciRAP")
        }
        _ => {}
    }
}

fn shipped_two_columns(ch: &mut Ch, lens: &[usize]) {
    let n = ch.of(lens);
    let o = ch.of(&[ProofOptions::default_test_options(), opts(2, 1, 7, 0), opts(8, 2, 5, 2)]);
    let one = fe::<S>(1);
    let main = |r: &[Vec<E<S>>]| {
        (0..n).all(|i| r[i][0] == one || r[i][0] == fe::<S>(0))
            && (0..n - 2).all(|i| r[i + 2][1] == &r[i + 1][1] + &r[i][1])
            && r[0][1] == one
            && r[1][1] == one
    };
    departures::<DummyAIR>(ch, &dummy_trace(n), &Says { name: "DummyAIR", main: &main, aux_rows: 0 }, (), &o);
}

/// Many columns, randomized columns, boundary conditions, rows or frame rows.
fn large(ch: &mut Ch) {
    let t = ch.ctx.thorough();
    let many: &[usize] = if t { &[16, 17, 32, 33, 64, 65, 128, 129, 256, 257] } else { &[17, 65, 257] };
    let (mut cols, mut aux, mut nb, mut n, mut offsets) = (2, 1, 2, 8, vec![0, 1]);
    match ch.pick(5) {
        0 => cols = ch.of(many),
        1 => aux = ch.of(many),
        2 => {
            n = 32;
            cols = 9;
            nb = ch.of(many)
        }
        3 => n = 1 << ch.range(4, if t { 11 } else { 9 }),
        _ => offsets = (0..ch.range(2, 6)).collect(),
    }
    let (spec, rows) = big::<G>(n, cols, aux, nb, &offsets);
    if !spec.carried_by(n, 4) {
        return;
    }
    if ch.flag() {
        return if n <= 32 { other_statements::<G>(ch, spec, rows, n, 8) } else { () };
    }
    let o = opts(4, 1, 7, 0);
    let spec = Arc::new(spec);
    let marks = [0, 1, 2, 3, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256];
    let near = |len: usize| -> Vec<usize> { (0..len).filter(|i| i + 2 >= len || *i == len / 2 || marks.contains(i)).collect() };
    let rs = near(n);
    let at = ch.pick(rs.len() + 1);
    if at == 0 {
        return compare(ch, &rows, &spec, &spec, &o, "unchanged");
    }
    let r = rs[at - 1];
    for c in near(cols) {
        let mut bad = rows.clone();
        bad[r][c] = bad[r][c] + E::<G>::one();
        compare(ch, &bad, &spec, &spec, &o, &format!("cell ({r},{c}) plus one"));
    }
    for c in near(aux) {
        let mut f = (*spec).clone();
        f.aux_fault = Some((r, c, 1));
        compare(ch, &rows, &Arc::new(f), &spec, &o, &format!("auxiliary cell ({r},{c}) plus one"));
    }
}

fn main() {
    harness::main("C02", Level::ModelChecking, |ctx| {
        ctx.rule("a satisfying trace with one main or auxiliary cell changed, or a changed statement or option set, for every system in the family; the plain-matrix oracle says whether the result is a true statement");
        ctx.explore("one changed cell", |ch| {
            let l = ch.ctx.tier(vec![2, 4, 8], vec![2, 4, 8, 16]);
            cells::<G>(ch, &l, &menu(ch.ctx.tier(1, 2), true), &[4])
        });
        ctx.explore("one changed cell, two columns", |ch| cells::<G>(ch, &ch.ctx.tier(vec![4], vec![4, 8]), &menu(2, false), &[2, 4]));
        ctx.explore("one changed cell, Stark252", |ch| {
            let mut m = menu(1, false);
            m.extra = vec![0, 1];
            cells::<S>(ch, &[4], &m, &[4])
        });
        let l = ctx.tier(vec![4usize, 8], vec![2, 4, 8, 16]);
        ctx.explore("departures from the shipped systems", |ch| {
            if ch.flag() {
                shipped::<S>(ch, &l[..l.len() - 1])
            } else {
                shipped::<G>(ch, &l)
            }
        });
        ctx.explore("departures from the shipped two-column system", |ch| shipped_two_columns(ch, &[4, 8]));
        ctx.explore("large systems", large);
        ctx.explore("another statement or option set", |ch| {
            other_statement::<G>(ch, &ch.ctx.tier(vec![4, 8], vec![2, 4, 8, 16]), &menu(ch.ctx.tier(1, 2), false))
        });
    });
}

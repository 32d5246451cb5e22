//! C01 completeness: every honest proof of every satisfying trace in the enumerated space verifies.
#[path = "../../kit/fam.rs"]
mod fam;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::fields::fft_friendly::u64_goldilocks::F64 as G;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as S;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{
    example::{
        dummy_air::{dummy_trace, DummyAIR},
        fibonacci_2_columns,
        fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
        quadratic_air, simple_fibonacci,
    },
    proof::options::ProofOptions,
    prover::prove,
    trace::TraceTable,
    traits::AIR,
    verifier::verify,
};
use std::sync::Arc;

fn menu(full: bool) -> Menu {
    use Kind::*;
    Menu {
        offsets: if full { vec![vec![0, 1], vec![0, 1, 2], vec![0], vec![0, 2], vec![0, 1, 3], vec![0, 3], vec![0, 2, 3]] } else { vec![vec![0, 1], vec![0, 1, 2], vec![0], vec![0, 2]] },
        kinds: vec![Fib, Sq, Cube, SquareOf(0), Bool, Alt],
        max_cols: 2,
        aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0)], vec![Aux::Perm(0, 0), Aux::Scaled(0)]],
        extra: vec![0, 1, 2],
        bnd: 5,
    }
}

struct Grid<'a> {
    blow: &'a [u8],
    queries: &'a [usize],
    offsets: &'a [u64],
    grinding: &'a [u8],
}

fn judge<F: IsFFTField, A>(ch: &Ch, main: &TraceTable<F>, public: &A::PublicInputs, o: &ProofOptions, what: &dyn Fn() -> String)
where
    FieldElement<F>: ByteConversion + Send + Sync,
    A: AIR<Field = F> + Send + Sync + Clone,
    A::RAPChallenges: Send + Sync,
    A::PublicInputs: Send + Sync,
{
    judge_as::<F, A>(ch, "rejected", main, public, o, what)
}
/// `rejected` is the name of a rejection.
fn judge_as<F: IsFFTField, A>(ch: &Ch, rejected: &str, main: &TraceTable<F>, public: &A::PublicInputs, o: &ProofOptions, what: &dyn Fn() -> String)
where
    FieldElement<F>: ByteConversion + Send + Sync,
    A: AIR<Field = F> + Send + Sync + Clone,
    A::RAPChallenges: Send + Sync,
    A::PublicInputs: Send + Sync,
{
    let proof = match guard(|| prove::<F, A>(main, public, o)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return ch.fail("prove-error", format!("{e:?}: {}", what())),
        Err(p) => return ch.fail("prove-panic", format!("{p}: {}", what())),
    };
    ch.validated(1);
    match guard(|| verify::<F, A>(&proof, public, o)) {
        Ok(true) => ch.outcome("accepted"),
        Ok(false) => ch.fail(rejected, what()),
        Err(p) => ch.fail("verify-panic", format!("{p}: {}", what())),
    }
}

fn orders(v: &[usize]) -> Vec<Vec<usize>> {
    match v {
        [] => vec![vec![]],
        _ => (0..v.len())
            .flat_map(|i| {
                let mut rest = v.to_vec();
                let x = rest.remove(i);
                orders(&rest).into_iter().map(move |mut r| {
                    r.insert(0, x);
                    r
                })
            })
            .collect(),
    }
}

/// A system of the family under one option set; `wit` replaces the free choices of the witness.
fn one<F: IsFFTField>(ch: &mut Ch, n: usize, m: &Menu, g: &Grid, wit: Option<&dyn Fn(&mut Ch, &Spec<F>) -> Option<Vec<Vec<E<F>>>>>)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some((mut spec, mut rows)) = choose::<F>(ch, n, m) else { return };
    let o = opts(ch.of(g.blow), ch.of(g.queries), ch.of(g.offsets), ch.of(g.grinding));
    let b = o.blowup_factor as usize;
    if n.trailing_zeros() as u64 + b.trailing_zeros() as u64 > F::TWO_ADICITY || !spec.carried_by(n, b) || !legal_offset::<F>(o.coset_offset, n, b) {
        return;
    }
    if let Some(w) = wit {
        let Some(r) = w(ch, &spec) else { return };
        rows = r;
        for x in spec.bnd.iter_mut().filter(|x| x.col < rows[0].len()) {
            x.value = rows[x.step][x.col].clone();
        }
    }
    let spec = Arc::new(spec);
    let what = || format!("{} n={n} {o:?} first row {:?} last row {:?}", spec.name(), rows[0], rows[n - 1]);
    ch.state(&(spec.name(), n, b, o.fri_number_of_queries, o.coset_offset, o.grinding_factor, format!("{rows:?}")));
    // the protocol opens the current row, which boundary constraints are about, only as a row of the frame
    let key = if spec.current().is_none() && !spec.bnd.is_empty() { "boundary-without-current-row" } else { "rejected" };
    judge_as::<F, FamAir<F>>(ch, key, &table(&rows), &spec, &o, &what);
    if n == 8 && o.fri_number_of_queries == 2 {
        ch.sample(|| serde_json::json!(what()));
    }
}

fn small() -> Menu {
    use Kind::*;
    Menu {
        offsets: vec![vec![0, 1], vec![0, 1, 2], vec![0]],
        kinds: vec![Fib, Sq, Cube, Bool],
        max_cols: 1,
        aux: vec![vec![], vec![Aux::Scaled(0)]],
        extra: vec![0, 1],
        bnd: 3,
    }
}

/// Witnesses whose columns are constant, zero, or nearly so: the polynomials of the protocol then have
/// unusual degrees (zero polynomials, constants).
fn degenerate<F: IsFFTField>(n: usize) -> impl Fn(&mut Ch, &Spec<F>) -> Option<Vec<Vec<E<F>>>> {
    move |ch, spec| {
        let vals = [fe::<F>(0), fe::<F>(1), fe::<F>(-1)];
        let s = vals[ch.pick(3)].clone();
        let s1 = vals[ch.pick(3)].clone();
        let j = vals[ch.pick(3)].clone();
        let bits = ch.pick(3);
        if bits > 0 && !spec.main.contains(&Kind::Bool) {
            return None;
        }
        let alt = &s * &E::<F>::from(1);
        let last = ch.flag();
        Some(main_trace_with(
            spec,
            n,
            &|i| if i == 0 { s.clone() } else { s1.clone() },
            // optionally a single non-zero cell in the last row
            &|i, _| if last && i + 1 == n { &j + &E::<F>::one() } else { j.clone() },
            &|i| match bits {
                0 => false,
                1 => true,
                _ => i == 0,
            },
            &alt,
        ))
    }
}

/// Every pair of starting values of a tiny field.
fn every_start<F: IsFFTField>(n: usize, p: u64) -> impl Fn(&mut Ch, &Spec<F>) -> Option<Vec<Vec<E<F>>>> {
    move |ch, spec| {
        let m = *spec.offsets.last().unwrap();
        let step = (p / 17).max(1);
        let a = ch.pick((p / step) as usize) as u64 * step;
        let b = if m > 1 { ch.pick((p / step) as usize) as u64 * step } else { a };
        let j = ch.pick(3) as u64;
        Some(main_trace_with(
            spec,
            n,
            &|i| E::<F>::from(if i == 0 { a } else { b }),
            &|_, _| E::<F>::from(j * (p - 1) / 2),
            &|i| (a >> (i % 4)) & 1 == 1,
            &E::<F>::from(a),
        ))
    }
}

fn tiny<const P: u64>(ch: &mut Ch, thorough: bool) {
    type F<const P: u64> = U64PrimeField<P>;
    let n = ch.of(&[2usize, 4, 8]);
    let mut m = small();
    m.aux = vec![vec![]];
    m.max_cols = if thorough { 2 } else { 1 };
    if m.max_cols == 2 {
        m.kinds = vec![Kind::Fib, Kind::SquareOf(0), Kind::Bool];
    }
    m.bnd = 3;
    one::<F<P>>(ch, n, &m, &Grid { blow: &[2, 4], queries: &[3], offsets: &[3], grinding: &[0] }, Some(&every_start::<F<P>>(n, P)));
}

/// The constraint systems shipped with the library.
fn shipped<F: IsFFTField>(ch: &mut Ch, lens: &[usize], blow: &[u8], queries: &[usize])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let o = opts(ch.of(blow), ch.of(queries), ch.of(&[3u64, 7, 1 << 40]), ch.of(&[0u8, 1, 3]));
    shipped_under::<F>(ch, lens, o)
}

fn shipped_under<F: IsFFTField>(ch: &mut Ch, lens: &[usize], o: ProofOptions)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let b = o.blowup_factor as usize;
    if !legal_offset::<F>(o.coset_offset, n, b) || n.trailing_zeros() as u64 + b.trailing_zeros() as u64 > F::TWO_ADICITY {
        return;
    }
    let which = ch.pick(4);
    let vals = [fe::<F>(1), fe::<F>(0), fe::<F>(-1), fe::<F>(3)];
    let (i, j) = (ch.pick(4), if which == 3 { 0 } else { ch.pick(4) });
    let (a0, a1) = (vals[i].clone(), vals[j].clone());
    let what = || format!("shipped system {which} n={n} {o:?} start {a0:?} {a1:?}");
    ch.state(&(which, n, b, o.fri_number_of_queries, o.coset_offset, o.grinding_factor, i, j, F::TWO_ADICITY));
    let fib = simple_fibonacci::FibonacciPublicInputs { a0: a0.clone(), a1: a1.clone() };
    match which {
        0 if n > 2 => judge::<F, simple_fibonacci::FibonacciAIR<F>>(ch, &simple_fibonacci::fibonacci_trace([a0.clone(), a1.clone()], n), &fib, &o, &what),
        1 => {
            let t = fibonacci_2_columns::fibonacci_trace_2_columns([a0.clone(), a1.clone()], n);
            judge::<F, fibonacci_2_columns::Fibonacci2ColsAIR<F>>(ch, &t, &fib, &o, &what)
        }
        // the randomized system fixes its first two values to one; any number of steps is allowed
        2 if (i, j) == (0, 0) => {
            for steps in 4..=n.min(16) {
                let t = fibonacci_rap_trace([a0.clone(), a1.clone()], steps);
                let p = FibonacciRAPPublicInputs { steps, a0: a0.clone(), a1: a1.clone() };
                let what = || format!("{} steps {steps}", what());
                judge::<F, FibonacciRAP<F>>(ch, &t, &p, &o, &what);
            }
        }
        3 => {
            let t = quadratic_air::quadratic_trace(a0.clone(), n);
            judge::<F, quadratic_air::QuadraticAIR<F>>(ch, &t, &quadratic_air::QuadraticPublicInputs { a0: a0.clone() }, &o, &what)
        }
        _ => {}
    }
}

fn main() {
    harness::main("C01", Level::ModelChecking, |ctx| {
        ctx.rule("every combination of constraint system, trace length, boundary pattern, witness and options; non-trivial: within the supported shape");
        ctx.assume("the randomized columns' denominators (column + challenge) do not vanish: not explored over tiny fields, where they would");
        let th = ctx.thorough();
        let fixed = Grid { blow: &[4], queries: &[2], offsets: &[7], grinding: &[0] };
        let lens = ctx.tier(vec![1, 2, 4, 8, 16], vec![1, 2, 4, 8, 16, 32, 64]);
        ctx.explore("systems x lengths", |ch| {
            let n = ch.of(&lens);
            one::<G>(ch, n, &menu(true), &fixed, None);
        });
        ctx.explore("systems x lengths over the Cairo field", |ch| {
            let n = ch.of(&lens[..lens.len() - 1]);
            let mut m = menu(th);
            m.bnd = if th { 5 } else { 3 };
            one::<S>(ch, n, &m, &Grid { blow: &[2, 4], queries: &[2], offsets: &[3], grinding: &[0] }, None);
        });
        let frames: Vec<Vec<usize>> = ctx.tier(
            vec![vec![1, 0], vec![2, 0, 1], vec![1, 2, 0], vec![0, 1, 1], vec![1, 1, 0], vec![1], vec![1, 2], vec![3, 2]],
            [vec![0, 1], vec![0, 1, 2], vec![0, 1, 3]]
                .iter()
                .flat_map(|v| orders(v))
                .chain([vec![0, 0], vec![0, 1, 1], vec![1, 1, 0], vec![0, 1, 0], vec![2, 1, 0, 1], vec![2], vec![1, 2], vec![2, 1], vec![1, 2, 3], vec![3, 1, 2], vec![2, 4]])
                .collect(),
        );
        ctx.explore("frame rows in any order, repeated, or without the current row", |ch| {
            let n = ch.of(&lens[1..]);
            let mut m = menu(true);
            m.offsets = frames.clone();
            if !th {
                m.kinds = vec![Kind::Fib, Kind::Sq, Kind::Bool];
            }
            one::<G>(ch, n, &m, &fixed, None);
        });
        // options
        let blow: &[u8] = &[2, 4, 8, 16, 32, 64, 128];
        let n_opt = ctx.tier(vec![2usize, 8], vec![1, 2, 4, 8, 16, 32]);
        let queries = ctx.tier(vec![1usize, 2, 50], vec![1, 2, 3, 5, 20, 50, 128]);
        let offsets = ctx.tier(vec![2u64, 7, 1 << 40], vec![2, 3, 5, 7, 11, (1 << 32) - 1, 1 << 40, u64::MAX]);
        let grinding = ctx.tier(vec![0u8, 1, 5], vec![0, 1, 2, 3, 5, 8, 10]);
        ctx.explore("options", |ch| {
            let n = ch.of(&n_opt);
            let mut m = small();
            m.bnd = 2;
            if !th {
                m.kinds = vec![Kind::Fib, Kind::Sq];
                m.extra = vec![0];
            }
            one::<G>(ch, n, &m, &Grid { blow, queries: &queries, offsets: &offsets, grinding: &grinding }, None);
        });
        // witnesses
        let n_deg = ctx.tier(vec![2usize, 4, 8], vec![1, 2, 4, 8, 16, 32]);
        ctx.explore("degenerate witnesses", |ch| {
            let n = ch.of(&n_deg);
            let mut m = small();
            m.max_cols = if th { 2 } else { 1 };
            m.kinds.push(Kind::Alt);
            one::<G>(ch, n, &m, &Grid { blow: &[2, 4], queries: &[2], offsets: &[7], grinding: &[0] }, Some(&degenerate::<G>(n)));
        });
        ctx.explore("degenerate witnesses over the Cairo field", |ch| {
            let n = ch.of(&n_deg[..2]);
            one::<S>(ch, n, &small(), &Grid { blow: &[2], queries: &[1], offsets: &[3], grinding: &[0] }, Some(&degenerate::<S>(n)));
        });
        ctx.explore("every witness over tiny fields", |ch| match ch.pick(3) {
            0 => tiny::<17>(ch, th),
            1 => tiny::<97>(ch, th),
            _ => tiny::<257>(ch, th),
        });
        // shipped systems
        let sl = ctx.tier(vec![2usize, 4, 8, 16], vec![2, 4, 8, 16, 32, 64, 128]);
        let sb = ctx.tier(vec![2u8, 8], vec![2, 4, 8, 16]);
        let sq = ctx.tier(vec![3usize], vec![1, 3, 30]);
        ctx.explore("shipped systems", |ch| {
            if ch.flag() {
                shipped::<S>(ch, &sl, &sb, &sq)
            } else {
                shipped::<G>(ch, &sl, &sb, &sq)
            }
        });
        ctx.explore("shipped systems under the default test options", |ch| {
            let o = ProofOptions::default_test_options();
            if ch.flag() {
                shipped_under::<S>(ch, &sl, o)
            } else {
                shipped_under::<G>(ch, &sl, o)
            }
        });
        ctx.explore("shipped two-column system of the Cairo field", |ch| {
            let n = ch.of(&sl[1..]);
            let o = opts(ch.of(&sb), ch.of(&sq), 3, 0);
            judge::<S, DummyAIR>(ch, &dummy_trace(n), &(), &o, &|| format!("DummyAIR n={n} {o:?}"));
        });
        // sizes
        let big = ctx.tier(vec![256usize, 1024], vec![128, 256, 512, 1024, 2048, 4096, 65536]);
        ctx.explore("long traces", |ch| {
            let n = ch.of(&big);
            let mut m = small();
            m.bnd = 2;
            one::<G>(ch, n, &m, &Grid { blow: &[2, 4], queries: &[10], offsets: &[7], grinding: &[0] }, None);
        });
        // counts that do not fit a byte
        ctx.explore("large counts", |ch| {
            let n = ctx.tier(512usize, 1024);
            let (far, exempt) = (ch.of(&[1usize, 255, 257, 301]), ch.of(&[0usize, 1, 255, 256, 257, 300]));
            // x(i + far) = -x(i) for odd distances
            let spec = Arc::new(Spec::<G> {
                main: vec![Kind::Free],
                aux: vec![],
                offsets: vec![0, far],
                cons: vec![Con { terms: [(1, 0), (0, 0)].iter().map(|c| Term { coef: 1, cells: vec![*c], rap: None }).collect(), degree: 1, exempt }],
                bnd: vec![Bnd { col: 0, step: ch.of(&[0usize, 256, 511]), value: E::<G>::one() }],
                bound_mult: 1,
                n_rap: 0,
                aux_fault: None,
            });
            let sign = if spec.bnd[0].step % 2 == 0 { 1 } else { -1 };
            let rows: Vec<Vec<E<G>>> = (0..n).map(|i| vec![fe::<G>(if i % 2 == 0 { sign } else { -sign })]).collect();
            let o = opts(ch.of(&[2u8, 4]), ch.of(&[1usize, 300]), 7, 0);
            if !spec.carried_by(n, o.blowup_factor as usize) {
                return;
            }
            ch.state(&(far, exempt, spec.bnd[0].step, o.blowup_factor, o.fri_number_of_queries));
            judge::<G, FamAir<G>>(ch, &table(&rows), &spec, &o, &|| format!("rows {far} apart, {exempt} exempt, {n} rows, {o:?}"));
        });
        ctx.explore("wide traces", |ch| {
            let n = 8;
            let (cols, aux) = (ch.of(&[5usize, 16, 33, 64, 257]), ch.of(&[0usize, 1, 7]));
            let mut m = small();
            m.bnd = 1;
            let k = ch.of(&[Kind::Fib, Kind::Sq, Kind::Bool]);
            let spec: Spec<G> = wide(k, cols, aux);
            let rows = main_trace(&spec, n, 2);
            let o = opts(ch.of(&[2u8, 4]), 3, 7, 0);
            if !spec.carried_by(n, o.blowup_factor as usize) {
                return;
            }
            let spec = Arc::new(spec);
            ch.state(&(cols, aux, k, o.blowup_factor));
            judge::<G, FamAir<G>>(ch, &table(&rows), &spec, &o, &|| format!("{cols} columns of {k:?}, {aux} randomized, {o:?}"));
        });
    });
}

/// Many columns of one kind, each with its own number of exempt rows.
fn wide(k: Kind, cols: usize, aux: usize) -> Spec<G> {
    let offsets = vec![0, 1, 2];
    let mut cons: Vec<Con> = (0..cols).map(|c| con_of(k, c, &offsets, c % 3).unwrap()).collect();
    for i in 0..aux {
        cons.push(Con {
            terms: vec![Term { coef: 1, cells: vec![(0, cols + i)], rap: None }, Term { coef: -1, cells: vec![(0, 0)], rap: Some(0) }],
            degree: 1,
            exempt: 0,
        });
    }
    Spec { main: vec![k; cols], aux: vec![Aux::Scaled(0); aux], offsets, cons, bnd: vec![], bound_mult: 1, n_rap: (aux > 0) as usize, aux_fault: None }
}

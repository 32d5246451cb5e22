//! C27: the composition polynomial is low-degree exactly when the trace is valid.
#[path = "../../kit/cairo.rs"]
mod cairo;
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::{stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::air::CairoAIR;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::constraints::evaluator::ConstraintEvaluator;
use lambdaworks_stark::starks::domain::Domain;
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::traits::AIR;
use proto::*;
use std::sync::Arc;

type P17 = U64PrimeField<17>;
type P97 = U64PrimeField<97>;
type Pairs<F> = Vec<(E<F>, E<F>)>;

/// A system, its extended table and everything that depends on neither coefficients nor coins.
struct Setup<F: IsFFTField>
where
    FieldElement<F>: ByteConversion,
{
    air: FamAir<F>,
    domain: Domain<F>,
    lde: lambdaworks_stark::starks::trace::TraceTable<F>,
    ext: Vec<Vec<E<F>>>,
    points: Vec<E<F>>,
    off: u64,
    n: usize,
    blowup: usize,
}
fn setup<F: IsFFTField>(spec: &Arc<Spec<F>>, rows: &[Vec<E<F>>], blowup: usize, off: u64) -> Setup<F>
where
    FieldElement<F>: ByteConversion,
{
    let n = rows.len();
    let size = n * blowup;
    let g = root_of::<F>(n);
    let co: Vec<Vec<E<F>>> = (0..rows[0].len()).map(|c| interp(&rows.iter().map(|r| r[c].clone()).collect::<Vec<_>>(), &g, &E::<F>::one())).collect();
    let points = powers(&root_of::<F>(size), size, &E::<F>::from(off));
    let ext: Vec<Vec<E<F>>> = points.iter().map(|x| co.iter().map(|p| horner::<F>(p, x)).collect()).collect();
    let air = FamAir::<F>::new(n, spec, &opts(blowup as u8, 1, off, 0));
    Setup { domain: Domain::new(&air), air, lde: table(&ext), ext, points, off, n, blowup }
}

/// The evaluator's values compared with the definition; the composition polynomial's coefficients.
fn compose<F: IsFFTField>(ch: &Ch, s: &Setup<F>, rap: &Vec<E<F>>, tco: &Pairs<F>, bco: &Pairs<F>, what: &dyn Fn() -> String) -> Option<Vec<E<F>>>
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    ch.ops(1);
    let r = guard(|| {
        let t = ConstraintEvaluator::new(&s.air, rap).evaluate(&s.lde, &s.domain, tco, bco, rap);
        let p = t.compute_composition_poly(&E::<F>::from(s.off));
        (t.evaluations_acc, p)
    });
    let (values, p) = match r {
        Ok(x) => x,
        Err(e) => {
            ch.fail("evaluator-panics", format!("{e}: {}", what()));
            return None;
        }
    };
    let size = s.points.len();
    if !ch.check(values.len() == size, "number-of-values", what) {
        return None;
    }
    for (i, x) in s.points.iter().enumerate() {
        let cell = |r: usize, c: usize| s.ext[(i + s.air.spec.offsets.get(r).copied().unwrap_or(0) * s.blowup) % size][c].clone();
        let want = composition_at::<F>(&s.air.spec, s.n, x, &cell, rap, bco, tco);
        if values[i] != want {
            ch.fail("evaluation", format!("point {i} of {size}: {}", what()));
            return None;
        }
    }
    let h = interp(&values, &root_of::<F>(size), &E::<F>::from(s.off));
    let mut got = p.coefficients().to_vec();
    got.resize(size.max(got.len()), E::<F>::zero());
    ch.check(got == h, "composition-polynomial", what);
    Some(h)
}
fn degree_below<F: IsFFTField>(h: &[E<F>], cap: usize) -> bool {
    h.iter().skip(cap).all(|x| *x == E::<F>::zero())
}
fn term(coef: i64, cells: &[(usize, usize)]) -> Term {
    Term { coef, cells: cells.to_vec(), rap: None }
}

/// One transition constraint or boundary condition over a small field: tables times coefficient pairs.
fn counted<F: IsFFTField>(ch: &mut Ch, p: u64, sizes: &[(usize, usize)])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let (n, blowup) = ch.of(sizes);
    let off = 3;
    let which = ch.pick(7);
    let exempt = ch.pick(2);
    let mult = ch.range(1, 2);
    let one = |terms, degree| vec![Con { terms, degree, exempt }];
    let cons = match which {
        0 => one(vec![term(1, &[(1, 0)]), term(-1, &[(0, 0)])], 1),
        1 => one(vec![term(1, &[(1, 0)]), term(1, &[(0, 0)]), term(-3, &[])], 1),
        2 => one(vec![term(1, &[(0, 0), (0, 0)]), term(-1, &[(0, 0)])], 2),
        3 => one(vec![term(1, &[(1, 0)]), term(-1, &[(0, 0), (0, 0)]), term(-1, &[])], 2),
        4 => one(vec![term(1, &[(1, 0), (0, 0)]), term(-4, &[])], 2),
        5 => one(vec![term(1, &[(0, 0), (0, 0), (0, 0)]), term(-1, &[(1, 0)])], 3),
        // only a boundary condition: an always-satisfied constraint beside it
        _ => one(vec![], 1),
    };
    let bnd = if which == 6 { vec![Bnd { col: 0, step: ch.pick(n), value: E::<F>::from(2u64) }] } else { vec![] };
    let spec = Arc::new(Spec::<F> { main: vec![Kind::Free], aux: vec![], offsets: vec![0, 1], cons, bnd, bound_mult: mult, n_rap: 0, aux_fault: None });
    if !spec.carried_by(n, blowup) {
        ch.outcome("unsupported combination");
        return;
    }
    let cap = (2 * n).min(blowup * n);
    // T has degree below cap + n, so it is determined by the extended domain
    if cap + n > blowup * n {
        ch.outcome("unsupported combination");
        return;
    }
    assert!(legal_offset::<F>(off, n, blowup), "offset {off} for {n} rows, blow-up {blowup}");
    // tables: all two-row tables over F17, those over a small alphabet otherwise
    let alphabet: &[u64] = if ch.ctx.thorough() { &[0, 1, 2, 4, 5, 9, 13, 16] } else { &[0, 1, 4, 13] };
    let all: Vec<u64> = (0..17).collect();
    let (firsts, seconds) = if n == 2 && p == 17 { (&all[..], &all[..]) } else { (alphabet, alphabet) };
    let first = ch.of(firsts);
    // the second coefficient: every value over F17, a menu over larger fields
    let betas: Vec<u64> = if p == 17 { all.clone() } else { vec![0, 1, 5] };
    let total = p as u32 * betas.len() as u32;
    let rest: Vec<Vec<u64>> = if n == 2 {
        seconds.iter().map(|a| vec![*a]).collect()
    } else {
        let mut v = vec![];
        for a in alphabet {
            for b in alphabet {
                for c in alphabet {
                    v.push(vec![*a, *b, *c]);
                }
            }
        }
        v
    };
    ch.state(&(n, blowup, which, exempt, mult, first, spec.name()));
    ch.outcome("system");
    let zero = E::<F>::zero();
    for r in rest {
        let rows: Vec<Vec<E<F>>> = std::iter::once(first).chain(r).map(|x| vec![E::<F>::from(x)]).collect();
        let what = || format!("table {rows:?} over F{p}, blow-up {blowup}: {}", spec.name());
        let s = setup(&spec, &rows, blowup, off);
        let valid = spec.violated(&rows, &[]).is_none();
        ch.validated(1);
        let mut low = 0u32;
        for a in 0..p {
            for &b in &betas {
                let pair = (E::<F>::from(a), E::<F>::from(b));
                let (tco, bco) = if which == 6 { (vec![(zero.clone(), zero.clone())], vec![pair]) } else { (vec![pair], vec![]) };
                let Some(h) = compose(ch, &s, &vec![], &tco, &bco, &what) else {
                    return;
                };
                low += degree_below(&h, cap) as u32;
            }
        }
        if valid {
            ch.check(low == total, "valid-but-high-degree", || format!("{low} of {total} coefficient pairs give degree below {cap}: {}", what()));
        } else {
            ch.check(low <= p as u32, "invalid-but-low-degree", || format!("{low} of {total} coefficient pairs give degree below {cap}: {}", what()));
        }
    }
}

fn pairs<F: IsFFTField>(k: usize, seed: u64) -> Pairs<F> {
    let mut x = E::<F>::from(seed * 0x9e37_79b9 + 12345);
    let mut next = || {
        x = &x * &x + E::<F>::from(77u64);
        x.clone()
    };
    (0..k).map(|_| (next(), next())).collect()
}
/// Coefficients that single out one constraint, or mix all of them.
fn coefficients<F: IsFFTField>(ch: &mut Ch, t: usize, b: usize) -> (Pairs<F>, Pairs<F>) {
    let (mut tco, mut bco) = (pairs::<F>(t, 1), pairs::<F>(b, 2));
    let only = ch.pick(t + b + 1);
    let zero = (E::<F>::zero(), E::<F>::zero());
    if only < t + b {
        for (k, p) in tco.iter_mut().chain(bco.iter_mut()).enumerate() {
            if k != only {
                *p = zero.clone();
            }
        }
    }
    (tco, bco)
}

fn family<F: IsFFTField>(ch: &mut Ch, menu: &Menu, lens: &[usize], name: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let blowup = ch.of(&[4usize, 8]);
    let off = 3;
    let Some((spec, main)) = choose::<F>(ch, n, menu) else {
        ch.outcome("unsupported combination");
        return;
    };
    let cap = (2 * n).min(blowup * n);
    if !spec.carried_by(n, blowup) || cap + n > blowup * n || !legal_offset::<F>(off, n, blowup) {
        ch.outcome("unsupported combination");
        return;
    }
    let spec = Arc::new(spec);
    let rap: Vec<E<F>> = (0..spec.n_rap).map(|k| E::<F>::from(7654321 + k as u64)).collect();
    let rows = spec.full_rows(&main, &rap);
    let (tco, bco) = coefficients::<F>(ch, spec.cons.len(), spec.bnd.len());
    let mixed = tco.iter().chain(&bco).all(|p| p.0 != E::<F>::zero());
    ch.state(&(name, n, blowup, spec.name(), &ch.choices()));
    ch.outcome("system");
    let what = || format!("satisfying trace, {n} rows, blow-up {blowup}, {name}: {}", spec.name());
    let s = setup(&spec, &rows, blowup, off);
    ch.validated(1);
    let Some(h) = compose(ch, &s, &rap, &tco, &bco, &what) else {
        return;
    };
    ch.check(degree_below(&h, cap), "valid-but-high-degree", what);
    if !mixed {
        return;
    }
    for r in 0..n {
        for c in 0..rows[0].len() {
            let mut bad = rows.clone();
            bad[r][c] = &bad[r][c] + &E::<F>::one();
            let valid = spec.violated(&bad, &rap).is_none();
            let what = || format!("cell ({r},{c}) off by one, {n} rows, blow-up {blowup}, {name}: {}", spec.name());
            let s = setup(&spec, &bad, blowup, off);
            let Some(h) = compose(ch, &s, &rap, &tco, &bco, &what) else {
                return;
            };
            if valid {
                ch.check(degree_below(&h, cap), "valid-but-high-degree", what);
            } else {
                ch.check(!degree_below(&h, cap), "invalid-but-low-degree", what);
            }
        }
    }
}

/// Systems with many columns, constraints, boundary conditions, frame rows or trace rows.
fn large(ch: &mut Ch) {
    let t = ch.ctx.thorough();
    let many: &[usize] = if t { &[16, 17, 32, 33, 64, 65, 128, 129, 256, 257] } else { &[17, 33, 65, 129, 257] };
    let (mut cols, mut aux, mut nb, mut n, mut offsets) = (2, 1, 2, 8, vec![0, 1]);
    match ch.pick(5) {
        0 => cols = ch.of(many),
        1 => aux = ch.of(many),
        2 => {
            n = 32;
            cols = 9;
            nb = ch.of(many)
        }
        3 => n = 1 << ch.range(4, if t { 9 } else { 7 }),
        _ => offsets = (0..ch.range(2, 7)).collect(),
    }
    let blowup = 4;
    let (spec, main) = big::<G>(n, cols, aux, nb, &offsets);
    let cap = 2 * n;
    if !spec.carried_by(n, blowup) {
        return ch.outcome("unsupported combination");
    }
    let spec = Arc::new(spec);
    let what = || format!("{n} rows, {cols} columns, {aux} randomized, {nb} boundary conditions, offsets {offsets:?}");
    if ch.flag() {
        return halves_of::<G>(ch, (*spec).clone(), main, n, blowup, 3, "large");
    }
    let rap = vec![E::<G>::from(7654321); spec.n_rap];
    let (mut tco, mut bco) = (pairs::<G>(spec.cons.len(), 1), pairs::<G>(nb, 2));
    // all coefficients, or those at the ends and around the powers of two alone
    let at = |len: usize| -> Vec<usize> { [0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, len - 1].into_iter().filter(|i| *i < len).collect() };
    let (ts, bs) = (at(tco.len()), at(nb));
    let only = ch.pick(ts.len() + bs.len() + 1);
    let zero = (E::<G>::zero(), E::<G>::zero());
    if only > 0 {
        for (k, p) in tco.iter_mut().enumerate() {
            if ts.get(only - 1) != Some(&k) {
                *p = zero;
            }
        }
        for (k, p) in bco.iter_mut().enumerate() {
            if only <= ts.len() || bs[only - 1 - ts.len()] != k {
                *p = zero;
            }
        }
    }
    let rows = spec.full_rows(&main, &rap);
    ch.state(&(n, cols, aux, nb, offsets.len(), only));
    ch.outcome("large system");
    ch.validated(1);
    let s = setup(&spec, &rows, blowup, 3);
    let Some(h) = compose(ch, &s, &rap, &tco, &bco, &what) else { return };
    ch.check(degree_below(&h, cap), "valid-but-high-degree", what);
    if only > 0 {
        return;
    }
    for r in [0, 1, n / 2, n - 2, n - 1] {
        for c in at(rows[0].len()) {
            let mut bad = rows.clone();
            bad[r][c] = bad[r][c] + E::<G>::one();
            let valid = spec.violated(&bad, &rap).is_none();
            let s = setup(&spec, &bad, blowup, 3);
            let what = || format!("cell ({r},{c}) off by one, {}", what());
            let Some(h) = compose(ch, &s, &rap, &tco, &bco, &what) else { return };
            ch.check(degree_below(&h, cap) == valid, if valid { "valid-but-high-degree" } else { "invalid-but-low-degree" }, what);
        }
    }
}

/// Halves, their commitment and their out-of-domain values in real proofs.
fn halves<F: IsFFTField>(ch: &mut Ch, menu: &Menu, lens: &[usize], name: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let blowup = ch.of(&[2usize, 4]);
    let off = ch.of(&[3u64, 5]);
    let Some((spec, main)) = choose::<F>(ch, n, menu) else {
        ch.outcome("unsupported combination");
        return;
    };
    if !spec.carried_by(n, blowup) || !legal_offset::<F>(off, n, blowup) {
        ch.outcome("unsupported combination");
        return;
    }
    halves_of::<F>(ch, spec, main, n, blowup, off, name)
}
fn halves_of<F: IsFFTField>(ch: &mut Ch, spec: Spec<F>, main: Vec<Vec<E<F>>>, n: usize, blowup: usize, off: u64, name: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let o = opts(blowup as u8, 2, off, 0);
    let what = || format!("{n} rows, blow-up {blowup}, offset {off}, {name}: {}", spec.name());
    use lambdaworks_crypto::hooks::{self, Event};
    hooks::start_recording();
    let proof = guard(|| prove::<F, FamAir<F>>(&table(&main), &Arc::new(spec.clone()), &o));
    let coins: Vec<Dig> = hooks::stop_recording().into_iter().filter_map(|e| if let Event::Challenge(d) = e { Some(d) } else { None }).collect();
    let Ok(Ok(proof)) = proof else {
        return ch.fail("not-proved", what());
    };
    ch.state(&(name, n, blowup, off, spec.name()));
    ch.outcome("system");
    ch.validated(1);
    ch.ops(1);
    let f = |k: usize| to_felt::<F>(coins[k]);
    let rap: Vec<E<F>> = (0..spec.n_rap).map(f).collect();
    let (b, t) = (spec.bnd.len(), spec.cons.len());
    let at = spec.n_rap;
    let bco: Pairs<F> = (0..b).map(|k| (f(at + k), f(at + b + k))).collect();
    let tco: Pairs<F> = (0..t).map(|k| (f(at + 2 * b + k), f(at + 2 * b + t + k))).collect();
    let z = f(at + 2 * b + 2 * t);
    let rows = spec.full_rows(&main, &rap);
    let s = setup(&Arc::new(spec.clone()), &rows, blowup, off);
    let Some(h) = compose(ch, &s, &rap, &tco, &bco, &what) else {
        return;
    };
    let even: Vec<E<F>> = h.iter().step_by(2).cloned().collect();
    let odd: Vec<E<F>> = h.iter().skip(1).step_by(2).cloned().collect();
    let leaves: Vec<Vec<E<F>>> = s.points.iter().map(|x| vec![horner::<F>(&even, x), horner::<F>(&odd, x)]).collect();
    ch.check(proof.composition_poly_root == Tree::new::<F>(&leaves).root(), "composition-root", what);
    let z2 = &z * &z;
    let (e, d) = (horner::<F>(&even, &z2), horner::<F>(&odd, &z2));
    ch.check(proof.composition_poly_even_ood_evaluation == e, "even-half", what);
    ch.check(proof.composition_poly_odd_ood_evaluation == d, "odd-half", what);
    ch.check(e + &z * d == horner::<F>(&h, &z), "halves-recombine", what);
}

/// The Cairo system: boundary and transition quotients from the reference constraints.
fn cairo_runs(ch: &mut Ch, depth: usize) {
    use cairo::*;
    let k = ch.range(0, depth);
    let ts: Vec<usize> = (0..k).map(|_| ch.pick(TEMPLATES)).collect();
    let rc = ch.flag();
    let Some(run) = run_of(&ts, 8) else {
        ch.outcome("program not executable");
        return;
    };
    let at = run.code_len + 1;
    let coins = Coins::nth(1);
    let blowup = 4usize;
    let o = cairo::opts(blowup as u8, 1);
    let made = guard(|| {
        let mut p = run.public(rc.then_some(at..at + 1), None);
        let main = build_main_trace(&run.registers(), &run.memory(), &mut p);
        let (_, full) = complete(&main, &p, &coins);
        let air = CairoAIR::new(full.rows.len(), &p, &o);
        let d = Domain::new(&air);
        (p, air, full, d)
    });
    let Ok((p, air, full, domain)) = made else {
        return ch.fail("no-trace", format!("program {ts:?}"));
    };
    let n = full.rows.len();
    let cl = claims(&p, n, &coins, full.rc);
    let nt = air.context().num_transition_constraints;
    let what = || format!("program {ts:?}, range check {rc}");
    // the declared boundary conditions, in their declared order
    let bnd: Vec<(usize, usize, FE)> = air.boundary_constraints(&coins.rap()).constraints.iter().map(|c| (c.col, c.step, c.value)).collect();
    for (name, c, r, v) in &cl {
        ch.check(bnd.iter().any(|b| b.0 == *c && b.1 % n == *r && b.2 == *v), &format!("claim-{name}"), what);
    }
    let hit = ch.pick(3);
    let (tco, bco) = (pairs::<S>(nt, 3), pairs::<S>(bnd.len(), 4));
    let mut rows = full.rows.clone();
    // the honest trace; a wrong register; a wrong product in the last row
    match hit {
        1 => rows[0][FP_COL] = rows[0][FP_COL] + FE::one(),
        2 => {
            let w = full.width - 1;
            rows[n - 1][w] = rows[n - 1][w] + FE::one();
        }
        _ => {}
    }
    ch.state(&(&ts, rc, hit));
    ch.outcome("Cairo program");
    ch.validated(1);
    let size = n * blowup;
    let g = root_of::<S>(n);
    let co: Vec<Vec<FE>> = (0..full.width).map(|c| interp::<S>(&rows.iter().map(|r| r[c]).collect::<Vec<_>>(), &g, &FE::one())).collect();
    let points = powers::<S>(&root_of::<S>(size), size, &fam::fe::<S>(3));
    let ext: Vec<Vec<FE>> = points.iter().map(|x| co.iter().map(|p| horner::<S>(p, x)).collect()).collect();
    ch.ops(1);
    let got = guard(|| ConstraintEvaluator::new(&air, &coins.rap()).evaluate(&table(&ext), &domain, &tco, &bco, &coins.rap()).evaluations_acc);
    let Ok(got) = got else {
        return ch.fail("evaluator-panics", what());
    };
    let bound = air.composition_poly_degree_bound();
    let degrees = &air.context().transition_degrees;
    let last = g.pow(n - 1);
    for (i, x) in points.iter().enumerate() {
        let mut acc = FE::zero();
        for ((c, r, v), (a, b)) in bnd.iter().zip(&bco) {
            acc = acc + (ext[i][*c] - v) * (x - g.pow(*r)).inv() * (a * x.pow(bound - n) + b);
        }
        let zer = (x.pow(n) - FE::one()).inv();
        let evals = reference(&ext[i], &ext[(i + blowup) % size], &coins, full.rc);
        for (k, (v, (a, b))) in evals.iter().zip(&tco).enumerate() {
            let skip = if constraint(k).1 { FE::one() } else { x - last };
            acc = acc + *v * skip * zer * (a * x.pow(bound - n * (degrees[k] - 1)) + b);
        }
        if got.get(i) != Some(&acc) {
            return ch.fail("evaluation-cairo", format!("point {i} of {size}: {}", what()));
        }
    }
    let h = interp::<S>(&got, &root_of::<S>(size), &fam::fe::<S>(3));
    ch.check(degree_below::<S>(&h, bound) == (hit == 0), if hit == 0 { "valid-but-high-degree" } else { "invalid-but-low-degree" }, what);
}
const FP_COL: usize = 18;

fn main() {
    harness::main("C27", Level::ModelChecking, |ctx| {
        ctx.rule("over F17 every table of two rows (a menu of four rows) times every coefficient pair, low-degree compositions counted exactly; satisfying traces of the family and all single-cell changes with mixed and singled-out coefficients; halves of real proofs; Cairo runs against the reference constraints; non-trivial: distinct system, coefficients");
        ctx.explore("every table and coefficient over F17", |ch| counted::<P17>(ch, 17, &[(2, 4)]));
        ctx.explore("tables and coefficients over F97", |ch| counted::<P97>(ch, 97, &[(2, 8), (4, 4)]));
        let menu = Menu {
            offsets: vec![vec![0], vec![0, 1], vec![0, 1, 2], vec![0, 2], vec![1, 0], vec![0, 1, 1], vec![1, 2]],
            kinds: vec![Kind::Fib, Kind::Sq, Kind::Cube, Kind::SquareOf(0), Kind::Bool, Kind::Alt, Kind::Free],
            max_cols: ctx.tier(2, 3),
            aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0)]],
            extra: vec![0, 1],
            bnd: 5,
        };
        let lens = ctx.tier(vec![4], vec![2, 4, 8]);
        ctx.explore("family over Goldilocks", |ch| family::<G>(ch, &menu, &lens, "Goldilocks"));
        let one = Menu { max_cols: 1, ..menu.clone() };
        ctx.explore("longer traces over Goldilocks", |ch| family::<G>(ch, &one, &ctx.tier(vec![8, 16], vec![16, 32]), "Goldilocks"));
        ctx.explore("halves over Goldilocks", |ch| halves::<G>(ch, &menu, &[4, 8], "Goldilocks"));
        ctx.explore("halves over Stark252", |ch| halves::<S>(ch, &one, &[4], "Stark252"));
        ctx.explore("large systems", large);
        ctx.explore("Cairo runs", |ch| cairo_runs(ch, ctx.tier(1, 2)));
    });
}

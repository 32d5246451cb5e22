//! C26: interpolation, extension and commitment agree with the trace.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::fields::fft_friendly::{stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::prover::{evaluate_polynomial_on_lde_domain, prove};
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::transcript::transcript_to_field;
use proto::*;
use std::sync::Arc;

type P5 = U64PrimeField<5>;
type P17 = U64PrimeField<17>;
type P97 = U64PrimeField<97>;

/// Column polynomials of a table and their extension.
fn columns<F: IsFFTField>(ch: &Ch, rows: &[Vec<E<F>>], ext: &[(usize, u64)], what: &dyn Fn() -> String)
where
    FieldElement<F>: ByteConversion,
{
    let n = rows.len();
    let w = rows[0].len();
    ch.ops(1);
    let ps = match guard(|| table(rows).compute_trace_polys()) {
        Ok(p) => p,
        Err(e) => return ch.fail("interpolation-panics", format!("{e}: {}", what())),
    };
    if !ch.check(ps.len() == w, "number-of-polynomials", what) {
        return;
    }
    let dom = powers(&root_of::<F>(n), n, &E::<F>::one());
    for (c, p) in ps.iter().enumerate() {
        let co = p.coefficients();
        let low = co.len() <= n || co[n..].iter().all(|x| *x == E::<F>::zero());
        ch.check(low, "polynomial-degree", || format!("column {c} has {} coefficients: {}", co.len(), what()));
        let ok = dom.iter().zip(rows).all(|(x, r)| horner::<F>(co, x) == r[c]);
        ch.check(ok, "interpolation", || format!("column {c}: {}", what()));
        for (blowup, off) in ext {
            extension::<F>(ch, co, n, *blowup, *off, what);
        }
    }
}

/// `evaluate_polynomial_on_lde_domain` against Horner.
fn extension<F: IsFFTField>(ch: &Ch, co: &[E<F>], n: usize, blowup: usize, off: u64, what: &dyn Fn() -> String) {
    let size = n * blowup;
    let o = E::<F>::from(off);
    let dom = powers(&root_of::<F>(size), size, &o);
    ch.ops(1);
    match guard(|| evaluate_polynomial_on_lde_domain(&Polynomial::new(co), blowup, n, &o)) {
        Ok(Ok(v)) => {
            if !ch.check(v.len() == size, "extension-size", || format!("{} values for {n} x {blowup}: {}", v.len(), what())) {
                return;
            }
            let bad = (0..size).find(|i| v[*i] != horner::<F>(co, &dom[*i]));
            ch.check(bad.is_none(), "extension", || format!("value {bad:?} of {n} x {blowup}, offset {off}, {} coefficients: {}", co.len(), what()));
        }
        Ok(Err(e)) => ch.fail("extension-refused", format!("{e:?} for {n} x {blowup}, offset {off}, {} coefficients: {}", co.len(), what())),
        Err(e) => ch.fail("extension-panics", format!("{e} for {n} x {blowup}, offset {off}, {} coefficients: {}", co.len(), what())),
    }
}

/// All tables of a shape over a tiny field, one execution per first cell.
fn all_tables<const P: u64>(ch: &mut Ch, sizes: &[(usize, usize)], ext: &[(usize, u64)]) {
    let (n, w) = ch.of(sizes);
    let first = ch.pick(P as usize) as u64;
    let ext: Vec<(usize, u64)> = ext.iter().filter(|(b, o)| (P as usize - 1) % (n * b) == 0 && legal_offset::<U64PrimeField<P>>(*o, n, *b)).copied().collect();
    ch.state(&(P, n, w, first));
    ch.validated(1);
    for code in 0..(P as usize).pow((n * w - 1) as u32) {
        let mut k = code;
        let mut cells = vec![first];
        while cells.len() < n * w {
            cells.push((k % P as usize) as u64);
            k /= P as usize;
        }
        let rows: Vec<Vec<E<U64PrimeField<P>>>> = cells.chunks(w).map(|r| r.iter().map(|x| E::<U64PrimeField<P>>::from(*x)).collect()).collect();
        columns::<U64PrimeField<P>>(ch, &rows, &ext, &|| format!("{n} rows {cells:?} over F{P}"));
    }
}

/// The domain itself, and basis tables: every cell of every column matters in the right place.
fn basis<F: IsFFTField>(ch: &mut Ch, name: &str, max: u32, offs: &[u64])
where
    FieldElement<F>: ByteConversion,
{
    let n = 1usize << ch.range(0, max as usize);
    let blowup = ch.of(&[1usize, 2, 4, 8, 16]);
    let off = ch.of(offs);
    if (n * blowup).trailing_zeros() as u64 > F::TWO_ADICITY || !legal_offset::<F>(off, n, blowup) {
        ch.outcome("unsupported combination");
        return;
    }
    ch.state(&(name, n, blowup, off));
    let what = || format!("{n} rows, blow-up {blowup}, offset {off}, {name}");
    // x itself: the extended domain
    let size = n * blowup;
    let x = [E::<F>::zero(), E::<F>::one()];
    match guard(|| evaluate_polynomial_on_lde_domain(&Polynomial::new(&x), blowup, n, &E::<F>::from(off))) {
        Ok(Ok(d)) => {
            let want = powers(&root_of::<F>(size), size, &E::<F>::from(off));
            ch.check(d == want, "domain", what);
            let tr = powers(&root_of::<F>(n), n, &E::<F>::one());
            let meet = d.iter().any(|p| tr.contains(p)) || (1..d.len()).any(|i| d[i] == d[0]);
            ch.check(!meet && d.len() == size, "domain-disjoint", what);
        }
        e => ch.fail("domain-refused", format!("{e:?}: {}", what())),
    }
    // a table holding the domain in one column and a unit vector in the others
    let g = powers(&root_of::<F>(n), n, &E::<F>::one());
    let rows: Vec<Vec<E<F>>> = (0..n).map(|i| vec![g[i].clone(), E::<F>::from((i == n / 2) as u64), E::<F>::from((i + 1 == n) as u64)]).collect();
    columns::<F>(ch, &rows, &[(blowup, off)], &what);
    // every length of polynomial, whether the domain's size or not
    for len in 0..=(4 * n + 1).min(40) {
        // longer polynomials need a longer transform
        if (len.max(n).next_power_of_two() * blowup).trailing_zeros() as u64 > F::TWO_ADICITY || (len.max(n).next_power_of_two() * blowup) > 1 << 13 {
            continue;
        }
        let co: Vec<E<F>> = (0..len).map(|i| fe::<F>((i as i64 * 7 + 3) * if i % 2 == 0 { 1 } else { -1 })).collect();
        extension::<F>(ch, &co, n, blowup, off, &what);
    }
    ch.validated(1);
}

/// What the prover commits to and opens.
fn commitments<F: IsFFTField>(ch: &mut Ch, menu: &Menu, lens: &[usize], name: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let blowup = ch.of(&[2usize, 4]);
    let off = ch.of(&[3u64, 7]);
    let Some((spec, main)) = choose::<F>(ch, n, menu) else {
        ch.outcome("unsupported combination");
        return;
    };
    if !spec.carried_by(n, blowup) || !legal_offset::<F>(off, n, blowup) {
        ch.outcome("unsupported combination");
        return;
    }
    committed::<F>(ch, spec, main, n, blowup, off, 3, name)
}
#[allow(clippy::too_many_arguments)]
fn committed<F: IsFFTField>(ch: &mut Ch, spec: Spec<F>, main: Vec<Vec<E<F>>>, n: usize, blowup: usize, off: u64, queries: usize, name: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let o = opts(blowup as u8, queries, off, 0);
    let what = || format!("{n} rows, blow-up {blowup}, offset {off}, {name}: {}", spec.name());
    let arc = Arc::new(spec.clone());
    let proof = match guard(|| prove::<F, FamAir<F>>(&table(&main), &arc, &o)) {
        Ok(Ok(p)) => p,
        e => return ch.fail("not-proved", format!("{}: {}", what(), e.err().unwrap_or_default())),
    };
    ch.state(&(name, n, blowup, off, queries, spec.name()));
    ch.outcome("system");
    ch.validated(1);
    let size = n * blowup;
    let lde = |rows: &[Vec<E<F>>]| -> Vec<Vec<E<F>>> {
        let co: Vec<Vec<E<F>>> = (0..rows[0].len()).map(|c| interp(&rows.iter().map(|r| r[c].clone()).collect::<Vec<_>>(), &root_of::<F>(n), &E::<F>::one())).collect();
        powers(&root_of::<F>(size), size, &E::<F>::from(off)).iter().map(|x| co.iter().map(|p| horner::<F>(p, x)).collect()).collect()
    };
    let ext = lde(&main);
    let mut trees = vec![Tree::new::<F>(&ext)];
    let mut exts = vec![ext];
    if !spec.aux.is_empty() {
        let mut t = DefaultTranscript::new();
        t.append(&trees[0].root());
        let rap: Vec<E<F>> = (0..spec.n_rap).map(|_| transcript_to_field(&mut t)).collect();
        let aux = lde(&spec.aux_rows(&main, &rap));
        trees.push(Tree::new::<F>(&aux));
        exts.push(aux);
    }
    let roots: Vec<_> = trees.iter().map(|t| t.root()).collect();
    if !ch.check(proof.lde_trace_merkle_roots == roots, "trace-root", what) {
        return;
    }
    let m = make::<F>(&spec, &main, &o, Cheat::None);
    for (q, op) in proof.deep_poly_openings.iter().enumerate() {
        ch.ops(1);
        let i = m.iotas[q];
        let row: Vec<E<F>> = exts.iter().flat_map(|e| e[i].clone()).collect();
        ch.check(op.lde_trace_evaluations == row, "opened-row", || format!("query {q} at {i}: {}", what()));
        for (k, e) in exts.iter().enumerate() {
            let ok = op.lde_trace_merkle_proofs.get(k).is_some_and(|p| path_ok(&roots[k], i, &e[i], p, size.trailing_zeros() as usize));
            ch.check(ok, "opened-path", || format!("query {q} at {i}, tree {k}: {}", what()));
        }
    }
    // a table built from these columns keeps them
    let cols: Vec<Vec<E<F>>> = (0..main[0].len()).map(|c| main.iter().map(|r| r[c].clone()).collect()).collect();
    ch.check(guard(|| TraceTable::new_from_cols(&cols).rows()).is_ok_and(|r| r == main), "table", what);
}

fn main() {
    harness::main("C26", Level::ModelChecking, |ctx| {
        ctx.rule("every table over F5 and F17 of the stated sizes: column polynomials on the trace domain, extension at every point against Horner; every polynomial length; the domain itself; roots, opened rows and paths of real proofs against an independent tree over an independent extension; non-trivial: distinct table block or system");
        ctx.explore("all tables over F5", |ch| all_tables::<5>(ch, &ctx.tier(vec![(1, 1), (1, 2), (2, 1), (2, 2), (4, 1)], vec![(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (4, 1), (4, 2)]), &[(1, 2), (2, 2), (2, 3), (1, 3)]));
        ctx.explore("all tables over F17", |ch| all_tables::<17>(ch, &ctx.tier(vec![(1, 1), (1, 2), (2, 1), (4, 1)], vec![(1, 1), (1, 2), (2, 1), (2, 2), (4, 1)]), &[(1, 3), (2, 3), (4, 3), (2, 5), (8, 3)]));
        let top = ctx.tier(7, 9);
        ctx.explore("domains and basis tables over Goldilocks", |ch| basis::<G>(ch, "Goldilocks", top, &[3, 7, 49, 1 << 20]));
        ctx.explore("domains and basis tables over Stark252", |ch| basis::<S>(ch, "Stark252", top - 2, &[3, 5]));
        ctx.explore("domains and basis tables over F97", |ch| basis::<P97>(ch, "F97", 5, &(2..97).collect::<Vec<_>>()));
        ctx.explore("domains and basis tables over F17", |ch| basis::<P17>(ch, "F17", 4, &(2..17).collect::<Vec<_>>()));
        let menu = Menu {
            offsets: vec![vec![0, 1], vec![0, 1, 2]],
            kinds: vec![Kind::Fib, Kind::Sq, Kind::Bool, Kind::Free],
            max_cols: ctx.tier(2, 3),
            aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Scaled(0), Aux::Perm(0, 0)]],
            extra: vec![0],
            bnd: 3,
        };
        ctx.explore("commitments over Goldilocks", |ch| commitments::<G>(ch, &menu, &ctx.tier(vec![4, 8, 16], vec![4, 8, 16, 64]), "Goldilocks"));
        let small = Menu { max_cols: 1, ..menu.clone() };
        ctx.explore("commitments over Stark252", |ch| commitments::<S>(ch, &small, &[4, 8], "Stark252"));
        ctx.explore("large commitments", |ch| {
            let t = ch.ctx.thorough();
            let many: &[usize] = if t { &[16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] } else { &[17, 33, 65, 129, 257] };
            let (mut cols, mut aux, mut n, mut q) = (2, 1, 8, 2);
            match ch.pick(4) {
                0 => cols = ch.of(many),
                1 => aux = ch.of(many),
                2 => n = 1 << ch.range(4, if t { 9 } else { 8 }),
                _ => {
                    n = ch.of(&[8, 32]);
                    q = ch.of(many)
                }
            }
            let (spec, main) = big::<G>(n, cols, aux, 2, &[0, 1]);
            let blowup = ch.of(&[2usize, 4, 8]);
            committed::<G>(ch, spec, main, n, blowup, 3, q, "large")
        });
    });
}

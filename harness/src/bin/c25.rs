//! C25: boundary helpers describe exactly the declared cells.
#[path = "../../kit/fam.rs"]
mod fam;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::{stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};

type P17 = U64PrimeField<17>;
type P97 = U64PrimeField<97>;
/// (column, step, value)
type Cell = (usize, usize, u64);

fn pow<F: IsFFTField>(g: &E<F>, k: usize) -> E<F> {
    let mut a = E::<F>::one();
    for _ in 0..k {
        a = a * g;
    }
    a
}

fn helpers<F: IsFFTField>(ch: &Ch, decl: &[Cell], n: usize, points: &[E<F>], name: &str) {
    let what = || format!("(column, step, value) {decl:?}, {n} rows, {name}");
    let g = F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap();
    let top = decl.iter().map(|d| d.0).max().unwrap_or(0);
    let r = guard(|| {
        let b = BoundaryConstraints::<F>::from_constraints(
            decl.iter()
                .map(|(c, s, v)| if *c == 0 { BoundaryConstraint::new_simple(*s, E::<F>::from(*v)) } else { BoundaryConstraint::new(*c, *s, E::<F>::from(*v)) })
                .collect(),
        );
        let cols: Vec<usize> = (0..4.max(2 + top)).collect();
        (
            b.constraints.iter().map(|k| (k.col, k.step, k.value.clone())).collect::<Vec<_>>(),
            cols.iter().map(|c| b.steps(*c)).collect::<Vec<_>>(),
            b.steps_for_boundary(),
            b.cols_for_boundary(),
            b.generate_roots_of_unity(&g, &cols),
            b.values(&cols),
            cols.iter().map(|c| b.compute_zerofier(&g, *c)).collect::<Vec<_>>(),
            // any list of columns may be asked for
            b.generate_roots_of_unity(&g, &[2, 0, 2]),
            b.values(&[1, 1, 0]),
        )
    });
    ch.ops(9);
    let (stored, steps, all_steps, all_cols, roots, values, zerofiers, roots2, values2) = match r {
        Ok(x) => x,
        Err(e) => return ch.fail("boundary-panics", format!("{e}: {}", what())),
    };
    let of = |c: usize| decl.iter().filter(move |d| d.0 == c);
    let want_steps: Vec<Vec<usize>> = (0..4.max(2 + top)).map(|c| of(c).map(|d| d.1).collect()).collect();
    let want_values: Vec<Vec<E<F>>> = (0..4.max(2 + top)).map(|c| of(c).map(|d| E::<F>::from(d.2)).collect()).collect();
    let want_roots: Vec<Vec<E<F>>> = want_steps.iter().map(|s| s.iter().map(|k| pow(&g, *k)).collect()).collect();
    let uniq = |f: fn(&Cell) -> usize| {
        let mut v: Vec<usize> = vec![];
        for d in decl {
            if !v.contains(&f(d)) {
                v.push(f(d));
            }
        }
        v
    };
    let stored_ok = stored.len() == decl.len() && stored.iter().zip(decl).all(|(a, d)| a.0 == d.0 && a.1 == d.1 && a.2 == E::<F>::from(d.2));
    ch.check(stored_ok, "stored", what);
    ch.check(steps == want_steps, "steps", || format!("{steps:?} of {}", what()));
    ch.check(all_steps == uniq(|d| d.1), "steps-for-boundary", || format!("{all_steps:?} of {}", what()));
    ch.check(all_cols == uniq(|d| d.0), "cols-for-boundary", || format!("{all_cols:?} of {}", what()));
    ch.check(roots == want_roots, "points", what);
    ch.check(values == want_values, "values", what);
    ch.check(roots2 == [2, 0, 2].map(|c| want_roots[c].clone()), "points", || format!("columns 2, 0, 2 of {}", what()));
    ch.check(values2 == [1, 1, 0].map(|c| want_values[c].clone()), "values", || format!("columns 1, 1, 0 of {}", what()));
    for (c, z) in zerofiers.iter().enumerate() {
        // monic of the right degree
        let k = want_steps[c].len();
        let co = z.coefficients();
        let monic = co.len() == k + 1 && co[k] == E::<F>::one();
        ch.check(monic, "zerofier-degree", || format!("column {c}: {} coefficients for {k} cells: {}", co.len(), what()));
        for x in points.iter().chain(&want_roots[c]) {
            ch.ops(1);
            let want = want_roots[c].iter().fold(E::<F>::one(), |a, r| a * (x - r));
            let at = z.evaluate(x);
            if at != want {
                ch.fail("zerofier-value", format!("column {c} at {x:?}: {}", what()));
                break;
            }
            ch.check((at == E::<F>::zero()) == want_roots[c].contains(x), "zerofier-roots", what);
        }
    }
}

fn main() {
    harness::main("C25", Level::ModelChecking, |ctx| {
        ctx.rule("every list of up to the stated number of boundary conditions over three columns, the steps of a small trace and beyond, duplicates included; helpers compared with the list, zerofiers compared at every point of the field; non-trivial: distinct list");
        let most = ctx.tier(4, 5);
        ctx.explore("declarations over F17", |ch| {
            let k = ch.range(0, most);
            let n = ch.of(&[1usize, 2, 4, 8]);
            let decl: Vec<Cell> = (0..k).map(|i| (ch.pick(3), ch.pick(n.min(4)), if i == 0 { 3 } else { ch.of(&[0u64, 3, 16]) })).collect();
            ch.state(&(&decl, n));
            ch.validated(1);
            let points: Vec<E<P17>> = (0..17).map(|x| E::<P17>::from(x as u64)).collect();
            helpers::<P17>(ch, &decl, n, &points, "F17");
        });
        ctx.explore("single steps", |ch| {
            let n = ch.of(&[1usize, 2, 4, 8, 16, 32]);
            // the step after the last is the first again
            let step = ch.pick(2 * n + 2);
            let col = ch.pick(3);
            let v = ch.of(&[0u64, 1, 96]);
            ch.state(&(n, step, col, v));
            let points: Vec<E<P97>> = (0..97).map(|x| E::<P97>::from(x as u64)).collect();
            helpers::<P97>(ch, &[(col, step, v)], n, &points, "F97");
            helpers::<P97>(ch, &[(col, step, v), ((col + 1) % 3, step, v), (col, (step + 1) % n, v + 1)], n, &points, "F97");
        });
        ctx.explore("large fields and long declarations", |ch| {
            let log = ch.of(&[3usize, 10, 16]);
            let n = 1usize << log;
            let k = ch.of(&[1usize, 2, 7, ctx.tier(12, 40)]);
            let stride = ch.of(&[1usize, 3, n - 1, n / 2, 5000]);
            let decl: Vec<Cell> = (0..k).map(|i| (i * i % 3, (i * stride) % n, i as u64)).collect();
            ch.state(&(n, k, stride));
            let g: Vec<E<G>> = (0..5).map(|x| E::<G>::from(x * x * 77 + 3)).collect();
            helpers::<G>(ch, &decl, n, &g, "Goldilocks");
            let s: Vec<E<S>> = (0..5).map(|x| E::<S>::from(x * x * 77 + 3)).collect();
            helpers::<S>(ch, &decl, n, &s, "Stark252");
        });
        let many: Vec<usize> = ctx.tier(vec![17, 65, 129, 257], vec![16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
        ctx.explore("many declarations and columns", |ch| {
            let n = 1usize << ch.of(&[3usize, 9, 12]);
            let k = ch.of(&many);
            let cols = ch.of(&[1usize, 3, 40, 300]);
            let stride = ch.of(&[1usize, 3, n / 2 + 1]);
            // a step occurs again once all have been used
            let decl: Vec<Cell> = (0..k).map(|i| (i % cols, (i * stride) % n, 2 * i as u64)).collect();
            ch.state(&(n, k, cols, stride));
            ch.validated(1);
            let g: Vec<E<G>> = (0..3).map(|x| E::<G>::from(x * x * 77 + 3)).collect();
            helpers::<G>(ch, &decl, n, &g, "Goldilocks");
        });
        ctx.explore("no declarations", |ch| {
            let way = ch.pick(3);
            ch.state(&way);
            let b = match way {
                0 => BoundaryConstraints::<G>::new(),
                1 => BoundaryConstraints::<G>::default(),
                _ => BoundaryConstraints::<G>::from_constraints(vec![]),
            };
            let g = E::<G>::from(7u64);
            let ok = guard(|| {
                b.steps(0).is_empty()
                    && b.steps_for_boundary().is_empty()
                    && b.cols_for_boundary().is_empty()
                    && b.values(&[0, 1]) == vec![vec![], vec![]]
                    && b.generate_roots_of_unity(&g, &[0, 1]) == vec![vec![], vec![]]
                    && b.compute_zerofier(&g, 0).coefficients() == [E::<G>::one()]
            });
            ch.check(ok == Ok(true), "no-declarations", || format!("constructor {way}"));
        });
    });
}

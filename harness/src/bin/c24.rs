//! C24: the debug trace validator accepts exactly the satisfying traces.
//! (The validator exists in builds with debug assertions only.)
#![cfg_attr(not(debug_assertions), allow(dead_code, unused_imports))]
#[path = "../../kit/cairo.rs"]
mod cairo;
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::{stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::domain::Domain;
use lambdaworks_stark::starks::traits::AIR;
use proto::{interp, root_of};
use std::sync::Arc;

type P5 = U64PrimeField<5>;
type P17 = U64PrimeField<17>;

#[cfg(debug_assertions)]
use lambdaworks_stark::starks::debug::validate_trace;
#[cfg(not(debug_assertions))]
fn validate_trace<F: IsFFTField, A: AIR<Field = F>>(_: &A, _: &[Polynomial<E<F>>], _: &Domain<F>, _: &A::RAPChallenges) -> bool {
    unreachable!("built without debug assertions")
}

fn polys<F: IsFFTField>(rows: &[Vec<E<F>>]) -> Vec<Polynomial<E<F>>> {
    let n = rows.len();
    let g = root_of::<F>(n);
    (0..rows[0].len()).map(|c| Polynomial::new(&interp(&rows.iter().map(|r| r[c].clone()).collect::<Vec<_>>(), &g, &E::<F>::one()))).collect()
}

fn judge<F: IsFFTField>(ch: &Ch, air: &FamAir<F>, domain: &Domain<F>, rows: &[Vec<E<F>>], rap: &Vec<E<F>>, what: &dyn Fn() -> String)
where
    FieldElement<F>: ByteConversion,
{
    ch.ops(1);
    let truth = air.spec.violated(rows, rap);
    match (guard(|| validate_trace(air, &polys(rows), domain, rap)), truth) {
        (Ok(true), None) | (Ok(false), Some(_)) => {}
        (Ok(true), Some(v)) => ch.fail(&*format!("accepted-bad-{}", v.split(' ').next().unwrap_or("")), format!("{v} is violated: {}", what())),
        (Ok(false), None) => ch.fail("refused-good", what()),
        (Err(e), _) => ch.fail("validator-panics", format!("{e}: {}", what())),
    }
}

fn term(coef: i64, cells: &[(usize, usize)]) -> Term {
    Term { coef, cells: cells.to_vec(), rap: None }
}

/// Every table over a tiny field against one system.
fn exhaustive<const P: u64>(ch: &mut Ch, sizes: &[(usize, usize)], name: &str) {
    let (n, w) = ch.of(sizes);
    let offsets = ch.of(&[vec![0], vec![0, 1], vec![0, 1, 2], vec![0, 2], vec![1, 0]]);
    let l = offsets.len() - 1;
    let count = ch.range(1, if w > 1 { 2 } else { 1 });
    let mut cons = vec![];
    for k in 0..count {
        let (terms, degree) = match ch.pick(4) {
            0 => (vec![term(1, &[(l, 0)]), term(-1, &[(0, w - 1)])], 1),
            1 => (vec![term(1, &[(l, w - 1)]), term(-1, &[(0, 0), (0, 0)]), term(-1, &[])], 2),
            2 => (vec![term(1, &[(0, 0), (0, 0)]), term(-1, &[(0, 0)])], 2),
            _ => (vec![term(1, &[(l, 0)]), term(1, &[(l.min(1), w - 1)]), term(1, &[(0, 0)])], 1),
        };
        let exempt = if k == 0 { ch.range(0, n) } else { ch.pick(2).min(n) };
        cons.push(Con { terms, degree, exempt });
    }
    let bnd = match ch.pick(4) {
        0 => vec![],
        1 => vec![(0, 0, 1)],
        2 => vec![(0, n - 1, 2), (w - 1, 0, 1)],
        _ => vec![(w - 1, n / 2, 0), (w - 1, n / 2, 0)],
    };
    let spec = Arc::new(Spec::<U64PrimeField<P>> {
        main: vec![Kind::Free; w],
        aux: vec![],
        offsets,
        cons,
        bnd: bnd.into_iter().map(|(col, step, v)| Bnd { col, step, value: E::<U64PrimeField<P>>::from(v as u64) }).collect(),
        bound_mult: 2,
        n_rap: 0,
        aux_fault: None,
    });
    let air = FamAir::<U64PrimeField<P>>::new(n, &spec, &opts(1, 1, 2, 0));
    let domain = match guard(|| Domain::new(&air)) {
        Ok(d) => d,
        Err(e) => return ch.fail("domain-panics", e),
    };
    ch.state(&(name, n, spec.name()));
    ch.validated(1);
    let cells = n * w;
    let total = (P as usize).pow(cells as u32);
    let el: Vec<E<U64PrimeField<P>>> = (0..P).map(E::<U64PrimeField<P>>::from).collect();
    for code in 0..total {
        let mut k = code;
        let rows: Vec<Vec<_>> = (0..n)
            .map(|_| {
                (0..w)
                    .map(|_| {
                        let x = el[k % P as usize].clone();
                        k /= P as usize;
                        x
                    })
                    .collect()
            })
            .collect();
        judge(ch, &air, &domain, &rows, &vec![], &|| format!("table {rows:?} of {name}: {}", spec.name()));
    }
}

fn family<F: IsFFTField>(ch: &mut Ch, menu: &Menu, lens: &[usize], name: &str)
where
    FieldElement<F>: ByteConversion,
{
    let n = ch.of(lens);
    let Some((spec, main)) = choose::<F>(ch, n, menu) else {
        ch.outcome("unsupported combination");
        return;
    };
    let spec = Arc::new(spec);
    let air = FamAir::<F>::new(n, &spec, &opts(2, 1, 3, 0));
    let Ok(domain) = guard(|| Domain::new(&air)) else {
        return ch.fail("domain-panics", spec.name());
    };
    ch.state(&(name, n, spec.name()));
    ch.outcome("system");
    let rap: Vec<E<F>> = (0..spec.n_rap).map(|k| E::<F>::from(1234567 + k as u64)).collect();
    let rows = spec.full_rows(&main, &rap);
    judge(ch, &air, &domain, &rows, &rap, &|| format!("satisfying trace, {n} rows: {}", spec.name()));
    ch.validated(1);
    for r in 0..n {
        for c in 0..rows[0].len() {
            for d in [1i64, -1, 1000] {
                let mut bad = rows.clone();
                bad[r][c] = &bad[r][c] + &fam::fe::<F>(d);
                judge(ch, &air, &domain, &bad, &rap, &|| format!("cell ({r},{c}) off by {d}, {n} rows: {}", spec.name()));
            }
        }
    }
}

/// Systems with many columns, constraints, boundary conditions, frame rows or trace rows.
fn large(ch: &mut Ch) {
    let t = ch.ctx.thorough();
    let many: &[usize] = if t { &[16, 17, 32, 33, 64, 65, 128, 129, 256, 257] } else { &[17, 33, 65, 129, 257] };
    let (mut cols, mut aux, mut nb, mut n, mut offsets) = (2, 1, 2, 8, vec![0, 1]);
    match ch.pick(5) {
        0 => cols = ch.of(many),
        1 => aux = ch.of(many),
        2 => {
            n = 32;
            cols = 9;
            nb = ch.of(many)
        }
        3 => n = 1 << ch.range(4, if t { 11 } else { 9 }),
        _ => offsets = (0..ch.range(2, 7)).collect(),
    }
    let (spec, main) = big::<G>(n, cols, aux, nb, &offsets);
    let spec = Arc::new(spec);
    let air = FamAir::<G>::new(n, &spec, &opts(2, 1, 3, 0));
    let rap = vec![E::<G>::from(1234567); spec.n_rap];
    let what = || format!("{n} rows, {cols} columns, {aux} randomized, {nb} boundary conditions, offsets {offsets:?}");
    let Ok(domain) = guard(|| Domain::new(&air)) else {
        return ch.fail("domain-panics", what());
    };
    let rows = spec.full_rows(&main, &rap);
    let near = |len: usize| -> Vec<usize> { [0, 1, 2, 3, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, len / 2, len - 2, len - 1].into_iter().filter(|i| *i < len).collect() };
    let (rs, cs) = (near(n), near(rows[0].len()));
    let at = ch.pick(rs.len() + 1);
    ch.state(&(n, cols, aux, nb, offsets.len(), at));
    ch.outcome("large system");
    ch.validated(1);
    if at == 0 {
        return judge(ch, &air, &domain, &rows, &rap, &what);
    }
    for c in cs {
        let mut bad = rows.clone();
        bad[rs[at - 1]][c] = bad[rs[at - 1]][c] + E::<G>::one();
        judge(ch, &air, &domain, &bad, &rap, &|| format!("cell ({},{c}) off by one, {}", rs[at - 1], what()));
    }
}

fn cairo_runs(ch: &mut Ch, depth: usize) {
    use cairo::*;
    let k = ch.range(0, depth);
    let ts: Vec<usize> = (0..k).map(|_| ch.pick(TEMPLATES)).collect();
    let rc = ch.flag();
    let Some(run) = run_of(&ts, 8) else {
        ch.outcome("program not executable");
        return;
    };
    let at = run.code_len + 1;
    let coins = Coins::nth(0);
    let made = guard(|| {
        let mut p = run.public(rc.then_some(at..at + 1), None);
        let main = build_main_trace(&run.registers(), &run.memory(), &mut p);
        let (air, full) = complete(&main, &p, &coins);
        let d = Domain::new(&air);
        (p, air, full, d)
    });
    let Ok((p, air, full, domain)) = made else {
        return ch.fail("no-trace", format!("program {ts:?}"));
    };
    ch.state(&(&ts, rc));
    ch.outcome("Cairo program");
    let n = full.rows.len();
    let cl = claims(&p, n, &coins, full.rc);
    let judge = |rows: &[Vec<FE>], near: Option<usize>, what: &dyn Fn() -> String| {
        let bad_claim = cl.iter().find(|(_, c, r, v)| rows[*r][*c] != *v).map(|c| c.0);
        let rows_to_check: Vec<usize> = match near {
            Some(r) => vec![(r + n - 1) % n, r],
            None => (0..n).collect(),
        };
        let bad_row = rows_to_check.into_iter().find_map(|r| {
            reference(&rows[r], &rows[(r + 1) % n], &coins, full.rc).iter().enumerate().find_map(|(k, v)| {
                let (name, last) = constraint(k);
                (*v != FE::zero() && (last || r + 1 < n)).then_some(name)
            })
        });
        let truth = bad_claim.or(bad_row);
        ch.ops(1);
        match (guard(|| validate_trace(&air, &polys::<S>(rows), &domain, &coins.rap())), truth) {
            (Ok(true), None) | (Ok(false), Some(_)) => {}
            (Ok(true), Some(_)) => ch.fail("accepted-bad-cairo", format!("{truth:?} is violated: {}", what())),
            (Ok(false), None) => ch.fail("refused-good-cairo", what()),
            (Err(e), _) => ch.fail("validator-panics", format!("{e}: {}", what())),
        }
    };
    judge(&full.rows, None, &|| format!("honest trace of {ts:?}, range check {rc}"));
    ch.validated(1);
    let rows_hit: Vec<usize> = if ch.ctx.thorough() { (0..n).collect() } else { vec![0, run.steps.len() - 1, run.steps.len() % n, n - 1] };
    for r in rows_hit {
        for c in 0..full.width {
            let mut rows = full.rows.clone();
            rows[r][c] = rows[r][c] + FE::one();
            judge(&rows, Some(r), &|| format!("row {r}, {} off by one, {ts:?}, range check {rc}", column(c, full.rc)));
        }
    }
}

fn main() {
    harness::main("C24", Level::ModelChecking, |ctx| {
        if cfg!(not(debug_assertions)) {
            ctx.error("the validator needs a build with debug assertions".into());
            return;
        }
        ctx.rule("every table over F5 (and F17) of the stated sizes against every system of a menu; satisfying traces of the family and of Cairo runs and every single-cell change of them; verdict compared with plain matrix evaluation; non-trivial: distinct system");
        ctx.explore("all tables over F5", |ch| {
            let sizes = ctx.tier(vec![(1, 1), (2, 1), (4, 1), (2, 2)], vec![(1, 1), (2, 1), (4, 1), (1, 2), (2, 2), (2, 3)]);
            exhaustive::<5>(ch, &sizes, "F5");
        });
        ctx.explore("all tables over F17", |ch| {
            let sizes = ctx.tier(vec![(2, 1)], vec![(2, 1), (1, 2), (4, 1)]);
            exhaustive::<17>(ch, &sizes, "F17");
        });
        let menu = Menu {
            offsets: vec![vec![0], vec![0, 1], vec![0, 1, 2], vec![0, 2], vec![0, 1, 3], vec![1, 0], vec![0, 1, 1], vec![1, 2]],
            kinds: vec![Kind::Fib, Kind::Sq, Kind::Cube, Kind::SquareOf(0), Kind::Bool, Kind::Alt, Kind::Free],
            max_cols: ctx.tier(2, 3),
            aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0)], vec![Aux::Scaled(0), Aux::Perm(0, 0)]],
            extra: vec![0, 1],
            bnd: 5,
        };
        let lens = ctx.tier(vec![4, 8], vec![2, 4, 8, 16]);
        ctx.explore("family over Goldilocks", |ch| family::<G>(ch, &menu, &lens, "Goldilocks"));
        let small = Menu { max_cols: 1, ..menu.clone() };
        ctx.explore("family over F17", |ch| family::<P17>(ch, &small, &[2, 4, 8], "F17"));
        ctx.explore("large systems", large);
        ctx.explore("Cairo runs", |ch| cairo_runs(ch, ctx.tier(1, 2)));
    });
}

//! C22: trace tables and frames behave as matrices.
#[path = "../../kit/fam.rs"]
mod fam;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::{stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::trace::TraceTable;

type P17 = U64PrimeField<17>;
/// The plain matrix: rows, and the width (rows may be missing).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Matrix {
    rows: Vec<Vec<u64>>,
    cols: usize,
}
fn real(m: &Matrix) -> TraceTable<G> {
    TraceTable::new(m.rows.iter().flatten().map(|x| E::<G>::from(*x)).collect(), m.cols)
}
fn row(r: &[u64]) -> Vec<E<G>> {
    r.iter().map(|x| E::<G>::from(*x)).collect()
}

/// Every observer of the table against the matrix.
fn same(ch: &Ch, t: &TraceTable<G>, m: &Matrix, hist: &dyn Fn() -> String) -> bool {
    let r = guard(|| {
        let n = m.rows.len();
        let bad = |what: &str| Some(what.to_string());
        if m.cols > 0 && t.n_rows() != n {
            return bad("n_rows");
        }
        if t.n_cols != m.cols {
            return bad("n_cols");
        }
        if t.is_empty() != (m.cols == 0) {
            return bad("is_empty");
        }
        if m.cols == 0 {
            return (t.n_rows() != 0 || !t.rows().is_empty() || !t.cols().is_empty()).then(|| "empty table".to_string());
        }
        if t.table.len() != n * m.cols {
            return bad("number of cells");
        }
        if t.rows() != m.rows.iter().map(|r| row(r)).collect::<Vec<_>>() {
            return bad("rows");
        }
        let cols: Vec<Vec<E<G>>> = (0..m.cols).map(|c| m.rows.iter().map(|r| E::<G>::from(r[c])).collect()).collect();
        if t.cols() != cols {
            return bad("cols");
        }
        for i in 0..n {
            if t.get_row(i) != &row(&m.rows[i])[..] {
                return bad("get_row");
            }
            for c in 0..m.cols {
                if t.get(i, c) != E::<G>::from(m.rows[i][c]) {
                    return bad("get");
                }
            }
        }
        if n > 0 && t.last_row() != &row(&m.rows[n - 1])[..] {
            return bad("last_row");
        }
        if *t != real(m) || t.clone() != *t {
            return bad("equality");
        }
        None
    });
    ch.ops(1);
    match r {
        Ok(None) => true,
        Ok(Some(what)) => ch.check(false, &format!("table-{}", what.replace(' ', "-")), || format!("{what} after {}", hist())),
        Err(e) => ch.check(false, "table-panics", || format!("{e} after {}", hist())),
    }
}

/// One operation on both; None where the operation is not defined.
fn step(ch: &mut Ch, t: &TraceTable<G>, m: &Matrix, fresh: &mut u64) -> Option<(String, TraceTable<G>, Matrix)> {
    let mut next = || {
        *fresh += 1;
        *fresh
    };
    Some(match ch.pick(6) {
        0 => {
            // any list of up to three columns, repetitions included
            if m.cols == 0 {
                return None;
            }
            let k = ch.range(0, 3);
            let list: Vec<usize> = (0..k).map(|_| ch.pick(m.cols)).collect();
            let q = Matrix { rows: m.rows.iter().map(|r| list.iter().map(|c| r[*c]).collect()).collect(), cols: k };
            (format!("get_cols({list:?})"), t.get_cols(&list), q)
        }
        1 => {
            if m.cols == 0 {
                return None;
            }
            let k = ch.range(0, 3);
            let new: Vec<Vec<u64>> = m.rows.iter().map(|_| (0..k).map(|_| next()).collect()).collect();
            let q = Matrix { rows: m.rows.iter().zip(&new).map(|(r, s)| r.iter().chain(s).copied().collect()).collect(), cols: m.cols + k };
            (format!("concatenate({k} columns)"), t.concatenate(new.iter().flatten().map(|x| E::<G>::from(*x)).collect(), k), q)
        }
        2 => {
            if m.cols == 0 {
                return None;
            }
            (format!("new_from_cols(cols)"), TraceTable::new_from_cols(&t.cols()), m.clone())
        }
        3 => {
            // transposition
            if m.rows.is_empty() || m.cols == 0 {
                return None;
            }
            let q = Matrix { rows: (0..m.cols).map(|c| m.rows.iter().map(|r| r[c]).collect()).collect(), cols: m.rows.len() };
            ("new_from_cols(rows)".into(), TraceTable::new_from_cols(&t.rows()), q)
        }
        4 => ("new(rows)".into(), TraceTable::new(t.rows().concat(), t.n_cols), m.clone()),
        _ => {
            // a frame's rows become a table
            if m.rows.is_empty() || m.cols == 0 {
                return None;
            }
            let s = ch.pick(m.rows.len());
            let (a, b) = (ch.range(0, 2), ch.range(0, 2));
            let f = Frame::read_from_trace(t, s, 1, &[a, b]);
            let q = Matrix { rows: [a, b].iter().map(|o| m.rows[(s + o) % m.rows.len()].clone()).collect(), cols: m.cols };
            let cells = (0..f.num_rows()).flat_map(|i| f.get_row(i).to_vec()).collect();
            (format!("frame({s}, [{a}, {b}])"), TraceTable::new(cells, f.num_columns()), q)
        }
    })
}

fn frames<F: IsFFTField + PartialEq>(ch: &mut Ch, name: &str)
where
    FieldElement<F>: ByteConversion,
{
    let n = ch.of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 67]);
    let w = ch.range(1, 3);
    let blowup = ch.of(&[1u8, 2, 8, 128]);
    let k = ch.range(1, 3);
    let offsets: Vec<usize> = (0..k).map(|_| ch.range(0, 4)).collect();
    let cell = |i: usize, c: usize| fe::<F>((i * 10 + c + 1) as i64);
    let rows: Vec<Vec<E<F>>> = (0..n).map(|i| (0..w).map(|c| cell(i, c)).collect()).collect();
    let t = table(&rows);
    ch.state(&(name, n, w, blowup, &offsets));
    for step in 0..2 * n {
        let hist = || format!("step {step}, blow-up {blowup}, offsets {offsets:?}, {n} rows of {w} ({name})");
        ch.ops(1);
        let r = guard(|| Frame::read_from_trace(&t, step, blowup, &offsets));
        let Ok(mut f) = r else {
            ch.fail("frame-panics", hist());
            return;
        };
        let want: Vec<Vec<E<F>>> = offsets.iter().map(|o| rows[(step + o * blowup as usize) % n].clone()).collect();
        let got = guard(|| {
            f.num_rows() == k
                && f.num_columns() == w
                && (0..k).all(|i| f.get_row(i) == &want[i][..])
                && f == Frame::new(want.concat(), w)
                && f.has_dimensions(k, w)
                && !f.has_dimensions(k + 1, w)
                && !f.has_dimensions(k, w + 1)
                && !(k > 1 && w > 1 && k != w && f.has_dimensions(w, k))
        });
        if !ch.check(got == Ok(true), "frame", hist) {
            return;
        }
        // bytes
        let r = guard(|| Frame::<F>::deserialize(&f.serialize()));
        ch.check(matches!(&r, Ok(Ok(g)) if *g == f), "frame-bytes", hist);
        // a written row changes that row only
        let at = step % k;
        let ok = guard(move || {
            for x in f.get_row_mut(at) {
                *x = fe::<F>(-3);
            }
            (0..k).all(|i| if i == at { f.get_row(i).iter().all(|x| *x == fe::<F>(-3)) && f.get_row(i).len() == w } else { f.get_row(i) == &want[i][..] })
        });
        ch.check(ok == Ok(true), "frame-row-mut", hist);
    }
}

fn main() {
    harness::main("C22", Level::ModelChecking, |ctx| {
        ctx.rule("every start table, every sequence of table operations to the stated depth, all observers compared with a plain matrix after each; every frame of every small table and its bytes; every polynomial frame over F17; non-trivial: distinct history");
        let sequences = |ch: &mut Ch, side: usize, least: usize, most: usize| {
            let n = ch.range(0, side);
            let w = ch.range(0, side);
            if w == 0 && n > 0 {
                return;
            }
            let mut fresh = 0u64;
            let mut m = Matrix { rows: vec![], cols: w };
            for _ in 0..n {
                m.rows.push(
                    (0..w)
                        .map(|_| {
                            fresh += 1;
                            fresh
                        })
                        .collect(),
                );
            }
            let how = ch.pick(2);
            let mut t = match how {
                0 => real(&m),
                _ if w == 0 => TraceTable::empty(),
                _ => TraceTable::new_from_cols(&(0..w).map(|c| m.rows.iter().map(|r| E::<G>::from(r[c])).collect()).collect::<Vec<_>>()),
            };
            let mut hist = format!("{n}x{w} built from {}", ["rows", "columns"][how]);
            if !same(ch, &t, &m, &|| hist.clone()) {
                return;
            }
            let d = ch.range(least, most);
            for _ in 0..d {
                let r = {
                    let (c, t, m, f) = (&mut *ch, &t, &m, &mut fresh);
                    guard(std::panic::AssertUnwindSafe(move || step(c, t, m, f)))
                };
                match r {
                    Ok(None) => return,
                    Ok(Some((op, t2, m2))) => {
                        hist = format!("{hist}, {op}");
                        (t, m) = (t2, m2);
                    }
                    Err(e) => return ch.fail("operation-panics", format!("{e} after {hist}")),
                }
                if !same(ch, &t, &m, &|| hist.clone()) {
                    return;
                }
                if m.cols == 0 {
                    return;
                }
            }
            ch.state(&(&m, &hist));
            ch.validated(1);
        };
        ctx.explore("operation sequences", |ch| sequences(ch, 3, 0, 3));
        if ctx.thorough() {
            ctx.explore("longer operation sequences", |ch| sequences(ch, 2, 4, 4));
        }
        ctx.explore("frames over Goldilocks", |ch| frames::<G>(ch, "Goldilocks"));
        ctx.explore("frames over Stark252", |ch| frames::<S>(ch, "Stark252"));
        // sizes around powers of two: a narrowed counter, index or product
        let sizes: Vec<(usize, usize)> = ctx.tier(vec![8u32, 16], vec![7, 8, 10, 12, 14, 15, 16, 17, 18]).into_iter().flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).flat_map(|n| [(n, 1), (1, n), (n, 3), (2, n)]).chain([(256, 256), (300, 260), (5, 70)]).collect();
        ctx.explore("large tables", |ch| {
            let (n, w) = ch.of(&sizes);
            let m = Matrix { rows: (0..n).map(|i| (0..w).map(|c| (i * w + c + 1) as u64).collect()).collect(), cols: w };
            let what = ch.pick(5);
            ch.state(&(n, w, what));
            ch.validated(1);
            let pick = [w - 1, 0, w / 2];
            let hist = || format!("{n}x{w}, {}", ["built from rows", "built from columns", "transposed", "three columns", "two more columns"][what]);
            let r = guard(|| {
                let t = real(&m);
                match what {
                    0 => (t, m.clone()),
                    1 => (TraceTable::new_from_cols(&t.cols()), m.clone()),
                    2 => (TraceTable::new_from_cols(&t.rows()), Matrix { rows: (0..w).map(|c| m.rows.iter().map(|r| r[c]).collect()).collect(), cols: n }),
                    3 => (t.get_cols(&pick), Matrix { rows: m.rows.iter().map(|r| pick.iter().map(|c| r[*c]).collect()).collect(), cols: 3 }),
                    _ => (t.concatenate((0..2 * n).map(|i| E::<G>::from(i as u64)).collect(), 2), Matrix { rows: m.rows.iter().enumerate().map(|(i, r)| r.iter().copied().chain([2 * i as u64, 2 * i as u64 + 1]).collect()).collect(), cols: w + 2 }),
                }
            });
            match r {
                Ok((t, m)) => {
                    same(ch, &t, &m, &hist);
                }
                Err(e) => ch.fail("operation-panics", format!("{e}: {}", hist())),
            }
        });
        ctx.explore("far frames", |ch| {
            let n = ch.of(&[1usize, 255, 256, 1024, 65536, 131072]);
            let blowup = ch.of(&[1u8, 2, 127, 128, 255]);
            let offsets = ch.of(&[&[0usize, 1][..], &[255, 256], &[257, 0], &[65535, 65536], &[1 << 20], &[3, 2, 1, 300]]);
            let cell = |i: usize| fe::<G>(3 * i as i64 - 7);
            let rows: Vec<Vec<E<G>>> = (0..n).map(|i| vec![cell(i)]).collect();
            let t = table(&rows);
            ch.state(&(n, blowup, offsets));
            for step in [0, 1, 127, 255, 256, 257, 65535, 65536, 65537, n / 2, n - 1, n, n + 1, 2 * n - 1] {
                ch.ops(1);
                let got = guard(|| Frame::read_from_trace(&t, step, blowup, offsets));
                let want = Frame::new(offsets.iter().map(|o| cell((step + o * blowup as usize) % n)).collect(), 1);
                ch.check(got == Ok(want), "far-frame", || format!("step {step}, blow-up {blowup}, offsets {offsets:?}, {n} rows"));
            }
        });
        // what a frame may declare about itself
        ctx.explore("frame shapes", |ch| {
            let cells = ch.range(0, 8);
            let w = ch.range(0, 8);
            ch.state(&(cells, w));
            let what = || format!("{cells} cells, declared width {w}");
            for f in [Frame::<G>::new((0..cells).map(|i| fe::<G>(i as i64 - 2)).collect(), w)] {
                for (r, c) in (0..10).flat_map(|r| (0..10).map(move |c| (r, c))) {
                    ch.ops(1);
                    let ok = guard(|| f.has_dimensions(r, c)) == Ok(c == w && r * c == cells);
                    ch.check(ok, "has-dimensions", || format!("has_dimensions({r}, {c}): {}", what()));
                }
                if w > 0 {
                    ch.check(guard(|| f.num_rows()) == Ok(cells / w) && f.num_columns() == w, "frame", what);
                }
                let r = guard(|| Frame::<G>::deserialize(&f.serialize()));
                ch.check(matches!(&r, Ok(Ok(g)) if *g == f), "frame-bytes", what);
            }
            let f = Frame::<S>::new((0..cells).map(|i| fe::<S>(i as i64 - 2)).collect(), w);
            let r = guard(|| Frame::<S>::deserialize(&f.serialize()));
            ch.check(matches!(&r, Ok(Ok(g)) if *g == f), "frame-bytes", what);
        });
        // out-of-domain frames: trace polynomials at x, x g^o
        ctx.explore("polynomial frames", |ch| {
            let k = ch.range(1, 3);
            let offsets: Vec<usize> = (0..k).map(|_| ch.of(&[0usize, 1, 2, 3, 5])).collect();
            let d = ch.range(0, ctx.tier(3, 4));
            let p: Vec<u64> = (0..d).map(|_| ch.of(&[0u64, 1, 5, 16])).collect();
            let g = ch.of(&[2u64, 4, 16, 1, 3]);
            ch.state(&(&offsets, &p, g));
            let f = |v: &[u64]| -> Vec<E<P17>> { v.iter().map(|x| E::<P17>::from(*x)).collect() };
            let polys = [Polynomial::new(&f(&p)), Polynomial::new(&f(&[3, 1, 2]))];
            for x in 0..17u64 {
                ch.ops(1);
                let got = guard(|| Frame::<P17>::get_trace_evaluations(&polys, &E::<P17>::from(x), &offsets, &E::<P17>::from(g)));
                let want: Vec<Vec<E<P17>>> = offsets
                    .iter()
                    .map(|o| {
                        let mut at = x;
                        for _ in 0..*o {
                            at = at * g % 17;
                        }
                        [&p[..], &[3, 1, 2]].iter().map(|q| E::<P17>::from(q.iter().rev().fold(0, |a, c| (a * at + c) % 17))).collect()
                    })
                    .collect();
                ch.check(got == Ok(want), "polynomial-frame", || format!("{p:?} at {x}, offsets {offsets:?}, g {g}"));
            }
        });
    });
}

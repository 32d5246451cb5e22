//! A family of constraint systems, a generator of their satisfying traces, and a plain-matrix oracle
//! that says whether a trace satisfies a system.
#![allow(dead_code)]
use harness::Ch;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{
    constraints::boundary::{BoundaryConstraint, BoundaryConstraints},
    context::AirContext,
    frame::Frame,
    proof::options::ProofOptions,
    trace::TraceTable,
    traits::AIR,
    transcript::transcript_to_field,
};
use std::sync::Arc;

pub type E<F> = FieldElement<F>;

/// coef * (product of frame cells) * (rap challenge)
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Term {
    pub coef: i64,
    pub cells: Vec<(usize, usize)>,
    pub rap: Option<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Con {
    pub terms: Vec<Term>,
    pub degree: usize,
    pub exempt: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Fib,
    Sq,
    Cube,
    SquareOf(usize),
    Bool,
    Alt,
    /// reverse of another column, only constrained through an auxiliary permutation argument
    RevOf(usize),
    /// holds the inverse of nothing in particular: unconstrained
    Free,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Aux {
    Scaled(usize),
    Perm(usize, usize),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bnd<F: IsFFTField> {
    pub col: usize,
    pub step: usize,
    pub value: E<F>,
}
#[derive(Clone, Debug)]
pub struct Spec<F: IsFFTField> {
    pub main: Vec<Kind>,
    pub aux: Vec<Aux>,
    pub offsets: Vec<usize>,
    pub cons: Vec<Con>,
    pub bnd: Vec<Bnd<F>>,
    pub bound_mult: usize,
    pub n_rap: usize,
    /// added to one cell of the auxiliary trace (a misbehaving prover's witness)
    pub aux_fault: Option<(usize, usize, u64)>,
}

pub fn fe<F: IsFFTField>(x: i64) -> E<F> {
    if x >= 0 {
        E::<F>::from(x as u64)
    } else {
        -E::<F>::from(x.unsigned_abs())
    }
}

impl<F: IsFFTField> Spec<F> {
    pub fn n_cols(&self) -> usize {
        self.main.len() + self.aux.len()
    }
    pub fn name(&self) -> String {
        format!(
            "main {:?} aux {:?} offsets {:?} exempt {:?} degrees {:?} boundary {:?} bound x{}",
            self.main,
            self.aux,
            self.offsets,
            self.cons.iter().map(|c| c.exempt).collect::<Vec<_>>(),
            self.cons.iter().map(|c| c.degree).collect::<Vec<_>>(),
            self.bnd.iter().map(|b| (b.col, b.step)).collect::<Vec<_>>(),
            self.bound_mult
        )
    }
    pub fn con_eval(&self, con: &Con, cell: &dyn Fn(usize, usize) -> E<F>, rap: &[E<F>]) -> E<F> {
        let mut acc = E::<F>::zero();
        for t in &con.terms {
            let mut v = fe::<F>(t.coef);
            for (r, c) in &t.cells {
                v = &v * &cell(*r, *c);
            }
            if let Some(k) = t.rap {
                v = &v * &rap[k];
            }
            acc = &acc + &v;
        }
        acc
    }
    /// Constraint values by plain matrix indexing on the full (main + aux) trace.
    pub fn eval_row(&self, rows: &[Vec<E<F>>], i: usize, rap: &[E<F>]) -> Vec<E<F>> {
        let n = rows.len();
        self.cons
            .iter()
            .map(|c| self.con_eval(c, &|r, col| rows[(i + self.offsets[r]) % n][col].clone(), rap))
            .collect()
    }
    /// First violated obligation of a full trace, if any.
    pub fn violated(&self, rows: &[Vec<E<F>>], rap: &[E<F>]) -> Option<String> {
        let n = rows.len();
        for b in &self.bnd {
            if rows[b.step][b.col] != b.value {
                return Some(format!("boundary ({},{})", b.step, b.col));
            }
        }
        for i in 0..n {
            for (k, v) in self.eval_row(rows, i, rap).iter().enumerate() {
                if i + self.cons[k].exempt < n && *v != E::<F>::zero() {
                    return Some(format!("transition {k} row {i}"));
                }
            }
        }
        None
    }
    pub fn aux_rows(&self, main: &[Vec<E<F>>], rap: &[E<F>]) -> Vec<Vec<E<F>>> {
        let n = main.len();
        let mut cols: Vec<Vec<E<F>>> = vec![];
        for a in &self.aux {
            match a {
                Aux::Scaled(s) => cols.push((0..n).map(|i| &main[i][*s] * &rap[0]).collect()),
                Aux::Perm(a, b) => {
                    let mut z = vec![E::<F>::one()];
                    for i in 1..n {
                        let den = &main[i - 1][*b] + &rap[0];
                        let den = if den == E::<F>::zero() { E::<F>::one() } else { den };
                        let v = &z[i - 1] * &(&main[i - 1][*a] + &rap[0]) * den.inv();
                        z.push(v);
                    }
                    cols.push(z);
                }
            }
        }
        let mut rows: Vec<Vec<E<F>>> =
            (0..n).map(|i| cols.iter().map(|c| c[i].clone()).collect()).collect();
        if let Some((r, c, d)) = self.aux_fault {
            rows[r][c] = &rows[r][c] + &E::<F>::from(d);
        }
        rows
    }
    pub fn full_rows(&self, main: &[Vec<E<F>>], rap: &[E<F>]) -> Vec<Vec<E<F>>> {
        let aux = self.aux_rows(main, rap);
        main.iter().zip(aux).map(|(m, a)| m.iter().cloned().chain(a).collect()).collect()
    }
    pub fn context(&self, opts: &ProofOptions) -> AirContext {
        let mut nz: Vec<usize> = vec![];
        for c in &self.cons {
            if c.exempt > 0 && !nz.contains(&c.exempt) {
                nz.push(c.exempt);
            }
        }
        AirContext {
            proof_options: opts.clone(),
            trace_columns: self.n_cols(),
            transition_degrees: self.cons.iter().map(|c| c.degree).collect(),
            transition_offsets: self.offsets.clone(),
            transition_exemptions: self.cons.iter().map(|c| c.exempt).collect(),
            num_transition_constraints: self.cons.len(),
            num_transition_exemptions: nz.len(),
        }
    }
    /// Is the honest composition polynomial within what `blowup` can carry?
    pub fn carried_by(&self, n: usize, blowup: usize) -> bool {
        let bound = self.bound_mult * n;
        let cap = (2 * n).min(blowup * n);
        self.cons.iter().all(|c| {
            // degree of T_i(x) * x^(bound - n(d-1)) * exemptions / zerofier
            bound >= n * (c.degree - 1) && {
                let adj = bound - n * (c.degree - 1);
                let num = (n - 1) * c.degree + adj + c.exempt;
                num < cap + n
            }
        })
    }
}

#[derive(Clone)]
pub struct FamAir<F: IsFFTField> {
    pub spec: Arc<Spec<F>>,
    pub ctx: AirContext,
    pub n: usize,
}

pub fn table<F: IsFFTField>(rows: &[Vec<E<F>>]) -> TraceTable<F> {
    let n_cols = rows[0].len();
    TraceTable::new(rows.iter().flatten().cloned().collect(), n_cols)
}

impl<F: IsFFTField> AIR for FamAir<F>
where
    FieldElement<F>: ByteConversion,
{
    type Field = F;
    type RAPChallenges = Vec<E<F>>;
    type PublicInputs = Arc<Spec<F>>;

    fn new(n: usize, spec: &Arc<Spec<F>>, opts: &ProofOptions) -> Self {
        FamAir { spec: spec.clone(), ctx: spec.context(opts), n }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<F>, rap: &Vec<E<F>>) -> TraceTable<F> {
        if self.spec.aux.is_empty() {
            return TraceTable::empty();
        }
        let k = self.spec.main.len();
        let rows: Vec<Vec<E<F>>> =
            (0..main.table.len() / k).map(|i| main.table[i * k..(i + 1) * k].to_vec()).collect();
        table(&self.spec.aux_rows(&rows, rap))
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> Vec<E<F>> {
        (0..self.spec.n_rap).map(|_| transcript_to_field(t)).collect()
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.spec.aux.len()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.spec.bound_mult * self.n
    }
    fn compute_transition(&self, frame: &Frame<F>, rap: &Vec<E<F>>) -> Vec<E<F>> {
        self.spec
            .cons
            .iter()
            .map(|c| self.spec.con_eval(c, &|r, col| frame.get_row(r)[col].clone(), rap))
            .collect()
    }
    fn boundary_constraints(&self, _rap: &Vec<E<F>>) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(
            self.spec
                .bnd
                .iter()
                .map(|b| BoundaryConstraint::new(b.col, b.step, b.value.clone()))
                .collect(),
        )
    }
    fn context(&self) -> &AirContext {
        &self.ctx
    }
    fn trace_length(&self) -> usize {
        self.n
    }
    fn pub_inputs(&self) -> &Arc<Spec<F>> {
        &self.spec
    }
}

fn t(coef: i64, cells: &[(usize, usize)]) -> Term {
    Term { coef, cells: cells.to_vec(), rap: None }
}
fn tr(coef: i64, cells: &[(usize, usize)]) -> Term {
    Term { coef, cells: cells.to_vec(), rap: Some(0) }
}

/// Constraint of a column of the given kind, `e` = number of exempt rows beyond what wrapping forces.
pub fn con_of(kind: Kind, col: usize, offsets: &[usize], extra: usize) -> Option<Con> {
    let l = offsets.len() - 1;
    let m = offsets[l];
    Some(match kind {
        Kind::Fib => Con {
            terms: vec![t(1, &[(l, col)]), t(-1, &[(l.min(1).min(l.saturating_sub(1)), col)]), t(-1, &[(0, col)])],
            degree: 1,
            exempt: m + extra,
        },
        Kind::Sq => Con {
            terms: vec![t(1, &[(l, col)]), t(-1, &[(0, col), (0, col)]), t(-1, &[])],
            degree: 2,
            exempt: m + extra,
        },
        Kind::Cube => Con {
            terms: vec![t(1, &[(l, col)]), t(-1, &[(0, col), (0, col), (0, col)]), t(-1, &[(0, col)])],
            degree: 3,
            exempt: m + extra,
        },
        Kind::SquareOf(j) => Con {
            terms: vec![t(1, &[(0, col)]), t(-1, &[(0, j), (0, j)])],
            degree: 2,
            exempt: extra,
        },
        Kind::Bool => Con { terms: vec![t(1, &[(0, col), (0, col)]), t(-1, &[(0, col)])], degree: 2, exempt: extra },
        Kind::Alt => Con { terms: vec![t(1, &[(l, col)]), t(1, &[(0, col)])], degree: 1, exempt: extra },
        Kind::RevOf(_) | Kind::Free => return None,
    })
}

/// Garbage that a constraint does not allow, used in exempt rows.
pub fn junk<F: IsFFTField>(i: usize, c: usize) -> E<F> {
    E::<F>::from(1000 + 37 * i as u64 + 5 * c as u64)
}

/// A satisfying main trace (rows). Cells not forced by an enforced constraint hold `junk`.
pub fn main_trace<F: IsFFTField>(spec: &Spec<F>, n: usize, seed: u64) -> Vec<Vec<E<F>>> {
    main_trace_with(
        spec,
        n,
        &|i| E::<F>::from(seed + 1 + i as u64),
        &|i, c| junk(i, c),
        &|i| (i as u64 * 7 + seed) / 3 % 2 == 1,
        &E::<F>::from(5 + seed),
    )
}

/// The same with every free choice of the witness given: first values of the recurrences, cells no
/// constraint forces, boolean column, alternating column.
pub fn main_trace_with<F: IsFFTField>(
    spec: &Spec<F>,
    n: usize,
    start: &dyn Fn(usize) -> E<F>,
    junk: &dyn Fn(usize, usize) -> E<F>,
    bits: &dyn Fn(usize) -> bool,
    alt: &E<F>,
) -> Vec<Vec<E<F>>> {
    let plain = spec.plain();
    let spec = &plain;
    let w = spec.main.len();
    let mut cols: Vec<Vec<E<F>>> = vec![];
    let l = spec.offsets.len() - 1;
    let m = spec.offsets[l];
    let mid = spec.offsets[l.min(1).min(l.saturating_sub(1))];
    for (c, k) in spec.main.iter().enumerate() {
        // exempt rows of this column's own constraint (constraints are in column order)
        let e = spec
            .cons
            .iter()
            .find(|x| x.terms[0].cells.last() == Some(&(l, c)) || x.terms[0].cells.last() == Some(&(0, c)))
            .map(|x| x.exempt)
            .unwrap_or(0);
        let mut v: Vec<E<F>> = (0..n).map(|i| junk(i, c)).collect();
        match k {
            Kind::Fib | Kind::Sq | Kind::Cube => {
                for (i, x) in v.iter_mut().enumerate().take(m) {
                    *x = start(i);
                }
                for i in 0..n.saturating_sub(e) {
                    v[i + m] = match k {
                        Kind::Fib => &v[i + mid] + &v[i],
                        Kind::Sq => &v[i] * &v[i] + E::<F>::one(),
                        _ => &v[i] * &v[i] * &v[i] + &v[i],
                    };
                }
            }
            Kind::SquareOf(j) => {
                for i in 0..n - e.min(n) {
                    v[i] = &cols[*j][i] * &cols[*j][i];
                }
            }
            Kind::Bool => {
                for (i, x) in v.iter_mut().enumerate().take(n - e.min(n)) {
                    *x = if bits(i) { E::<F>::one() } else { E::<F>::zero() };
                }
            }
            Kind::Alt => {
                for (i, x) in v.iter_mut().enumerate() {
                    *x = if (i / m.max(1)) % 2 == 0 { alt.clone() } else { -alt.clone() };
                }
            }
            Kind::RevOf(j) => {
                // last row stays out of the product of the permutation argument
                for i in 0..n - 1 {
                    v[i] = cols[*j][n - 2 - i].clone();
                }
            }
            Kind::Free => {}
        }
        cols.push(v);
    }
    (0..n).map(|i| (0..w).map(|c| cols[c][i].clone()).collect()).collect()
}

/// Many of everything: `cols` columns of mixed kinds, each with its own values, `aux` randomized ones, `nb` boundary
/// conditions spread over the main columns. A satisfying main trace with it.
pub fn big<F: IsFFTField>(n: usize, cols: usize, aux: usize, nb: usize, offsets: &[usize]) -> (Spec<F>, Vec<Vec<E<F>>>) {
    let kinds = [Kind::Sq, Kind::Bool, Kind::Fib, Kind::Free];
    let one = |k: Kind, e: usize| Spec::<F> {
        main: vec![k],
        aux: vec![],
        offsets: offsets.to_vec(),
        cons: con_of(k, 0, offsets, e).into_iter().collect(),
        bnd: vec![],
        bound_mult: 1,
        n_rap: 0,
        aux_fault: None,
    };
    let main: Vec<Kind> = (0..cols).map(|c| kinds[c % 4]).collect();
    let mut cons: Vec<Con> = main.iter().enumerate().filter_map(|(c, k)| con_of(*k, c, offsets, c % 3)).collect();
    let values: Vec<Vec<Vec<E<F>>>> = main.iter().enumerate().map(|(c, k)| main_trace(&one(*k, c % 3), n, 3 * c as u64)).collect();
    let rows: Vec<Vec<E<F>>> = (0..n).map(|i| values.iter().map(|v| v[i][0].clone()).collect()).collect();
    for i in 0..aux {
        cons.push(Con { terms: vec![t(1, &[(0, cols + i)]), tr(-1, &[(0, i % cols)])], degree: 1, exempt: 0 });
    }
    let mut bnd: Vec<Bnd<F>> = vec![];
    for k in 0..n * cols {
        // every cell once: columns first, a different row in each
        let (col, step) = (k % cols, (k / cols + 5 * (k % cols)) % n);
        if bnd.len() < nb {
            bnd.push(Bnd { col, step, value: rows[step][col].clone() });
        }
    }
    let aux_cols = (0..aux).map(|i| Aux::Scaled(i % cols)).collect();
    (Spec { main, aux: aux_cols, offsets: offsets.to_vec(), cons, bnd, bound_mult: 1, n_rap: (aux > 0) as usize, aux_fault: None }, rows)
}

/// Shapes explored by the generator.
#[derive(Clone)]
pub struct Menu {
    pub offsets: Vec<Vec<usize>>,
    pub kinds: Vec<Kind>,
    pub max_cols: usize,
    pub aux: Vec<Vec<Aux>>,
    pub extra: Vec<usize>,
    pub bnd: usize,
}

/// The frame rows in their usual form: ascending from the current row, each once.
fn usual(offsets: &[usize]) -> (usize, Vec<usize>) {
    let k = *offsets.iter().min().unwrap();
    let mut base: Vec<usize> = offsets.iter().map(|o| o - k).collect();
    base.sort_unstable();
    base.dedup();
    (k, base)
}
impl<F: IsFFTField> Spec<F> {
    /// The frame row that is the current row, where there is one.
    pub fn current(&self) -> Option<usize> {
        self.offsets.iter().position(|o| *o == 0)
    }
    /// The same system stated over these frame rows, which are its own in another order, repeated, or all moved by the
    /// same distance. Of a repeated row every other use goes to the last copy.
    fn restate(&self, offsets: &[usize]) -> Self {
        let (k, base) = usual(offsets);
        assert_eq!(base, self.offsets);
        let mut uses = 0usize;
        let mut row = |r: usize| {
            uses += 1;
            let at = |o: &usize| *o == base[r] + k;
            if uses % 2 == 0 { offsets.iter().rposition(|o| at(o)) } else { offsets.iter().position(|o| at(o)) }.unwrap()
        };
        let mut s = self.clone();
        for c in s.cons.iter_mut() {
            for t in c.terms.iter_mut() {
                for x in t.cells.iter_mut() {
                    x.0 = row(x.0);
                }
            }
            if c.exempt > 0 {
                c.exempt += k;
            }
        }
        s.offsets = offsets.to_vec();
        s
    }
    /// `restate` undone.
    fn plain(&self) -> Self {
        let (k, base) = usual(&self.offsets);
        let mut s = self.clone();
        for c in s.cons.iter_mut() {
            for t in c.terms.iter_mut() {
                for x in t.cells.iter_mut() {
                    x.0 = base.iter().position(|o| o + k == self.offsets[x.0]).unwrap();
                }
            }
            if c.exempt > 0 {
                c.exempt -= k;
            }
        }
        s.offsets = base;
        s
    }
}

/// Chooses a system, its satisfying main trace and the matching boundary values. None: combination
/// outside the supported shape (the caller skips it).
pub fn choose<F: IsFFTField>(ch: &mut Ch, n: usize, menu: &Menu) -> Option<(Spec<F>, Vec<Vec<E<F>>>)> {
    let stated = ch.of(&menu.offsets);
    let (shift, offsets) = usual(&stated);
    let m = *offsets.last().unwrap();
    let ncols = ch.range(1, menu.max_cols);
    let mut main = vec![];
    let mut cons = vec![];
    for c in 0..ncols {
        let k = ch.of(&menu.kinds);
        let k = match k {
            Kind::SquareOf(_) if c == 0 => return None,
            Kind::SquareOf(_) => Kind::SquareOf(c - 1),
            k => k,
        };
        if offsets.len() == 1 && matches!(k, Kind::Fib | Kind::Sq | Kind::Cube | Kind::Alt) {
            return None;
        }
        if m >= n {
            return None;
        }
        if k == Kind::Alt && !(n % (2 * m) == 0) {
            return None;
        }
        let extra = ch.of(&menu.extra);
        if k == Kind::Alt && extra > 0 {
            return None;
        }
        if let Some(con) = con_of(k, c, &offsets, extra) {
            if con.exempt + shift > n {
                return None;
            }
            cons.push(con);
        }
        main.push(k);
    }
    let aux = ch.of(&menu.aux);
    if shift > 0 && (m + shift >= n || aux.iter().any(|a| matches!(a, Aux::Perm(..)))) {
        return None;
    }
    let (spec, rows) = finish(ch, n, offsets, main, cons, aux, menu.bnd)?;
    Some((if spec.offsets == stated { spec } else { spec.restate(&stated) }, rows))
}

#[allow(clippy::too_many_arguments)]
fn finish<F: IsFFTField>(
    ch: &mut Ch,
    n: usize,
    offsets: Vec<usize>,
    mut main: Vec<Kind>,
    mut cons: Vec<Con>,
    aux: Vec<Aux>,
    bnd: usize,
) -> Option<(Spec<F>, Vec<Vec<E<F>>>)> {
    let m = *offsets.last().unwrap();
    if aux.iter().any(|a| matches!(a, Aux::Perm(..))) {
        main.push(Kind::RevOf(0));
    }
    let nm = main.len();
    let mut n_rap = 0;
    let mut aux2 = vec![];
    for (i, a) in aux.iter().enumerate() {
        n_rap = 1;
        match a {
            Aux::Scaled(_) => {
                aux2.push(Aux::Scaled(0));
                cons.push(Con { terms: vec![t(1, &[(0, nm + i)]), tr(-1, &[(0, 0)])], degree: 1, exempt: 0 });
            }
            Aux::Perm(..) => {
                let one = offsets.iter().position(|o| *o == 1)?;
                let (a, b) = (0, nm - 1);
                aux2.push(Aux::Perm(a, b));
                let z = nm + i;
                cons.push(Con {
                    terms: vec![t(1, &[(one, z), (0, b)]), tr(1, &[(one, z)]), t(-1, &[(0, z), (0, a)]), tr(-1, &[(0, z)])],
                    degree: 2,
                    exempt: 1,
                });
            }
        }
    }
    if cons.is_empty() {
        return None;
    }
    let bound_mult = if cons.iter().any(|c| c.degree > 2) { 2 } else { ch.range(1, 2) };
    let mut spec = Spec { main, aux: aux2, offsets, cons, bnd: vec![], bound_mult, n_rap, aux_fault: None };
    let rows = main_trace(&spec, n, 2);
    // boundary patterns: 0 none, 1 first cell, 2 first and last cell of column 0, 3 one cell per column
    // plus a duplicate step, 4 every cell of the last column
    match ch.pick(bnd) {
        0 => {}
        1 => spec.bnd.push(Bnd { col: 0, step: 0, value: rows[0][0].clone() }),
        2 => {
            spec.bnd.push(Bnd { col: 0, step: n - 1, value: rows[n - 1][0].clone() });
            spec.bnd.push(Bnd { col: 0, step: 0, value: rows[0][0].clone() });
        }
        3 => {
            for c in (0..nm).rev() {
                let s = (c + m) % n;
                spec.bnd.push(Bnd { col: c, step: s, value: rows[s][c].clone() });
            }
            if let Some(p) = spec.aux.iter().position(|a| matches!(a, Aux::Perm(..))) {
                spec.bnd.push(Bnd { col: nm + p, step: 0, value: E::<F>::one() });
                spec.bnd.push(Bnd { col: nm + p, step: n - 1, value: E::<F>::one() });
            }
        }
        _ => {
            for s in 0..n {
                spec.bnd.push(Bnd { col: nm - 1, step: s, value: rows[s][nm - 1].clone() });
            }
        }
    }
    Some((spec, rows))
}

pub fn opts(blowup: u8, queries: usize, offset: u64, grinding: u8) -> ProofOptions {
    ProofOptions { blowup_factor: blowup, fri_number_of_queries: queries, coset_offset: offset, grinding_factor: grinding }
}

/// Offset outside the evaluation subgroup and outside the trace domain.
pub fn legal_offset<F: IsFFTField>(offset: u64, n: usize, blowup: usize) -> bool {
    let o = E::<F>::from(offset);
    o != E::<F>::zero() && o.pow(n * blowup) != E::<F>::one()
}

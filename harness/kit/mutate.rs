//! Every place of a proof, and every way of damaging it there.
#![allow(dead_code)]
use crate::fam::E;
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
};

pub type P<F> = StarkProof<F>;

pub fn copy<F: IsFFTField>(p: &P<F>) -> P<F> {
    StarkProof {
        trace_length: p.trace_length,
        lde_trace_merkle_roots: p.lde_trace_merkle_roots.clone(),
        trace_ood_frame_evaluations: p.trace_ood_frame_evaluations.clone(),
        composition_poly_root: p.composition_poly_root,
        composition_poly_even_ood_evaluation: p.composition_poly_even_ood_evaluation.clone(),
        composition_poly_odd_ood_evaluation: p.composition_poly_odd_ood_evaluation.clone(),
        fri_layers_merkle_roots: p.fri_layers_merkle_roots.clone(),
        fri_last_value: p.fri_last_value.clone(),
        query_list: p.query_list.iter().map(copy_dec).collect(),
        deep_poly_openings: p.deep_poly_openings.iter().map(copy_open).collect(),
        nonce: p.nonce,
    }
}
pub fn copy_dec<F: IsFFTField>(d: &FriDecommitment<F>) -> FriDecommitment<F> {
    FriDecommitment {
        layers_auth_paths_sym: d.layers_auth_paths_sym.iter().map(copy_path).collect(),
        layers_evaluations_sym: d.layers_evaluations_sym.clone(),
        layers_auth_paths: d.layers_auth_paths.iter().map(copy_path).collect(),
        layers_evaluations: d.layers_evaluations.clone(),
    }
}
pub fn copy_open<F: IsFFTField>(d: &DeepPolynomialOpenings<F>) -> DeepPolynomialOpenings<F> {
    DeepPolynomialOpenings {
        lde_composition_poly_proof: copy_path(&d.lde_composition_poly_proof),
        lde_composition_poly_even_evaluation: d.lde_composition_poly_even_evaluation.clone(),
        lde_composition_poly_odd_evaluation: d.lde_composition_poly_odd_evaluation.clone(),
        lde_trace_merkle_proofs: d.lde_trace_merkle_proofs.iter().map(copy_path).collect(),
        lde_trace_evaluations: d.lde_trace_evaluations.clone(),
    }
}
pub fn copy_path(p: &Proof<[u8; 32]>) -> Proof<[u8; 32]> {
    Proof { merkle_path: p.merkle_path.clone() }
}

trait Dup {
    fn dup(&self) -> Self;
}
impl Dup for [u8; 32] {
    fn dup(&self) -> Self {
        *self
    }
}
impl<F: IsFFTField> Dup for E<F> {
    fn dup(&self) -> Self {
        self.clone()
    }
}
impl<F: IsFFTField> Dup for FriDecommitment<F> {
    fn dup(&self) -> Self {
        copy_dec(self)
    }
}
impl<F: IsFFTField> Dup for DeepPolynomialOpenings<F> {
    fn dup(&self) -> Self {
        copy_open(self)
    }
}
impl Dup for Proof<[u8; 32]> {
    fn dup(&self) -> Self {
        copy_path(self)
    }
}

/// A list inside a proof.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum List {
    Roots,
    FriRoots,
    Queries,
    Openings,
    SymPaths(usize),
    SymEvals(usize),
    Paths(usize),
    Evals(usize),
    SymPath(usize, usize),
    Path(usize, usize),
    CompPath(usize),
    TracePaths(usize),
    TracePath(usize, usize),
    TraceEvals(usize),
}

/// Applies `$f` to the vector named by the list.
macro_rules! on {
    ($p:expr, $l:expr, |$v:ident| $f:expr) => {{
        let p = $p;
        match $l {
            List::Roots => { let $v = &mut p.lde_trace_merkle_roots; $f }
            List::FriRoots => { let $v = &mut p.fri_layers_merkle_roots; $f }
            List::Queries => { let $v = &mut p.query_list; $f }
            List::Openings => { let $v = &mut p.deep_poly_openings; $f }
            List::SymPaths(q) => { let $v = &mut p.query_list[q].layers_auth_paths_sym; $f }
            List::SymEvals(q) => { let $v = &mut p.query_list[q].layers_evaluations_sym; $f }
            List::Paths(q) => { let $v = &mut p.query_list[q].layers_auth_paths; $f }
            List::Evals(q) => { let $v = &mut p.query_list[q].layers_evaluations; $f }
            List::SymPath(q, k) => { let $v = &mut p.query_list[q].layers_auth_paths_sym[k].merkle_path; $f }
            List::Path(q, k) => { let $v = &mut p.query_list[q].layers_auth_paths[k].merkle_path; $f }
            List::CompPath(q) => { let $v = &mut p.deep_poly_openings[q].lde_composition_poly_proof.merkle_path; $f }
            List::TracePaths(q) => { let $v = &mut p.deep_poly_openings[q].lde_trace_merkle_proofs; $f }
            List::TracePath(q, t) => { let $v = &mut p.deep_poly_openings[q].lde_trace_merkle_proofs[t].merkle_path; $f }
            List::TraceEvals(q) => { let $v = &mut p.deep_poly_openings[q].lde_trace_evaluations; $f }
        }
    }};
}

pub fn lists<F: IsFFTField>(p: &P<F>) -> Vec<List> {
    let mut v = vec![List::Roots, List::FriRoots, List::Queries, List::Openings];
    for (q, d) in p.query_list.iter().enumerate() {
        v.extend([List::SymPaths(q), List::SymEvals(q), List::Paths(q), List::Evals(q)]);
        v.extend((0..d.layers_auth_paths_sym.len()).map(|k| List::SymPath(q, k)));
        v.extend((0..d.layers_auth_paths.len()).map(|k| List::Path(q, k)));
    }
    for (q, d) in p.deep_poly_openings.iter().enumerate() {
        v.extend([List::CompPath(q), List::TracePaths(q), List::TraceEvals(q)]);
        v.extend((0..d.lde_trace_merkle_proofs.len()).map(|k| List::TracePath(q, k)));
    }
    v
}
pub fn len<F: IsFFTField>(p: &mut P<F>, l: List) -> usize {
    on!(p, l, |v| v.len())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    /// keep the first k entries
    Cut(List, usize),
    /// remove one entry
    Drop(List, usize),
    /// insert a copy of entry i right after it
    Dup(List, usize),
    /// k more copies of the last entry
    Grow(List, usize),
    /// out-of-domain frame with this many values and this width
    Frame(usize, usize),
    TraceLength(usize),
}

/// None: the target list does not exist any more, or nothing changes.
pub fn reshape<F: IsFFTField>(p: &mut P<F>, s: &Shape) -> bool {
    if let Shape::Cut(l, _) | Shape::Drop(l, _) | Shape::Dup(l, _) | Shape::Grow(l, _) = s {
        // the list may have gone with an earlier change
        let ok = match *l {
            List::SymPaths(q) | List::SymEvals(q) | List::Paths(q) | List::Evals(q) => q < p.query_list.len(),
            List::SymPath(q, k) => q < p.query_list.len() && k < p.query_list[q].layers_auth_paths_sym.len(),
            List::Path(q, k) => q < p.query_list.len() && k < p.query_list[q].layers_auth_paths.len(),
            List::CompPath(q) | List::TracePaths(q) | List::TraceEvals(q) => q < p.deep_poly_openings.len(),
            List::TracePath(q, t) => q < p.deep_poly_openings.len() && t < p.deep_poly_openings[q].lde_trace_merkle_proofs.len(),
            _ => true,
        };
        if !ok {
            return false;
        }
    }
    match s {
        Shape::Cut(l, k) => on!(p, *l, |v| {
            let b = *k < v.len();
            v.truncate(*k);
            b
        }),
        Shape::Drop(l, i) => on!(p, *l, |v| {
            let b = *i < v.len();
            if b {
                v.remove(*i);
            }
            b
        }),
        Shape::Dup(l, i) => on!(p, *l, |v| {
            let b = *i < v.len();
            if b {
                let x = v[*i].dup();
                v.insert(*i, x);
            }
            b
        }),
        Shape::Grow(l, k) => on!(p, *l, |v| {
            if v.is_empty() {
                false
            } else {
                for _ in 0..*k {
                    let x = v.last().unwrap().dup();
                    v.push(x);
                }
                true
            }
        }),
        Shape::Frame(n, w) => {
            let f = &p.trace_ood_frame_evaluations;
            let cols = f.num_columns();
            let rows = if cols == 0 { 0 } else { f.num_rows() };
            let mut data: Vec<E<F>> = (0..rows).flat_map(|r| f.get_row(r).to_vec()).collect();
            let same = data.len() == *n && cols == *w;
            let last = data.last().cloned().unwrap_or(E::<F>::one());
            data.resize(*n, last);
            p.trace_ood_frame_evaluations = Frame::new(data, *w);
            !same
        }
        Shape::TraceLength(n) => {
            let b = p.trace_length != *n;
            p.trace_length = *n;
            b
        }
    }
}

/// Every single damage to the shape (trace lengths above `max_len` excluded).
pub fn shapes<F: IsFFTField>(p: &P<F>, max_len: usize) -> Vec<Shape> {
    let mut p = copy(p);
    let mut v = vec![];
    for l in lists(&p) {
        let n = len(&mut p, l);
        v.extend((0..n).map(|k| Shape::Cut(l, k)));
        v.extend((0..n.saturating_sub(1)).map(|k| Shape::Drop(l, k)));
        v.extend((0..n).map(|k| Shape::Dup(l, k)));
        v.extend([2, 5, 61].map(|k| Shape::Grow(l, k)));
    }
    let f = &p.trace_ood_frame_evaluations;
    let (rows, cols) = (f.num_rows(), f.num_columns());
    for n in 0..=rows * cols + cols + 1 {
        for w in (0..=cols + 2).chain([rows * cols, rows * cols + 1, usize::MAX, usize::MAX / 2 + 1, 1 << 32]) {
            v.push(Shape::Frame(n, w));
        }
    }
    let t = p.trace_length;
    for n in (0..=4 * t + 1).chain([63, 64, 65, 1024, 1 << 13, max_len]) {
        if n <= max_len {
            v.push(Shape::TraceLength(n));
        }
    }
    // lengths that no domain of the field can have, or whose blow-up does not fit a machine word
    for n in [usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) + 1, 1 << 62, 1 << 61, 3 << 60, (1 << 40) + 1, (1 << 32) - 1] {
        v.push(Shape::TraceLength(n));
    }
    v.retain(|s| reshape(&mut copy(&p), s));
    v.dedup();
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Place {
    OodFrame(usize, usize),
    Even,
    Odd,
    Last,
    QueryEval(usize, usize),
    QueryEvalSym(usize, usize),
    OpenEven(usize),
    OpenOdd(usize),
    OpenTrace(usize, usize),
}
pub fn places<F: IsFFTField>(p: &P<F>) -> Vec<Place> {
    let mut v = vec![Place::Even, Place::Odd, Place::Last];
    let f = &p.trace_ood_frame_evaluations;
    for r in 0..f.num_rows() {
        v.extend((0..f.num_columns()).map(|c| Place::OodFrame(r, c)));
    }
    for (q, d) in p.query_list.iter().enumerate() {
        v.extend((0..d.layers_evaluations.len()).map(|k| Place::QueryEval(q, k)));
        v.extend((0..d.layers_evaluations_sym.len()).map(|k| Place::QueryEvalSym(q, k)));
    }
    for (q, d) in p.deep_poly_openings.iter().enumerate() {
        v.extend([Place::OpenEven(q), Place::OpenOdd(q)]);
        v.extend((0..d.lde_trace_evaluations.len()).map(|k| Place::OpenTrace(q, k)));
    }
    v
}
pub fn cell<'a, F: IsFFTField>(p: &'a mut P<F>, at: Place) -> &'a mut E<F> {
    match at {
        Place::OodFrame(r, c) => &mut p.trace_ood_frame_evaluations.get_row_mut(r)[c],
        Place::Even => &mut p.composition_poly_even_ood_evaluation,
        Place::Odd => &mut p.composition_poly_odd_ood_evaluation,
        Place::Last => &mut p.fri_last_value,
        Place::QueryEval(q, k) => &mut p.query_list[q].layers_evaluations[k],
        Place::QueryEvalSym(q, k) => &mut p.query_list[q].layers_evaluations_sym[k],
        Place::OpenEven(q) => &mut p.deep_poly_openings[q].lde_composition_poly_even_evaluation,
        Place::OpenOdd(q) => &mut p.deep_poly_openings[q].lde_composition_poly_odd_evaluation,
        Place::OpenTrace(q, k) => &mut p.deep_poly_openings[q].lde_trace_evaluations[k],
    }
}

/// Digests: each has a name and a mutable reference.
pub fn digests<F: IsFFTField>(p: &mut P<F>) -> Vec<(String, &mut [u8; 32])> {
    let mut v: Vec<(String, &mut [u8; 32])> = vec![("composition_poly_root".into(), &mut p.composition_poly_root)];
    for (i, d) in p.lde_trace_merkle_roots.iter_mut().enumerate() {
        v.push((format!("lde_trace_merkle_roots.{i}"), d));
    }
    for (i, d) in p.fri_layers_merkle_roots.iter_mut().enumerate() {
        v.push((format!("fri_layers_merkle_roots.{i}"), d));
    }
    for (q, dec) in p.query_list.iter_mut().enumerate() {
        for (k, x) in dec.layers_auth_paths_sym.iter_mut().enumerate() {
            for (i, d) in x.merkle_path.iter_mut().enumerate() {
                v.push((format!("layers_auth_paths_sym.{q}.{k}.{i}"), d));
            }
        }
        for (k, x) in dec.layers_auth_paths.iter_mut().enumerate() {
            for (i, d) in x.merkle_path.iter_mut().enumerate() {
                v.push((format!("layers_auth_paths.{q}.{k}.{i}"), d));
            }
        }
    }
    for (q, o) in p.deep_poly_openings.iter_mut().enumerate() {
        for (i, d) in o.lde_composition_poly_proof.merkle_path.iter_mut().enumerate() {
            v.push((format!("lde_composition_poly_proof.{q}.{i}"), d));
        }
        for (k, x) in o.lde_trace_merkle_proofs.iter_mut().enumerate() {
            for (i, d) in x.merkle_path.iter_mut().enumerate() {
                v.push((format!("lde_trace_merkle_proofs.{q}.{k}.{i}"), d));
            }
        }
    }
    v
}

/// Exchange entries i and j of a list.
pub fn swap<F: IsFFTField>(p: &mut P<F>, l: List, i: usize, j: usize) {
    on!(p, l, |v| v.swap(i, j))
}

/// Everything a verifier can see in a proof (lists with their lengths).
pub fn image<F: IsFFTField>(p: &P<F>) -> String {
    format!("{p:?}")
}

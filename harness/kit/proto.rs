//! The protocol written a second time, naively: a prover that can be told to cheat in one place and
//! a verifier that names the checks a proof fails.
#![allow(dead_code)]
use crate::fam::*;
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::options::ProofOptions,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
};
use sha3::{Digest, Keccak256};

pub type Dig = [u8; 32];

// ---------------------------------------------------------------- Merkle trees
#[derive(Clone)]
pub struct Tree {
    pub nodes: Vec<Dig>, // heap order, leaves last
    /// so many more levels above the root, both children of each the same
    pub above: usize,
}
pub fn hash_leaf<F: IsFFTField>(v: &[E<F>]) -> Dig
where
    FieldElement<F>: ByteConversion,
{
    let mut h = Keccak256::new();
    for x in v {
        h.update(x.to_bytes_be());
    }
    h.finalize().into()
}
pub fn hash_pair(a: &Dig, b: &Dig) -> Dig {
    let mut h = Keccak256::new();
    h.update(a);
    h.update(b);
    h.finalize().into()
}
impl Tree {
    pub fn new<F: IsFFTField>(leaves: &[Vec<E<F>>]) -> Tree
    where
        FieldElement<F>: ByteConversion,
    {
        let mut l: Vec<Dig> = leaves.iter().map(|v| hash_leaf::<F>(v)).collect();
        let n = l.len().next_power_of_two();
        let last = *l.last().unwrap();
        l.resize(n, last);
        let mut nodes = vec![[0u8; 32]; n - 1];
        nodes.extend(l);
        for i in (0..n - 1).rev() {
            nodes[i] = hash_pair(&nodes[2 * i + 1], &nodes[2 * i + 2]);
        }
        Tree { nodes, above: 0 }
    }
    /// A tree of another depth over the same leaves: levels more, or so many fewer that it holds only the leaves around
    /// position `pos` of each block.
    pub fn of_depth<F: IsFFTField>(leaves: &[Vec<E<F>>], levels: i32, pos: usize) -> Tree
    where
        FieldElement<F>: ByteConversion,
    {
        if levels >= 0 {
            return Tree { above: levels as usize, ..Tree::new::<F>(leaves) };
        }
        let part = leaves.len() >> -levels;
        let from = pos / part * part;
        Tree::new::<F>(&leaves[from..from + part])
    }
    pub fn root(&self) -> Dig {
        (0..self.above).fold(self.nodes[0], |d, _| hash_pair(&d, &d))
    }
    pub fn path(&self, pos: usize) -> Proof<Dig> {
        let leaves = self.nodes.len() / 2 + 1;
        let mut i = pos % leaves + leaves - 1;
        let mut merkle_path = vec![];
        while i > 0 {
            merkle_path.push(self.nodes[if i % 2 == 1 { i + 1 } else { i - 1 }]);
            i = (i - 1) / 2;
        }
        let mut d = self.nodes[0];
        for _ in 0..self.above {
            merkle_path.push(d);
            d = hash_pair(&d, &d);
        }
        Proof { merkle_path }
    }
}
pub fn path_ok<F: IsFFTField>(root: &Dig, pos: usize, leaf: &[E<F>], p: &Proof<Dig>, depth: usize) -> bool
where
    FieldElement<F>: ByteConversion,
{
    if p.merkle_path.len() != depth {
        return false;
    }
    let mut h = hash_leaf::<F>(leaf);
    let mut i = pos;
    for s in &p.merkle_path {
        h = if i % 2 == 0 { hash_pair(&h, s) } else { hash_pair(s, &h) };
        i /= 2;
    }
    h == *root
}

// ---------------------------------------------------------------- polynomials as coefficient lists
pub fn horner<F: IsFFTField>(p: &[E<F>], x: &E<F>) -> E<F> {
    p.iter().rev().fold(E::<F>::zero(), |a, c| &a * x + c)
}
pub fn powers<F: IsFFTField>(g: &E<F>, n: usize, first: &E<F>) -> Vec<E<F>> {
    let mut v = vec![first.clone()];
    while v.len() < n {
        let l = v.last().unwrap() * g;
        v.push(l);
    }
    v.truncate(n);
    v
}
/// Inverse discrete Fourier transform by definition: values on offset * <g>, g of order n.
pub fn interp<F: IsFFTField>(vals: &[E<F>], g: &E<F>, offset: &E<F>) -> Vec<E<F>> {
    let n = vals.len();
    let ninv = E::<F>::from(n as u64).inv();
    let gi = g.inv();
    let oi = offset.inv();
    let pw = powers(&gi, n, &E::<F>::one());
    (0..n)
        .map(|k| {
            let mut a = E::<F>::zero();
            for (i, v) in vals.iter().enumerate() {
                a = a + v * &pw[(i * k) % n];
            }
            a * &ninv * oi.pow(k)
        })
        .collect()
}
pub fn root_of<F: IsFFTField>(n: usize) -> E<F> {
    F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap()
}

// ---------------------------------------------------------------- coins
pub fn to_felt<F: IsFFTField>(mut b: Dig) -> E<F>
where
    FieldElement<F>: ByteConversion,
{
    let keep = F::field_bit_size() - 1;
    let clear = 256 - keep;
    for i in 0..clear {
        b[i / 8] &= !(0x80 >> (i % 8));
    }
    // as a number: sum of the 32 bytes in base 256
    let mut a = E::<F>::zero();
    let base = E::<F>::from(256u64);
    for x in b {
        a = a * &base + E::<F>::from(x as u64);
    }
    a
}
/// 32 bytes that decode to the given small number as a field challenge and as an index.
pub fn coin_field(v: u64) -> Dig {
    let mut b = [0u8; 32];
    b[24..].copy_from_slice(&v.to_be_bytes());
    b
}
pub fn coin_index(v: u64) -> Dig {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&v.to_be_bytes());
    b
}
pub fn score(seed: &Dig, nonce: u64) -> u8 {
    let mut h = Keccak256::new();
    h.update(seed);
    h.update(nonce.to_le_bytes());
    let d = h.finalize();
    let head = u64::from_be_bytes(d[..8].try_into().unwrap());
    let mut k = 0;
    while k < 64 && head >> k & 1 == 0 {
        k += 1;
    }
    k
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Which {
    Main,
    Aux,
    Comp,
    Fri(usize),
}
/// What a prover whose DEEP function is not low-degree commits to.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fri {
    /// the function itself; the final value is the constant coefficient
    Interp,
    /// the function itself; the final value is right for this query index
    LastAt(usize),
    /// the low-degree polynomial agreeing with it at the indices of this set
    Through(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cheat {
    None,
    /// commit to a table differing from the opened value in this leaf (None: in every leaf)
    Leaf(Which, Option<usize>),
    /// composition polynomial plus a constant (even half), otherwise consistent
    Composition(u64),
    /// publish an out-of-domain value off by delta: 0 even, 1 odd, 2.. frame cell
    Ood(usize, u64),
    /// first folding layer is the DEEP polynomial plus a constant
    P0(u64),
    /// as P0, and trace column c is opened at whatever value the DEEP equation needs
    P0OpenTrace(u64, usize),
    /// as P0, and the even (0) / odd (1) composition half is opened at the needed value
    P0OpenComp(u64, usize),
    /// folding layer k is the fold plus a constant
    Layer(usize, u64),
    /// as Layer(k+1) (or the last value), and layer k's symmetric value is opened at what is needed
    LayerOpenSym(usize, u64),
    /// final value off by a constant
    Last(u64),
    /// smallest nonce that does NOT meet the difficulty
    Nonce,
    /// evaluations of layer 0 differ at one point from the DEEP polynomial (not low degree)
    Bump(usize, u64),
    /// this many folding layers; the final value is right for the given query index only
    Layers(usize, usize),
    /// publishes a wrong out-of-domain value as `Ood`, and plays the folding phase like this
    Lie(usize, u64, Fri),
    /// the auxiliary columns are never committed to
    NoAuxRoot,
    /// commits to a second trace without columns
    PhantomAux,
    /// publishes the last out-of-domain row twice
    ExtraOodRow,
    /// publishes one more out-of-domain column (a copy of the last), never opened
    ExtraOodCol,
    /// commits to and opens this leaf with entry c changed; everything else as for the honest one
    Cell(Which, usize, usize, u64),
    /// folding layer k changed at this index and at the symmetric one so that the fold under this
    /// challenge stays the same
    PairValue(usize, usize, u64, u64),
    /// at this query, opens two values (columns, then the composition halves) other than committed
    /// with the DEEP value unchanged
    OpenPair(usize, usize, usize, u64),
    /// at this query, opens a symmetric value of layer k other than committed
    OpenSym(usize, usize, u64),
    /// at this query, opens a value of layer k and its symmetric one other than committed, the fold
    /// under this challenge unchanged
    OpenBoth(usize, usize, u64, u64),
    /// this commitment is to a tree with so many levels more (or fewer: the part of the leaves that holds this position)
    Depth(Which, i32, usize),
}

pub struct Made<F: IsFFTField>
where
    FieldElement<F>: ByteConversion,
{
    pub proof: StarkProof<F>,
    pub iotas: Vec<usize>,
    pub z: E<F>,
}

pub struct Composed<F: IsFFTField> {
    pub h: Vec<E<F>>,
}

/// Value of the constraint composition at one point, from the values of the trace polynomials there.
#[allow(clippy::too_many_arguments)]
pub fn composition_at<F: IsFFTField>(
    spec: &Spec<F>,
    n: usize,
    x: &E<F>,
    cell: &dyn Fn(usize, usize) -> E<F>,
    rap: &[E<F>],
    bco: &[(E<F>, E<F>)],
    tco: &[(E<F>, E<F>)],
) -> E<F> {
    let g = root_of::<F>(n);
    let one = E::<F>::one();
    let bound = spec.bound_mult * n;
    let mut acc = E::<F>::zero();
    let adj = x.pow(bound - n);
    // a frame without the current row: asked for as a row beyond the frame
    let current = spec.current().unwrap_or(usize::MAX);
    for (b, (al, be)) in spec.bnd.iter().zip(bco) {
        let num = cell(current, b.col) - &b.value;
        acc = acc + num * (x - g.pow(b.step)).inv() * (al * &adj + be);
    }
    let zer = (x.pow(n) - &one).inv();
    for (c, (al, be)) in spec.cons.iter().zip(tco) {
        let mut v = spec.con_eval(c, cell, rap);
        for k in 0..c.exempt {
            v = v * (x - g.pow(n - 1 - k));
        }
        let adj = x.pow(bound - n * (c.degree - 1));
        acc = acc + v * &zer * (al * adj + be);
    }
    acc
}

pub fn fold<F: IsFFTField>(p: &[E<F>], z: &E<F>) -> Vec<E<F>> {
    let h = (p.len() + 1) / 2;
    (0..h)
        .map(|i| {
            let a = p[2 * i].clone();
            match p.get(2 * i + 1) {
                Some(b) => a + b * z,
                None => a,
            }
        })
        .collect()
}

/// The polynomial of least degree through these points (coefficients).
pub fn through<F: IsFFTField>(pts: &[(E<F>, E<F>)]) -> Vec<E<F>> {
    let mut p = vec![E::<F>::zero(); pts.len().max(1)];
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let mut b = vec![E::<F>::one()];
        let mut den = E::<F>::one();
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i != j {
                let mut c = vec![E::<F>::zero(); b.len() + 1];
                for (k, v) in b.iter().enumerate() {
                    c[k + 1] = &c[k + 1] + v;
                    c[k] = &c[k] - &(v * xj);
                }
                b = c;
                den = den * (xi - xj);
            }
        }
        let s = yi * den.inv();
        for (k, v) in b.iter().enumerate() {
            p[k] = &p[k] + &(v * &s);
        }
    }
    p
}

/// Change of the symmetric value that makes up for adding `d` to the value at x under this challenge.
pub fn keep_fold<F: IsFFTField>(x: &E<F>, d: u64, zeta: u64) -> Option<E<F>>
where
    FieldElement<F>: ByteConversion,
{
    // (d + f)/2 + zeta (d - f)/(2x) = 0
    let r = to_felt::<F>(coin_field(zeta)) * x.inv();
    let den = &E::<F>::one() - &r;
    if den == E::<F>::zero() {
        return None;
    }
    Some(-(E::<F>::from(d) * (&E::<F>::one() + &r) * den.inv()))
}

/// The honest protocol, except for `cheat`.
pub fn make<F: IsFFTField>(spec: &Spec<F>, main: &[Vec<E<F>>], o: &ProofOptions, cheat: Cheat) -> Made<F>
where
    FieldElement<F>: ByteConversion,
{
    let n = main.len();
    let bl = o.blowup_factor as usize;
    let big = n * bl;
    let off = E::<F>::from(o.coset_offset);
    let g = root_of::<F>(n);
    let w = root_of::<F>(big);
    let one = E::<F>::one();
    let dom = powers(&w, big, &off);
    let mut tr = DefaultTranscript::new();
    let felt = |tr: &mut DefaultTranscript| to_felt::<F>(tr.challenge());
    let bump = |leaves: &mut Vec<Vec<E<F>>>, at: Option<usize>| match at {
        Some(i) => {
            let i = i % leaves.len();
            leaves[i][0] = &leaves[i][0] + &one;
        }
        None => leaves.iter_mut().for_each(|l| l[0] = &l[0] + &one),
    };

    let tree = |leaves: &[Vec<E<F>>], w: Which| match cheat {
        Cheat::Depth(x, levels, pos) if x == w => Tree::of_depth::<F>(leaves, levels, pos % leaves.len()),
        _ => Tree::new::<F>(leaves),
    };

    // round 1
    let polys_of = |rows: &[Vec<E<F>>]| -> Vec<Vec<E<F>>> {
        (0..rows[0].len())
            .map(|c| interp::<F>(&rows.iter().map(|r| r[c].clone()).collect::<Vec<_>>(), &g, &one))
            .collect()
    };
    let lde_of = |polys: &[Vec<E<F>>]| -> Vec<Vec<E<F>>> {
        dom.iter().map(|x| polys.iter().map(|p| horner::<F>(p, x)).collect()).collect()
    };
    let mut polys = polys_of(main);
    let mut leaves = lde_of(&polys);
    if let Cheat::Leaf(Which::Main, at) = cheat {
        bump(&mut leaves, at);
    }
    let change = |leaves: &mut Vec<Vec<E<F>>>, w: Which, add: usize| match cheat {
        Cheat::Cell(x, i, c, d) if x == w && c >= add && c - add < leaves[0].len() => {
            let i = i % leaves.len();
            leaves[i][c - add] = &leaves[i][c - add] + &E::<F>::from(d)
        }
        _ => {}
    };
    change(&mut leaves, Which::Main, 0);
    let mut trees = vec![tree(&leaves, Which::Main)];
    tr.append(&trees[0].root());
    let rap: Vec<E<F>> = (0..spec.n_rap).map(|_| felt(&mut tr)).collect();
    if !spec.aux.is_empty() {
        let aux = polys_of(&spec.aux_rows(main, &rap));
        let mut leaves = lde_of(&aux);
        if let Cheat::Leaf(Which::Aux, at) = cheat {
            bump(&mut leaves, at);
        }
        change(&mut leaves, Which::Aux, main[0].len());
        if cheat != Cheat::NoAuxRoot {
            trees.push(tree(&leaves, Which::Aux));
            tr.append(&trees[1].root());
        }
        polys.extend(aux);
    } else if cheat == Cheat::PhantomAux {
        trees.push(Tree::new::<F>(&vec![vec![]; big]));
        tr.append(&trees[1].root());
    }

    // round 2
    let ba: Vec<_> = spec.bnd.iter().map(|_| felt(&mut tr)).collect();
    let bb: Vec<_> = spec.bnd.iter().map(|_| felt(&mut tr)).collect();
    let ta: Vec<_> = spec.cons.iter().map(|_| felt(&mut tr)).collect();
    let tb: Vec<_> = spec.cons.iter().map(|_| felt(&mut tr)).collect();
    let bco: Vec<_> = ba.into_iter().zip(bb).collect();
    let tco: Vec<_> = ta.into_iter().zip(tb).collect();
    let hv: Vec<E<F>> = dom
        .iter()
        .map(|x| {
            composition_at(
                spec,
                n,
                x,
                &|r, c| horner::<F>(&polys[c], &(x * g.pow(spec.offsets.get(r).copied().unwrap_or(0)))),
                &rap,
                &bco,
                &tco,
            )
        })
        .collect();
    let mut h = interp::<F>(&hv, &w, &off);
    while h.len() > 1 && *h.last().unwrap() == E::<F>::zero() {
        h.pop();
    }
    if let Cheat::Composition(d) = cheat {
        h[0] = &h[0] + &E::<F>::from(d);
    }
    let h1: Vec<_> = h.iter().step_by(2).cloned().collect();
    let h2: Vec<_> = h.iter().skip(1).step_by(2).cloned().collect();
    let comp = lde_of(&[h1.clone(), h2.clone()]);
    let mut leaves = comp.clone();
    if let Cheat::Leaf(Which::Comp, at) = cheat {
        bump(&mut leaves, at);
    }
    change(&mut leaves, Which::Comp, 0);
    let ctree = tree(&leaves, Which::Comp);
    tr.append(&ctree.root());

    // round 3
    let tdom = powers(&g, n, &one);
    let z = loop {
        let z = felt(&mut tr);
        if !tdom.contains(&z) && !dom.contains(&z) && !dom.contains(&(&z * &z)) {
            break z;
        }
    };
    let z2 = &z * &z;
    let mut h1z = horner::<F>(&h1, &z2);
    let mut h2z = horner::<F>(&h2, &z2);
    let mut ood: Vec<Vec<E<F>>> = spec
        .offsets
        .iter()
        .map(|k| polys.iter().map(|p| horner::<F>(p, &(&z * g.pow(*k)))).collect())
        .collect();
    if let Cheat::Ood(i, d) | Cheat::Lie(i, d, _) = cheat {
        let d = E::<F>::from(d);
        match i {
            0 => h1z = h1z + d,
            1 => h2z = h2z + d,
            k => {
                let (r, c) = ((k - 2) / polys.len(), (k - 2) % polys.len());
                ood[r][c] = &ood[r][c] + &d;
            }
        }
    }
    tr.append(&h1z.to_bytes_be());
    tr.append(&h2z.to_bytes_be());
    let mut shown = ood.clone();
    match cheat {
        Cheat::ExtraOodRow => shown.push(ood.last().unwrap().clone()),
        Cheat::ExtraOodCol => shown.iter_mut().for_each(|r| r.push(r.last().unwrap().clone())),
        _ => {}
    }
    for r in &shown {
        for x in r {
            tr.append(&x.to_bytes_be());
        }
    }

    // round 4
    let ge = felt(&mut tr);
    let go = felt(&mut tr);
    let gam: Vec<Vec<E<F>>> =
        polys.iter().map(|_| spec.offsets.iter().map(|_| felt(&mut tr)).collect()).collect();
    let deep_at = |x: &E<F>, tv: &dyn Fn(usize) -> E<F>, hv: (&E<F>, &E<F>)| -> E<F> {
        let d = (x - &z2).inv();
        let mut a = (hv.0 - &h1z) * &d * &ge + (hv.1 - &h2z) * &d * &go;
        for (j, gj) in gam.iter().enumerate() {
            for (k, gk) in gj.iter().enumerate() {
                a = a + (tv(j) - &ood[k][j]) * (x - &z * g.pow(spec.offsets[k])).inv() * gk;
            }
        }
        a
    };
    let mut p0v: Vec<E<F>> = dom
        .iter()
        .enumerate()
        .map(|(i, x)| deep_at(x, &|j| horner::<F>(&polys[j], x), (&comp[i][0], &comp[i][1])))
        .collect();
    if let Cheat::Bump(i, d) = cheat {
        p0v[i] = &p0v[i] + &E::<F>::from(d);
    }
    let mut p = interp::<F>(&p0v, &w, &off);
    let trim = |p: &mut Vec<E<F>>| {
        while p.len() > 1 && *p.last().unwrap() == E::<F>::zero() {
            p.pop();
        }
    };
    trim(&mut p);
    let addc = |p: &mut Vec<E<F>>, d: u64| p[0] = &p[0] + &E::<F>::from(d);
    if let Cheat::P0(d) | Cheat::P0OpenTrace(d, _) | Cheat::P0OpenComp(d, _) = cheat {
        addc(&mut p, d);
    }
    if let Cheat::Lie(_, _, Fri::Through(set)) = cheat {
        let pts: Vec<usize> = (0..big).filter(|i| set >> i & 1 == 1).collect();
        p = through::<F>(&pts.iter().map(|i| (dom[*i].clone(), p0v[*i].clone())).collect::<Vec<_>>());
        trim(&mut p);
    }
    let layers = match cheat {
        Cheat::Layers(k, _) => k,
        _ => (n.trailing_zeros() as usize).max(1),
    };
    let mut lay: Vec<(Vec<E<F>>, Tree)> = vec![];
    let mut zetas = vec![];
    let mut size = big;
    let mut o2 = off.clone();
    for k in 0..layers {
        let d = powers(&root_of::<F>(size), size, &o2);
        let mut ev: Vec<E<F>> = d.iter().map(|x| horner::<F>(&p, x)).collect();
        match cheat {
            Cheat::Cell(Which::Fri(kk), i, _, e) if kk == k => {
                let i = i % size;
                ev[i] = &ev[i] + &E::<F>::from(e);
            }
            Cheat::PairValue(kk, i, e, zeta) if kk == k => {
                let (a, b) = (i % size, (i + size / 2) % size);
                if let Some(f) = keep_fold::<F>(&d[a], e, zeta) {
                    ev[a] = &ev[a] + &E::<F>::from(e);
                    ev[b] = &ev[b] + &f;
                }
            }
            _ => {}
        }
        let mut leaves: Vec<Vec<E<F>>> = ev.iter().map(|e| vec![e.clone()]).collect();
        if let Cheat::Leaf(Which::Fri(kk), at) = cheat {
            if kk == k {
                bump(&mut leaves, at);
            }
        }
        let t = tree(&leaves, Which::Fri(k));
        tr.append(&t.root());
        lay.push((ev, t));
        let zeta = felt(&mut tr);
        p = fold(&p, &zeta);
        zetas.push(zeta);
        match cheat {
            Cheat::Layer(kk, d) if kk == k + 1 => addc(&mut p, d),
            Cheat::LayerOpenSym(kk, d) if kk == k => addc(&mut p, d),
            _ => {}
        }
        size /= 2;
        o2 = &o2 * &o2;
    }
    let mut last = p[0].clone();
    if let Cheat::Layers(k, i) = cheat {
        last = horner::<F>(&p, &dom[i].pow(1usize << k));
    }
    if let Cheat::Lie(_, _, Fri::LastAt(i)) = cheat {
        last = horner::<F>(&p, &dom[i].pow(1usize << layers));
    }
    if let Cheat::Last(d) = cheat {
        last = last + E::<F>::from(d);
    }
    tr.append(&last.to_bytes_be());
    let seed = tr.challenge();
    let mut nonce = 0;
    if cheat == Cheat::Nonce {
        while score(&seed, nonce) >= o.grinding_factor {
            nonce += 1;
        }
    } else {
        while score(&seed, nonce) < o.grinding_factor {
            nonce += 1;
        }
    }
    tr.append(&nonce.to_be_bytes());
    let iotas: Vec<usize> = (0..o.fri_number_of_queries)
        .map(|_| (u64::from_be_bytes(tr.challenge()[..8].try_into().unwrap()) % big as u64) as usize)
        .collect();

    let mut query_list = vec![];
    let mut deep_poly_openings = vec![];
    for (qi, &i) in iotas.iter().enumerate() {
        let mut fd = FriDecommitment {
            layers_auth_paths_sym: vec![],
            layers_evaluations_sym: vec![],
            layers_auth_paths: vec![],
            layers_evaluations: vec![],
        };
        for (ev, t) in &lay {
            let len = ev.len();
            let (a, s) = (i % len, (i + len / 2) % len);
            fd.layers_auth_paths_sym.push(t.path(s));
            fd.layers_evaluations_sym.push(ev[s].clone());
            fd.layers_auth_paths.push(t.path(a));
            fd.layers_evaluations.push(ev[a].clone());
        }
        let x = &dom[i];
        if layers == 0 {
            fd.layers_evaluations.push(p0v[i].clone());
        }
        if let Cheat::LayerOpenSym(k, d) = cheat {
            // (v+s)/2 + zeta (v-s)/(2x) + d = target  =>  change s by e with e (1 - zeta/x)/2 = d
            let mut xk = x.clone();
            for _ in 0..k {
                xk = &xk * &xk;
            }
            let den = &one - &zetas[k] * xk.inv();
            if den != E::<F>::zero() {
                let e = E::<F>::from(d) * E::<F>::from(2u64) * den.inv();
                fd.layers_evaluations_sym[k] = &fd.layers_evaluations_sym[k] + &e;
            }
        }
        match cheat {
            Cheat::OpenSym(r, k, d) if r == qi => fd.layers_evaluations_sym[k] = &fd.layers_evaluations_sym[k] + &E::<F>::from(d),
            Cheat::OpenBoth(r, k, d, zeta) if r == qi => {
                let mut xk = x.clone();
                for _ in 0..k {
                    xk = &xk * &xk;
                }
                if let Some(f) = keep_fold::<F>(&xk, d, zeta) {
                    fd.layers_evaluations[k] = &fd.layers_evaluations[k] + &E::<F>::from(d);
                    fd.layers_evaluations_sym[k] = &fd.layers_evaluations_sym[k] + &f;
                }
            }
            _ => {}
        }
        query_list.push(fd);
        let mut tv: Vec<E<F>> = polys.iter().map(|p| horner::<F>(p, x)).collect();
        let (mut e0, mut e1) = (comp[i][0].clone(), comp[i][1].clone());
        if let Cheat::P0OpenTrace(d, c) = cheat {
            let mut s = E::<F>::zero();
            for (k, gk) in gam[c].iter().enumerate() {
                s = s + (x - &z * g.pow(spec.offsets[k])).inv() * gk;
            }
            tv[c] = &tv[c] + &(E::<F>::from(d) * s.inv());
        }
        if let Cheat::P0OpenComp(d, half) = cheat {
            let s = (x - &z2) * E::<F>::from(d);
            if half == 0 {
                e0 = e0 + s * ge.inv();
            } else {
                e1 = e1 + s * go.inv();
            }
        }
        match cheat {
            Cheat::Cell(Which::Main | Which::Aux, at, c, d) if at % big == i => tv[c] = &tv[c] + &E::<F>::from(d),
            Cheat::Cell(Which::Comp, at, c, d) if at % big == i => {
                let v = if c == 0 { &mut e0 } else { &mut e1 };
                *v = &*v + &E::<F>::from(d);
            }
            Cheat::OpenPair(r, a, b, d) if r == qi => {
                let slope = |c: usize| match c.checked_sub(tv.len()) {
                    Some(0) => (x - &z2).inv() * &ge,
                    Some(_) => (x - &z2).inv() * &go,
                    None => gam[c].iter().enumerate().fold(E::<F>::zero(), |s, (k, gk)| s + (x - &z * g.pow(spec.offsets[k])).inv() * gk),
                };
                let d = E::<F>::from(d);
                let f = -(&d * &slope(a) * slope(b).inv());
                for (c, v) in [(a, d), (b, f)] {
                    match c.checked_sub(tv.len()) {
                        Some(0) => e0 = &e0 + &v,
                        Some(_) => e1 = &e1 + &v,
                        None => tv[c] = &tv[c] + &v,
                    }
                }
            }
            _ => {}
        }
        deep_poly_openings.push(DeepPolynomialOpenings {
            lde_composition_poly_proof: ctree.path(i),
            lde_composition_poly_even_evaluation: e0,
            lde_composition_poly_odd_evaluation: e1,
            lde_trace_merkle_proofs: trees.iter().map(|t| t.path(i)).collect(),
            lde_trace_evaluations: tv,
        });
    }
    let width = shown[0].len();
    Made {
        proof: StarkProof {
            trace_length: n,
            lde_trace_merkle_roots: trees.iter().map(|t| t.root()).collect(),
            trace_ood_frame_evaluations: Frame::new(shown.into_iter().flatten().collect(), width),
            composition_poly_root: ctree.root(),
            composition_poly_even_ood_evaluation: h1z,
            composition_poly_odd_ood_evaluation: h2z,
            fri_layers_merkle_roots: lay.iter().map(|l| l.1.root()).collect(),
            fri_last_value: last,
            query_list,
            deep_poly_openings,
            nonce,
        },
        iotas,
        z,
    }
}

/// Names of the checks the proof fails (empty: accepted). Shape errors are reported alone.
pub fn judge<F: IsFFTField>(spec: &Spec<F>, n: usize, proof: &StarkProof<F>, o: &ProofOptions) -> Vec<String>
where
    FieldElement<F>: ByteConversion,
{
    let mut bad: Vec<String> = judge_each(spec, n, proof, o).into_iter().map(|s| s.split('@').next().unwrap().to_string()).collect();
    bad.sort();
    bad.dedup();
    bad
}

/// The same with the number of the query appended to the checks made per query (`deep@2`).
pub fn judge_each<F: IsFFTField>(spec: &Spec<F>, n: usize, proof: &StarkProof<F>, o: &ProofOptions) -> Vec<String>
where
    FieldElement<F>: ByteConversion,
{
    let mut bad: Vec<String> = vec![];
    let bl = o.blowup_factor as usize;
    let big = n * bl;
    let layers = (n.trailing_zeros() as usize).max(1);
    let q = o.fri_number_of_queries;
    let cols = spec.n_cols();
    let ntrees = if spec.aux.is_empty() { 1 } else { 2 };
    let f = &proof.trace_ood_frame_evaluations;
    if proof.trace_length != n
        || proof.lde_trace_merkle_roots.len() != ntrees
        || f.num_columns() != cols
        || f.num_rows() != spec.offsets.len()
        || proof.fri_layers_merkle_roots.len() != layers
        || proof.query_list.len() != q
        || proof.deep_poly_openings.len() != q
        || proof.query_list.iter().any(|d| {
            d.layers_auth_paths.len() != layers
                || d.layers_auth_paths_sym.len() != layers
                || d.layers_evaluations.len() != layers
                || d.layers_evaluations_sym.len() != layers
        })
        || proof
            .deep_poly_openings
            .iter()
            .any(|d| d.lde_trace_evaluations.len() != cols || d.lde_trace_merkle_proofs.len() != ntrees)
    {
        return vec!["shape".into()];
    }
    let off = E::<F>::from(o.coset_offset);
    let g = root_of::<F>(n);
    let w = root_of::<F>(big);
    let one = E::<F>::one();
    let dom = powers(&w, big, &off);
    let tdom = powers(&g, n, &one);
    let mut tr = DefaultTranscript::new();
    let felt = |tr: &mut DefaultTranscript| to_felt::<F>(tr.challenge());
    tr.append(&proof.lde_trace_merkle_roots[0]);
    let rap: Vec<E<F>> = (0..spec.n_rap).map(|_| felt(&mut tr)).collect();
    if ntrees == 2 {
        tr.append(&proof.lde_trace_merkle_roots[1]);
    }
    let ba: Vec<_> = spec.bnd.iter().map(|_| felt(&mut tr)).collect();
    let bb: Vec<_> = spec.bnd.iter().map(|_| felt(&mut tr)).collect();
    let ta: Vec<_> = spec.cons.iter().map(|_| felt(&mut tr)).collect();
    let tb: Vec<_> = spec.cons.iter().map(|_| felt(&mut tr)).collect();
    let bco: Vec<_> = ba.into_iter().zip(bb).collect();
    let tco: Vec<_> = ta.into_iter().zip(tb).collect();
    tr.append(&proof.composition_poly_root);
    let z = loop {
        let z = felt(&mut tr);
        if !tdom.contains(&z) && !dom.contains(&z) && !dom.contains(&(&z * &z)) {
            break z;
        }
    };
    let (h1z, h2z) = (&proof.composition_poly_even_ood_evaluation, &proof.composition_poly_odd_ood_evaluation);
    tr.append(&h1z.to_bytes_be());
    tr.append(&h2z.to_bytes_be());
    for r in 0..f.num_rows() {
        for x in f.get_row(r) {
            tr.append(&x.to_bytes_be());
        }
    }
    let ge = felt(&mut tr);
    let go = felt(&mut tr);
    let gam: Vec<Vec<E<F>>> =
        (0..cols).map(|_| spec.offsets.iter().map(|_| felt(&mut tr)).collect()).collect();
    let mut zetas = vec![];
    for r in &proof.fri_layers_merkle_roots {
        tr.append(r);
        zetas.push(felt(&mut tr));
    }
    tr.append(&proof.fri_last_value.to_bytes_be());
    let seed = tr.challenge();
    if score(&seed, proof.nonce) < o.grinding_factor {
        bad.push("grinding".into());
    }
    tr.append(&proof.nonce.to_be_bytes());
    let iotas: Vec<usize> = (0..q)
        .map(|_| (u64::from_be_bytes(tr.challenge()[..8].try_into().unwrap()) % big as u64) as usize)
        .collect();
    // out-of-domain consistency
    if spec.current().is_none() && !spec.bnd.is_empty() {
        return vec!["ood".into()];
    }
    let want = composition_at(spec, n, &z, &|r, c| f.get_row(r)[c].clone(), &rap, &bco, &tco);
    if want != h1z + &z * h2z {
        bad.push("ood".into());
    }
    let z2 = &z * &z;
    let depth = big.trailing_zeros() as usize;
    let half = E::<F>::from(2u64).inv();
    for (qi, &i) in iotas.iter().enumerate() {
        let d = &proof.deep_poly_openings[qi];
        let fr = &proof.query_list[qi];
        let x = &dom[i];
        let nm = spec.main.len();
        if !path_ok::<F>(&proof.lde_trace_merkle_roots[0], i, &d.lde_trace_evaluations[..nm], &d.lde_trace_merkle_proofs[0], depth) {
            bad.push(format!("open-main@{qi}"));
        }
        if ntrees == 2
            && !path_ok::<F>(&proof.lde_trace_merkle_roots[1], i, &d.lde_trace_evaluations[nm..], &d.lde_trace_merkle_proofs[1], depth)
        {
            bad.push(format!("open-aux@{qi}"));
        }
        let (e0, e1) = (&d.lde_composition_poly_even_evaluation, &d.lde_composition_poly_odd_evaluation);
        if !path_ok::<F>(&proof.composition_poly_root, i, &[e0.clone(), e1.clone()], &d.lde_composition_poly_proof, depth) {
            bad.push(format!("open-comp@{qi}"));
        }
        let inv = (x - &z2).inv();
        let mut a = (e0 - h1z) * &inv * &ge + (e1 - h2z) * &inv * &go;
        for j in 0..cols {
            for k in 0..spec.offsets.len() {
                a = a
                    + (&d.lde_trace_evaluations[j] - &f.get_row(k)[j])
                        * (x - &z * g.pow(spec.offsets[k])).inv()
                        * &gam[j][k];
            }
        }
        if a != fr.layers_evaluations[0] {
            bad.push(format!("deep@{qi}"));
        }
        let mut v = fr.layers_evaluations[0].clone();
        let mut xk = x.clone();
        for k in 0..layers {
            let len = big >> k;
            let s = (i + len / 2) % len;
            let root = &proof.fri_layers_merkle_roots[k];
            let dk = depth - k;
            if !path_ok::<F>(root, i % len, &[fr.layers_evaluations[k].clone()], &fr.layers_auth_paths[k], dk) {
                bad.push(format!("fri-open-{k}@{qi}"));
            }
            let sv = &fr.layers_evaluations_sym[k];
            if !path_ok::<F>(root, s, &[sv.clone()], &fr.layers_auth_paths_sym[k], dk) {
                bad.push(format!("fri-open-sym-{k}@{qi}"));
            }
            v = (&v + sv) * &half + &zetas[k] * (&v - sv) * &half * xk.inv();
            xk = &xk * &xk;
            if k + 1 < layers {
                if v != fr.layers_evaluations[k + 1] {
                    bad.push(format!("fri-fold-{k}@{qi}"));
                    v = fr.layers_evaluations[k + 1].clone();
                }
            } else if v != proof.fri_last_value {
                bad.push(format!("fri-last@{qi}"));
            }
        }
    }
    bad.sort();
    bad.dedup();
    bad
}

//! C04: a prover that departs from the protocol in exactly one place is rejected.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::hooks;
use lambdaworks_math::field::fields::fft_friendly::{stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::{ByteConversion, Serializable};
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use proto::*;
use std::sync::Arc;

fn menu() -> Menu {
    use Kind::*;
    Menu {
        offsets: vec![vec![0, 1], vec![0, 1, 2], vec![0, 2], vec![1, 0]],
        kinds: vec![Fib, Sq, SquareOf(0)],
        max_cols: 2,
        aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0)]],
        extra: vec![0, 1],
        bnd: 4,
    }
}

/// Number of challenges an honest run draws before the query indices.
fn draws<F: IsFFTField>(spec: &Spec<F>, layers: usize) -> usize {
    spec.n_rap + 2 * spec.bnd.len() + 2 * spec.cons.len() + 1 + 2 + spec.n_cols() * spec.offsets.len() + layers + 1
}

fn cheats<F: IsFFTField>(spec: &Spec<F>, n: usize, big: usize, iota: usize, g: u8) -> Vec<(Cheat, Vec<&'static str>)> {
    let layers = (n.trailing_zeros() as usize).max(1);
    let mut v = vec![];
    for at in [Some(iota), None] {
        v.push((Cheat::Leaf(Which::Main, at), vec!["open-main"]));
        if !spec.aux.is_empty() {
            v.push((Cheat::Leaf(Which::Aux, at), vec!["open-aux"]));
        }
        v.push((Cheat::Leaf(Which::Comp, at), vec!["open-comp"]));
        for k in 0..layers {
            v.push((Cheat::Leaf(Which::Fri(k), at), vec!["fri-open"]));
        }
    }
    for k in 0..layers {
        let len = big >> k;
        v.push((Cheat::Leaf(Which::Fri(k), Some((iota + len / 2) % len)), vec!["fri-open-sym"]));
        if k > 0 {
            v.push((Cheat::Layer(k, 3), vec!["fri-fold"]));
        }
        v.push((Cheat::LayerOpenSym(k, 3), vec!["fri-open-sym"]));
    }
    for d in [1, 1 << 40] {
        v.push((Cheat::Composition(d), vec!["ood"]));
        v.push((Cheat::P0(d), vec!["deep"]));
        v.push((Cheat::Last(d), vec!["fri-last"]));
    }
    for c in 0..spec.n_cols() {
        v.push((Cheat::P0OpenTrace(5, c), vec![if c < spec.main.len() { "open-main" } else { "open-aux" }]));
    }
    for h in 0..2 {
        v.push((Cheat::P0OpenComp(5, h), vec!["open-comp"]));
    }
    for k in 0..2 + spec.n_cols() * spec.offsets.len() {
        v.push((Cheat::Ood(k, 1), vec![]));
    }
    if g > 0 {
        v.push((Cheat::Nonce, vec!["grinding"]));
    }
    v
}

/// Departures that concern one query (or one place) only, so that each check of each query counts.
fn local<F: IsFFTField>(spec: &Spec<F>, n: usize, big: usize, iotas: &[usize], r: usize) -> Vec<(Cheat, Vec<&'static str>)> {
    let layers = (n.trailing_zeros() as usize).max(1);
    let i = iotas[r];
    let mut v = vec![];
    for c in 0..spec.main.len() {
        v.push((Cheat::Cell(Which::Main, i, c, 1), vec!["deep"]));
    }
    for c in spec.main.len()..spec.n_cols() {
        v.push((Cheat::Cell(Which::Aux, i, c, 1), vec!["deep"]));
    }
    for c in 0..2 {
        v.push((Cheat::Cell(Which::Comp, i, c, 1), vec!["deep"]));
    }
    v.push((Cheat::Leaf(Which::Main, Some(i)), vec!["open-main"]));
    if !spec.aux.is_empty() {
        v.push((Cheat::Leaf(Which::Aux, Some(i)), vec!["open-aux"]));
    }
    v.push((Cheat::Leaf(Which::Comp, Some(i)), vec!["open-comp"]));
    for k in 0..layers {
        let len = big >> k;
        let s = (i + len / 2) % len;
        v.push((Cheat::Leaf(Which::Fri(k), Some(i)), vec!["fri-open"]));
        v.push((Cheat::Leaf(Which::Fri(k), Some(s)), vec!["fri-open-sym"]));
        v.push((Cheat::Cell(Which::Fri(k), i, 0, 2), vec![]));
        v.push((Cheat::Cell(Which::Fri(k), s, 0, 2), vec![]));
        v.push((Cheat::PairValue(k, i, 3, ZETAS[k]), vec![]));
        v.push((Cheat::OpenSym(r, k, 1), vec!["fri-open-sym"]));
        v.push((Cheat::OpenBoth(r, k, 1, ZETAS[k]), vec!["fri-open", "fri-open-sym"]));
    }
    for a in 0..spec.n_cols() + 2 {
        for b in a + 1..spec.n_cols() + 2 {
            v.push((Cheat::OpenPair(r, a, b, 1), vec!["open"]));
        }
    }
    v
}

const ZETAS: [u64; 12] = [0x1234567, 3, 0x77777777777, 1 << 40, 99, 12345, 5, 1 << 33, 777, 0x5555555, 31, 1 << 50];

struct Space {
    n: Vec<usize>,
    blow: Vec<u8>,
    offsets: Vec<u64>,
    grinding: Vec<u8>,
    queries: Queries,
}
#[derive(Clone, Copy, PartialEq)]
enum Queries {
    /// one, at a fixed place, every departure
    Fixed,
    /// one, everywhere, every departure
    Every,
    /// two, at every pair of places; departures local to one of them
    Pairs,
    /// this many, with the pattern of their places chosen from equal, symmetric, consecutive, spread
    Many(usize),
}

fn run<F: IsFFTField>(ch: &mut Ch, sp: &Space, menu: &Menu)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(&sp.n);
    let Some((spec, rows)) = choose::<F>(ch, n, menu) else { return };
    let b = ch.of(&sp.blow);
    let g = ch.of(&sp.grinding);
    let off = ch.of(&sp.offsets);
    if !spec.carried_by(n, b as usize) || !legal_offset::<F>(off, n, b as usize) {
        return;
    }
    let big = n * b as usize;
    let iotas: Vec<usize> = match sp.queries {
        Queries::Fixed => vec![(big * 5 / 8 + 1) % big],
        Queries::Every => vec![ch.pick(big)],
        Queries::Pairs => vec![ch.pick(big), ch.pick(big)],
        Queries::Many(q) => {
            let first = ch.pick(big);
            let step = ch.of(&[0, 1, big / 2, big / 4 + 1, 3]);
            (0..q).map(|k| (first + k * step) % big).collect()
        }
    };
    let mut list = match sp.queries {
        Queries::Fixed | Queries::Every => cheats(&spec, n, big, iotas[0], g),
        _ => vec![],
    };
    for r in 0..iotas.len() {
        list.extend(local(&spec, n, big, &iotas, r));
    }
    examine::<F>(ch, n, spec, rows, b, off, g, iotas, list)
}

/// The honest run, and each departure of the list, with the query indices given.
#[allow(clippy::too_many_arguments)]
fn examine<F: IsFFTField>(ch: &mut Ch, n: usize, spec: Spec<F>, rows: Vec<Vec<E<F>>>, b: u8, off: u64, g: u8, iotas: Vec<usize>, list: Vec<(Cheat, Vec<&'static str>)>)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let q = iotas.len();
    let o = opts(b, q, off, g);
    let spec = Arc::new(spec);
    let layers = (n.trailing_zeros() as usize).max(1);
    let d = draws(&spec, layers);
    // the query indices and folding challenges are fixed; every other coin is the transcript's
    let it = iotas.clone();
    hooks::set_script(Some(Box::new(move |k, _| {
        if k >= d {
            it.get(k - d).map(|i| coin_index(*i as u64))
        } else if k + 1 + layers >= d && k + 1 < d {
            Some(coin_field(ZETAS[k + 1 + layers - d]))
        } else {
            None
        }
    })));
    let honest = make(&spec, &rows, &o, Cheat::None);
    // binding of the model to the code: same bytes as the real prover, and all three agree to accept
    let real = guard(|| prove::<F, FamAir<F>>(&table(&rows), &spec, &o));
    match &real {
        Ok(Ok(p)) => {
            ch.check(p.serialize() == honest.proof.serialize(), "prover-differs-from-protocol", || {
                format!("{} n={n} {o:?} queries {iotas:?}", spec.name())
            });
        }
        _ => ch.fail("honest-prover-fails", format!("{} n={n} {o:?}", spec.name())),
    }
    let ok = guard(|| verify::<F, FamAir<F>>(&honest.proof, &spec, &o));
    ch.check(ok == Ok(true), "honest-proof-rejected", || format!("{ok:?} {} n={n} {o:?} queries {iotas:?}", spec.name()));
    ch.check(judge(&spec, n, &honest.proof, &o).is_empty(), "model-rejects-honest", || spec.name());
    ch.validated(2);
    for (c, why) in list {
        let m = make(&spec, &rows, &o, c);
        let bad = judge_each(&spec, n, &m.proof, &o);
        if bad.is_empty() {
            // the departure did not change anything the verifier may look at
            ch.outcome("vacuous");
            continue;
        }
        for w in &why {
            if !bad.iter().any(|x| x.starts_with(w)) {
                ch.ctx.error(format!("cheat {c:?} fails {bad:?}, expected {w}: {} n={n}", spec.name()));
            }
        }
        ch.validated(1);
        ch.ops(1);
        ch.state(&(spec.name(), n, b, g, off, &iotas, c));
        let checks = judge(&spec, n, &m.proof, &o);
        let only = bad.iter().map(|x| x.split('@').nth(1).unwrap_or("")).collect::<std::collections::BTreeSet<_>>().len() == 1;
        ch.outcome(&format!("caught only by {}{}", checks.join("+"), if q > 1 && only { " of one query" } else { "" }));
        let r = guard(|| verify::<F, FamAir<F>>(&m.proof, &spec, &o));
        let label = format!("{c:?}").split('(').next().unwrap().to_string();
        ch.check(r == Ok(false), &format!("accepted:{label}:{}", checks.join("+")), || {
            format!("cheat {c:?} must fail {bad:?} but verify gave {r:?}: {} n={n} {o:?} queries {iotas:?}", spec.name())
        });
        if n == 4 {
            ch.sample(|| serde_json::json!({"system": spec.name(), "n": n, "cheat": format!("{c:?}"), "fails": bad}));
        }
    }
    hooks::set_script(None);
}

/// Many columns, randomized columns, boundary conditions, rows, frame rows or queries: the departures that concern
/// the first and last of them and those around the powers of two.
fn large(ch: &mut Ch) {
    let t = ch.ctx.thorough();
    let many: &[usize] = if t { &[16, 17, 33, 64, 65, 129, 257] } else { &[17, 65] };
    let (mut cols, mut aux, mut nb, mut n, mut q, mut offsets) = (2, 1, 2, 8, 1, vec![0, 1]);
    let mut b = 4u8;
    // the deep layers of a long trace only
    let mut deep = 0;
    match ch.pick(7) {
        6 => {
            n = 1 << if t { ch.range(9, 11) } else { 10 };
            deep = 7;
            b = 2;
        }
        0 => cols = ch.of(many),
        1 => aux = ch.of(many),
        2 => {
            n = 32;
            cols = 9;
            nb = ch.of(many)
        }
        3 => n = 1 << ch.range(4, if t { 9 } else { 7 }),
        4 => q = ch.of(many),
        _ => offsets = (0..ch.range(2, 6)).collect(),
    }
    let (spec, rows) = big::<G>(n, cols, aux, nb, &offsets);
    if !spec.carried_by(n, b as usize) {
        return;
    }
    let big = n * b as usize;
    let iotas: Vec<usize> = (0..q).map(|k| (k * 5 + 3) % big).collect();
    let marks = [0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256];
    let near = |i: usize, len: usize| i + 2 >= len || marks.contains(&i);
    let (w, main) = (spec.n_cols(), spec.main.len());
    let layer = |c: &Cheat| match c {
        Cheat::Leaf(Which::Fri(k), _) | Cheat::Cell(Which::Fri(k), ..) => *k,
        Cheat::Layer(k, _) | Cheat::LayerOpenSym(k, _) | Cheat::PairValue(k, ..) | Cheat::OpenSym(_, k, _) | Cheat::OpenBoth(_, k, ..) => *k,
        Cheat::Last(_) => usize::MAX,
        _ => 0,
    };
    let keep = |c: &Cheat| layer(c) >= deep && match c {
        Cheat::Ood(k, _) => near(*k, 2 + w * offsets.len()) || (*k >= 2 && (near((k - 2) % w, w) || near((k - 2) % w, main))),
        Cheat::P0OpenTrace(_, c) | Cheat::Cell(Which::Main, _, c, _) | Cheat::Cell(Which::Aux, _, c, _) => near(*c, w) || near(*c, main),
        // values of one query that would cancel: neighbours among those looked at, and each with the last
        Cheat::OpenPair(_, a, b, _) => near(*a, w + 2) && near(*b, w + 2) && (*b == a + 1 || b + 1 == w + 2),
        _ => true,
    };
    let mut list = cheats(&spec, n, big, iotas[0], 1);
    for r in 0..q {
        if near(r, q) {
            list.extend(local(&spec, n, big, &iotas, r));
        }
    }
    list.retain(|c| keep(&c.0));
    // one execution per share of the departures
    let shares = 8;
    let at = ch.pick(shares);
    let list = list.into_iter().skip(at).step_by(shares).collect();
    examine::<G>(ch, n, spec, rows, b, 7, 1, iotas, list)
}

fn main() {
    harness::main("C04", Level::ModelChecking, |ctx| {
        ctx.rule("system x length x options x query indices x one departure from the protocol; non-trivial: the reference verifier finds at least one failed check");
        ctx.assume("the folding challenges are fixed constants, so that a departure can be confined to one check of one query");
        let full = Space { n: ctx.tier(vec![4, 8], vec![2, 4, 8, 16]), blow: ctx.tier(vec![4], vec![2, 4, 8]), offsets: vec![7], grinding: vec![0, 2], queries: Queries::Fixed };
        ctx.explore("every departure", |ch| run::<G>(ch, &full, &menu()));
        ctx.explore("large systems", large);
        let mut small = menu();
        small.kinds = vec![Kind::Fib, Kind::Sq];
        small.max_cols = 1;
        small.bnd = 2;
        small.extra = vec![0];
        let every = Space { n: ctx.tier(vec![2, 8], vec![2, 4, 8, 16]), blow: vec![2, 4], offsets: ctx.tier(vec![7], vec![7, 3, 1 << 40]), grinding: vec![0, 1], queries: Queries::Every };
        ctx.explore("every departure at every query index", |ch| run::<G>(ch, &every, &small));
        if !ctx.thorough() {
            small.aux.truncate(2);
            small.offsets.truncate(2);
            small.kinds.truncate(1);
        }
        small.bnd = ctx.tier(1, 2);
        let pairs = Space { n: ctx.tier(vec![2, 4], vec![2, 4, 8]), blow: vec![2, 4], offsets: vec![7], grinding: vec![0], queries: Queries::Pairs };
        ctx.explore("one query of two", |ch| run::<G>(ch, &pairs, &small));
        let many = Space { n: ctx.tier(vec![4], vec![4, 8]), blow: vec![4], offsets: vec![7], grinding: vec![0], queries: Queries::Many(ctx.tier(3, 5)) };
        ctx.explore("one query of several", |ch| run::<G>(ch, &many, &small));
        let cairo = Space { n: ctx.tier(vec![4], vec![2, 4, 8]), blow: ctx.tier(vec![2], vec![2, 4]), offsets: vec![3], grinding: vec![0], queries: Queries::Every };
        small.bnd = 3;
        ctx.explore("every departure over the Cairo field", |ch| run::<S>(ch, &cairo, &small));
    });
}

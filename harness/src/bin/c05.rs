//! C05: the folding layers are exact, queries open the right points, and the verifier's folding checks
//! decide exactly as the definition does.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_crypto::hooks::{self, Event};
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::fri::{fri_commit_phase, fri_query_phase};
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::verifier::verify;
use proto::*;
use std::sync::Arc;

type P17 = U64PrimeField<17>;
type P97 = U64PrimeField<97>;

fn coins(zetas: Vec<u64>, iotas: Vec<u64>) {
    hooks::set_script(Some(Box::new(move |k, _| {
        if k < zetas.len() {
            Some(coin_field(zetas[k]))
        } else {
            iotas.get(k - zetas.len()).map(|i| coin_index(*i))
        }
    })));
}

/// Commit phase against pointwise folding; query phase against the definition.
fn commit_and_query<F: IsFFTField>(ch: &Ch, p: &[E<F>], zetas: &[u64], off: u64, log: usize, queries: &[Vec<u64>])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let layers = zetas.len();
    let size = 1usize << log;
    let offset = E::<F>::from(off);
    let name = || format!("poly of degree < {} zetas {zetas:?} offset {off} domain 2^{log}", p.len());
    ch.ops(layers as u64);
    ch.validated(1);
    let mut iotas = queries.to_vec();
    if iotas.is_empty() {
        iotas.push(vec![]);
    }
    for qs in &iotas {
        coins(zetas.to_vec(), qs.clone());
        hooks::start_recording();
        let mut tr = DefaultTranscript::new();
        let r = guard(|| fri_commit_phase(layers, Polynomial::new(p), &mut tr, &offset, size));
        let (last, lay) = match r {
            Ok(x) => x,
            Err(e) => {
                hooks::stop_recording();
                return ch.fail("commit-panics", format!("{e}: {}", name()));
            }
        };
        let ev = hooks::stop_recording();
        // pointwise: f'(x^2) = (f(x)+f(-x))/2 + zeta (f(x)-f(-x))/(2x)
        let mut dom = powers(&root_of::<F>(size), size, &offset);
        let mut cur: Vec<E<F>> = dom.iter().map(|x| horner::<F>(p, x)).collect();
        let half = E::<F>::from(2u64).inv();
        let mut roots = vec![];
        if !ch.check(lay.len() == layers, "number-of-layers", name) {
            return;
        }
        for (k, l) in lay.iter().enumerate() {
            if !ch.check(l.evaluation == cur && l.domain_size == cur.len(), &format!("layer-evaluations-{}", k.min(1)), || format!("layer {k}: {}", name())) {
                return;
            }
            let t = Tree::new::<F>(&cur.iter().map(|e| vec![e.clone()]).collect::<Vec<_>>());
            ch.check(l.merkle_tree.root == t.root(), "layer-root", || format!("layer {k}: {}", name()));
            roots.push(t);
            let h = cur.len() / 2;
            let z = to_felt::<F>(coin_field(zetas[k]));
            cur = (0..h).map(|i| (&cur[i] + &cur[i + h]) * &half + &z * (&cur[i] - &cur[i + h]) * (&dom[i] + &dom[i]).inv()).collect();
            dom = (0..h).map(|i| &dom[i] * &dom[i]).collect();
        }
        // a polynomial of the declared degree ends in a constant, the published value
        if p.len() <= 1 << layers {
            ch.check(cur.iter().all(|v| *v == last), "last-value", || format!("last layer {:?} published {last:?}: {}", cur.first(), name()));
        }
        // transcript: root, challenge, root, challenge, ..., last value
        let mut want = vec![];
        for (k, t) in roots.iter().enumerate() {
            want.push(Event::Append(t.root().to_vec()));
            want.push(Event::Challenge(coin_field(zetas[k])));
        }
        want.push(Event::Append(last.to_bytes_be()));
        ch.check(ev == want, "commit-transcript", name);
        if qs.is_empty() {
            continue;
        }
        // query phase
        let blow = (size / 2).min(64) as u8;
        let spec: Arc<Spec<F>> = Arc::new(one_col(1));
        let air = FamAir::<F>::new(size / blow as usize, &spec, &opts(blow, qs.len(), off, 0));
        match guard(|| fri_query_phase(&air, size, &lay, &mut tr)) {
            Err(e) => ch.fail("query-panics", format!("{e}: {} queries {qs:?}", name())),
            Ok((list, ix)) => {
                let want: Vec<usize> = qs.iter().map(|q| (*q % size as u64) as usize).collect();
                if !ch.check(ix == want && list.len() == want.len(), "query-indices", || format!("{ix:?} for {qs:?}: {}", name())) {
                    continue;
                }
                for (d, i) in list.iter().zip(&want) {
                    let ok = d.layers_evaluations.len() == layers
                        && d.layers_evaluations_sym.len() == layers
                        && d.layers_auth_paths.len() == layers
                        && d.layers_auth_paths_sym.len() == layers;
                    if !ch.check(ok, "query-lists", name) {
                        continue;
                    }
                    for k in 0..layers {
                        let len = size >> k;
                        let (a, s) = (i % len, (i + len / 2) % len);
                        let e = &lay[k].evaluation;
                        let dep = log - k;
                        let ok = d.layers_evaluations[k] == e[a]
                            && d.layers_evaluations_sym[k] == e[s]
                            && path_ok::<F>(&roots[k].root(), a, &[e[a].clone()], &d.layers_auth_paths[k], dep)
                            && path_ok::<F>(&roots[k].root(), s, &[e[s].clone()], &d.layers_auth_paths_sym[k], dep);
                        ch.check(ok, "query-opens", || format!("layer {k} index {i}: {}", name()));
                        ch.ops(1);
                    }
                }
            }
        }
    }
    hooks::set_script(None);
}

fn one_col<F: IsFFTField>(degree: usize) -> Spec<F> {
    let cell = |coef, r: usize| Term { coef, cells: vec![(r, 0); if r == 0 { degree } else { 1 }], rap: None };
    Spec {
        main: vec![Kind::Free],
        aux: vec![],
        offsets: vec![0, 1],
        cons: vec![Con { terms: vec![cell(1, 1), cell(-2, 0)], degree, exempt: 1 }],
        bnd: vec![],
        bound_mult: 1,
        n_rap: 0,
        aux_fault: None,
    }
}

/// The verifier on provers that depart from the folding rules, over every value of the coins concerned.
fn verdicts<F: IsFFTField>(ch: &mut Ch, n: usize, blow: u8, zset: &[u64])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let big = n * blow as usize;
    let layers = (n.trailing_zeros() as usize).max(1);
    let spec: Arc<Spec<F>> = Arc::new(one_col(1));
    let mut rows = vec![vec![E::<F>::from(3u64)]];
    for i in 1..n {
        let v = &rows[i - 1][0] + &rows[i - 1][0];
        rows.push(vec![v]);
    }
    let off = 5;
    let o = opts(blow, 1, off, 0);
    let mut cheats = vec![Cheat::None, Cheat::Last(1), Cheat::Bump(0, 1), Cheat::Bump(big / 2 + 1, 3)];
    for k in 0..layers {
        if k > 0 {
            cheats.push(Cheat::Layer(k, 1));
        }
        cheats.push(Cheat::LayerOpenSym(k, 1));
        cheats.push(Cheat::Leaf(Which::Fri(k), None));
    }
    let cheat = ch.of(&cheats);
    let zetas: Vec<u64> = (0..layers).map(|_| ch.of(zset)).collect();
    // coins before the folding challenges: coefficients (2), z, gammas (2 + 2)
    let first = 2 * spec.cons.len() + 1 + 2 + 2;
    for iota in 0..big {
        let z2 = zetas.clone();
        hooks::set_script(Some(Box::new(move |k, _| {
            if k < 2 {
                Some(coin_field(3 + k as u64))
            } else if k < first {
                // keep the out-of-domain point away from the domains and from their square roots
                None
            } else if k < first + z2.len() {
                Some(coin_field(z2[k - first]))
            } else if k == first + z2.len() + 1 {
                Some(coin_index(iota as u64))
            } else {
                None
            }
        })));
        let m = make(&spec, &rows, &o, cheat);
        let want = judge(&spec, n, &m.proof, &o).is_empty();
        let got = guard(|| verify::<F, FamAir<F>>(&m.proof, &spec, &o));
        ch.ops(1);
        ch.validated(1);
        ch.outcome(if want { "fold consistent" } else { "fold inconsistent" });
        ch.state(&(n, blow, cheat, &zetas, iota));
        let kind = format!("{cheat:?}").split('(').next().unwrap().to_string();
        ch.check(got == Ok(want), &format!("verdict:{kind}"), || {
            format!("verify {got:?}, definition {want} for {cheat:?} n={n} blowup {blow} zetas {zetas:?} iota {iota}")
        });
    }
    hooks::set_script(None);
}

fn main() {
    harness::main("C05", Level::ModelChecking, |ctx| {
        ctx.rule("polynomial x folding challenges x domain x query indices; non-trivial: distinct tuple");
        ctx.explore("all short polynomials over F17, all challenges, one fold", |ch| {
            let p: Vec<_> = (0..ch.ctx.tier(4, 5)).map(|_| E::<P17>::from(ch.pick(17) as u64)).collect();
            let off = ch.of(&[3u64, 5]);
            for z in 0..16 {
                commit_and_query::<P17>(ch, &p, &[z], off, 3, &[]);
                ch.state(&(&p, off, z));
            }
        });
        ctx.explore("all short polynomials over F17, all challenge pairs, two folds", |ch| {
            let p: Vec<_> = (0..ch.ctx.tier(3, 4)).map(|_| E::<P17>::from(ch.pick(17) as u64)).collect();
            let z = ch.pick(16) as u64;
            for z2 in 0..16 {
                commit_and_query::<P17>(ch, &p, &[z, z2], 3, 3, &[]);
                ch.state(&(&p, z, z2));
            }
        });
        ctx.explore("sparse polynomials over F97, every number of layers", |ch| {
            let deg = 32;
            let (a, b) = (ch.pick(deg), ch.pick(deg));
            let c = ch.of(&[1u64, 96, 5]);
            let mut p = vec![E::<P97>::zero(); deg];
            p[a] = &p[a] + &E::<P97>::from(c);
            p[b] = &p[b] + &E::<P97>::from(7u64);
            let layers = ch.range(1, 5);
            let z: Vec<u64> = (0..layers).map(|k| if k < 2 { ch.of(&[0u64, 1, 2, 63]) } else { 9 + k as u64 }).collect();
            commit_and_query::<P97>(ch, &p, &z, 5, 5, &[]);
        });
        ctx.explore("every query index and pair of indices", |ch| {
            let log = ch.range(1, 5);
            let layers = ch.range(1, log);
            let deg = ch.range(1, 1 << layers);
            let p: Vec<_> = (0..deg).map(|i| E::<P97>::from(3 * i as u64 + 1)).collect();
            let z: Vec<u64> = (0..layers).map(|k| 3 + k as u64).collect();
            let n = 1u64 << log;
            let mut qs: Vec<Vec<u64>> = (0..n).map(|i| vec![i]).collect();
            qs.extend([vec![n], vec![n + 1], vec![u64::MAX], vec![u64::MAX - n / 2], vec![1 << 63]]);
            for i in 0..n {
                qs.push(vec![i, (i + n / 2) % n, i]);
            }
            commit_and_query::<P97>(ch, &p, &z, 5, log, &qs);
        });
        ctx.explore("large fields", |ch| {
            let layers = ch.range(1, 6);
            let full = ch.flag();
            let deg = if full { 1 << layers } else { (1 << layers) - 1 };
            let z: Vec<u64> = (0..layers).map(|k| u64::MAX - 77 * k as u64).collect();
            let n = 4u64 << layers;
            let qs = vec![vec![0], vec![n - 1, n / 2], vec![n / 2 + 1]];
            if ch.flag() {
                let p: Vec<_> = (0..deg).map(|i| E::<S>::from(3 * i as u64 + 1).pow(20u64)).collect();
                commit_and_query::<S>(ch, &p, &z, 3, layers + 2, &qs);
            } else {
                let z: Vec<u64> = (0..layers).map(|k| (1 << 62) + 77 * k as u64).collect();
                let p: Vec<_> = (0..deg).map(|i| E::<G>::from(3 * i as u64 + 1).pow(20u64)).collect();
                commit_and_query::<G>(ch, &p, &z, 7, layers + 2, &qs);
            }
        });
        ctx.explore("many layers and queries", |ch| {
            let t = ch.ctx.thorough();
            let layers = ch.range(7, if t { 12 } else { 10 });
            let extra = ch.range(1, 2);
            let deg = ch.of(&[1usize << layers, (1 << layers) - 1, (1 << (layers - 1)) + 1]);
            let n = 1u64 << (layers + extra);
            let many: &[u64] = if t { &[16, 17, 64, 65, 128, 129, 255, 256, 257, 1000] } else { &[17, 65, 257] };
            let q = ch.of(many);
            let z: Vec<u64> = (0..layers).map(|k| (1 << 62) + 77 * k as u64).collect();
            let p: Vec<_> = (0..deg).map(|i| E::<G>::from(3 * i as u64 + 1).pow(20u64)).collect();
            let qs = vec![(0..q).map(|k| k * (n / 4 + 3) + k / 7).collect::<Vec<u64>>()];
            ch.state(&(layers, extra, deg, q));
            commit_and_query::<G>(ch, &p, &z, 7, layers + extra, &qs);
        });
        let zs: Vec<u64> = (0..64).collect();
        ctx.explore("verifier's folding verdicts, 2 rows, all challenges", |ch| verdicts::<G>(ch, 2, 4, &zs));
        let zs4: Vec<u64> = ctx.tier((0..64).step_by(7).collect(), (0..64).collect());
        ctx.explore("verifier's folding verdicts, 4 rows", |ch| verdicts::<G>(ch, 4, 4, &zs4));
        ctx.explore("verifier's folding verdicts, 8 rows", |ch| verdicts::<G>(ch, 8, 2, &ch.ctx.tier(vec![0, 5, 63], vec![0, 1, 2, 5, 9, 31, 63])));
    });
}

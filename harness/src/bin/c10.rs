//! C10: proofs and their parts survive serialization unchanged.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/mutate.rs"]
mod mutate;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
use lambdaworks_stark::starks::proof::stark::{DeepPolynomialOpenings, StarkProof};
use lambdaworks_stark::starks::{frame::Frame, fri::fri_decommit::FriDecommitment};
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use mutate::*;
use std::sync::Arc;

fn round<T: Serializable + Deserializable>(ch: &Ch, kind: &str, x: &T, img: &dyn Fn(&T) -> String, what: &dyn Fn() -> String) -> Option<T> {
    ch.ops(1);
    ch.validated(1);
    let bytes = match guard(|| x.serialize()) {
        Ok(b) => b,
        Err(e) => {
            ch.fail(format!("{kind}:serialize-panics"), format!("{e}: {}", what()));
            return None;
        }
    };
    let y = match guard(|| T::deserialize(&bytes)) {
        Ok(Ok(y)) => y,
        Ok(Err(e)) => {
            ch.fail(format!("{kind}:not-read-back"), format!("{e:?}: {}", what()));
            return None;
        }
        Err(e) => {
            ch.fail(format!("{kind}:deserialize-panics"), format!("{e}: {}", what()));
            return None;
        }
    };
    let (a, b) = (img(x), img(&y));
    ch.state(&(kind, &a));
    if !ch.check(a == b, &format!("{kind}:changed"), || format!("{} became {}: {}", &a[..a.len().min(600)], &b[..b.len().min(600)], what())) {
        return None;
    }
    let again = guard(|| y.serialize());
    ch.check(again.as_deref() == Ok(&bytes[..]), &format!("{kind}:bytes-changed"), what);
    ch.outcome(kind);
    Some(y)
}

fn whole<F: IsFFTField>(ch: &Ch, p: &StarkProof<F>, what: &dyn Fn() -> String) -> Option<StarkProof<F>>
where
    FieldElement<F>: ByteConversion,
{
    round(ch, "proof", p, &|p| image(p), what)
}

fn family<F: IsFFTField>(ch: &mut Ch, cols: usize, lens: &[usize], qs: &[usize], damaged: bool)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    use Kind::*;
    let m = Menu {
        offsets: vec![vec![0, 1], vec![0, 1, 2], vec![0], vec![0, 3]],
        kinds: vec![Fib, Sq],
        max_cols: cols,
        aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0), Aux::Scaled(0)]],
        extra: vec![0],
        bnd: 2,
    };
    let n = ch.of(lens);
    let Some((spec, rows)) = choose::<F>(ch, n, &m) else { return };
    let o = opts(ch.of(&[2, 4, 8]), ch.of(qs), 7, ch.of(&[0, 4]));
    if !spec.carried_by(n, o.blowup_factor as usize) {
        return;
    }
    let spec = Arc::new(spec);
    let Ok(Ok(p)) = guard(|| prove::<F, FamAir<F>>(&table(&rows), &spec, &o)) else {
        return ch.outcome("no proof to start from");
    };
    let name = format!("{} n={n} {o:?}", spec.name());
    let verdict = |p: &StarkProof<F>| guard(|| verify::<F, FamAir<F>>(p, &spec, &o));
    let before = verdict(&p);
    if let Some(q) = whole(ch, &p, &|| name.clone()) {
        let after = verdict(&q);
        ch.check(before == after, "verdict-changed", || format!("{before:?} before, {after:?} after reading back: {name}"));
    }
    for d in &p.query_list {
        round(ch, "decommitment", d, &|d| format!("{d:?}"), &|| name.clone());
    }
    for d in &p.deep_poly_openings {
        round(ch, "openings", d, &|d| format!("{d:?}"), &|| name.clone());
    }
    round(ch, "frame", &p.trace_ood_frame_evaluations, &|d| format!("{d:?}"), &|| name.clone());
    if !damaged {
        return;
    }
    // any other proof object: every shape, every element at the ends of its range, every digest
    for s in shapes(&p, 1 << 10) {
        let mut x = copy(&p);
        reshape(&mut x, &s);
        if let Some(y) = whole(ch, &x, &|| format!("{s:?} of {name}")) {
            if n <= 2 {
                let (a, b) = (verdict(&x), verdict(&y));
                ch.check(a == b, "verdict-changed", || format!("{a:?} before, {b:?} after reading back: {s:?} of {name}"));
            }
        }
    }
    let ends: Vec<E<F>> = vec![E::<F>::zero(), E::<F>::one(), -E::<F>::one(), E::<F>::from(255u64), E::<F>::from(256u64), E::<F>::from(u64::MAX / 3), -E::<F>::from(1u64 << 31)];
    for at in places(&p) {
        for v in &ends {
            let mut x = copy(&p);
            *cell(&mut x, at) = v.clone();
            whole(ch, &x, &|| format!("{at:?} = {v:?} in {name}"));
        }
    }
    let nd = digests(&mut copy(&p)).len();
    for i in 0..nd {
        for k in [0usize, 1, 15, 30, 31] {
            let mut x = copy(&p);
            digests(&mut x).swap_remove(i).1[k] ^= 0x81;
            whole(ch, &x, &|| format!("digest {i} byte {k} in {name}"));
        }
    }
    for v in (0..64).map(|k| 1u64 << k).chain([0, u64::MAX, 0x0102030405060708]) {
        let mut x = copy(&p);
        x.nonce = v;
        whole(ch, &x, &|| format!("nonce {v:#x} in {name}"));
        let mut x = copy(&p);
        x.trace_length = v as usize;
        whole(ch, &x, &|| format!("trace length {v:#x} in {name}"));
    }
}

fn dig(i: usize) -> [u8; 32] {
    let mut d = [0u8; 32];
    d[0] = i as u8;
    d[1] = (i >> 8) as u8;
    d[31] = 255 - i as u8;
    d
}
fn path(tag: usize, n: usize) -> Proof<[u8; 32]> {
    Proof { merkle_path: (0..n).map(|i| dig(tag * 16 + i)).collect() }
}
fn elems<F: IsFFTField>(tag: u64, n: usize) -> Vec<E<F>> {
    (0..n as u64).map(|i| if i % 3 == 2 { -E::<F>::from(tag + i) } else { E::<F>::from(tag * 1000 + i) }).collect()
}

fn parts<F: IsFFTField>(ch: &mut Ch, top: usize)
where
    FieldElement<F>: ByteConversion,
{
    match ch.pick(3) {
        0 => {
            let (a, b, c, d, l) = (ch.range(0, top), ch.range(0, top), ch.range(0, top), ch.range(0, top), ch.range(0, 2));
            let x = FriDecommitment::<F> {
                layers_auth_paths_sym: (0..a).map(|i| path(i, l + i)).collect(),
                layers_evaluations_sym: elems(1, b),
                layers_auth_paths: (0..c).map(|i| path(i + 50, (l + 1) * i)).collect(),
                layers_evaluations: elems(2, d),
            };
            round(ch, "decommitment", &x, &|d| format!("{d:?}"), &|| format!("{a} {b} {c} {d} lists, path length {l}"));
        }
        1 => {
            let (a, b, c, l) = (ch.range(0, top), ch.range(0, top), ch.range(0, top), ch.range(0, 3));
            let x = DeepPolynomialOpenings::<F> {
                lde_composition_poly_proof: path(9, a),
                lde_composition_poly_even_evaluation: elems(3, 3)[l % 3].clone(),
                lde_composition_poly_odd_evaluation: -elems::<F>(4, 1)[0].clone(),
                lde_trace_merkle_proofs: (0..b).map(|i| path(i, l * i)).collect(),
                lde_trace_evaluations: elems(5, c),
            };
            round(ch, "openings", &x, &|d| format!("{d:?}"), &|| format!("{a} {b} {c} path length {l}"));
        }
        _ => {
            let n = ch.range(0, 2 * top);
            let w = ch.of(&[0usize, 1, 2, 3, 255, 256, usize::MAX, 1 << 63]);
            let x = Frame::<F>::new(elems(6, n), w);
            round(ch, "frame", &x, &|d| format!("{d:?}"), &|| format!("{n} elements, width {w}"));
        }
    }
}

/// Lists long enough for their length to need a second byte.
fn long<F: IsFFTField>(ch: &mut Ch)
where
    FieldElement<F>: ByteConversion,
{
    let which = ch.pick(9);
    let n = ch.of(&[255usize, 256, 257, 4097, 65536]);
    let k = |i: usize| if which == i { n } else { 2 };
    let dec = |a, b, c, d, l| FriDecommitment::<F> {
        layers_auth_paths_sym: (0..a).map(|i| path(i, if i == 0 { l } else { 1 })).collect(),
        layers_evaluations_sym: elems(1, b),
        layers_auth_paths: (0..c).map(|i| path(i, 1)).collect(),
        layers_evaluations: elems(2, d),
    };
    let open = |a, b, c| DeepPolynomialOpenings::<F> {
        lde_composition_poly_proof: path(9, a),
        lde_composition_poly_even_evaluation: E::<F>::from(7u64),
        lde_composition_poly_odd_evaluation: -E::<F>::from(8u64),
        lde_trace_merkle_proofs: (0..b).map(|i| path(i, 2)).collect(),
        lde_trace_evaluations: elems(5, c),
    };
    let p = StarkProof::<F> {
        trace_length: 8,
        lde_trace_merkle_roots: (0..k(0)).map(dig).collect(),
        trace_ood_frame_evaluations: Frame::new(elems(1, k(1)), 1),
        composition_poly_root: dig(5),
        composition_poly_even_ood_evaluation: E::<F>::from(5u64),
        composition_poly_odd_ood_evaluation: -E::<F>::from(6u64),
        fri_layers_merkle_roots: (0..k(2)).map(dig).collect(),
        fri_last_value: E::<F>::from(11u64),
        query_list: (0..k(3)).map(|i| if i == 1 { dec(k(4), k(5), k(4), k(5), k(6)) } else { dec(1, 1, 1, 1, 1) }).collect(),
        deep_poly_openings: (0..k(7)).map(|i| if i == 1 { open(k(8), k(8), k(8)) } else { open(1, 1, 1) }).collect(),
        nonce: 1 << 35,
    };
    whole(ch, &p, &|| format!("list kind {which} of length {n}"));
}

fn main() {
    harness::main("C10", Level::ModelChecking, |ctx| {
        ctx.rule("real proofs over a family of systems and options, and every reshaping / element / digest / nonce change of them; decommitments, openings and frames over all list lengths; each is encoded, decoded, compared field by field, re-encoded and re-verified; non-trivial: distinct object");
        ctx.explore("proofs, Goldilocks", |ch| family::<G>(ch, 2, &ch.ctx.tier(vec![2, 4, 8], vec![1, 2, 4, 8, 16, 32]), &[1, 2, 5], false));
        ctx.explore("proofs, Stark252", |ch| family::<S>(ch, 1, &ch.ctx.tier(vec![2, 8], vec![1, 2, 4, 8, 16]), &[1, 3], false));
        ctx.explore("all other proof objects, Goldilocks", |ch| family::<G>(ch, 1, &ch.ctx.tier(vec![2], vec![2, 4]), &[2], true));
        ctx.explore("all other proof objects, Stark252", |ch| family::<S>(ch, 1, &[2], &ch.ctx.tier(vec![1], vec![1, 2]), true));
        ctx.explore("parts, Goldilocks", |ch| parts::<G>(ch, ch.ctx.tier(4, 7)));
        ctx.explore("parts, Stark252", |ch| parts::<S>(ch, ch.ctx.tier(3, 6)));
        ctx.explore("long lists", |ch| if ch.flag() { long::<S>(ch) } else { long::<G>(ch) });
    });
}

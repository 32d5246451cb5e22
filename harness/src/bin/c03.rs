//! C03: every component of an accepted proof is binding.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/mutate.rs"]
mod mutate;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::proof::{options::ProofOptions, stark::StarkProof};
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use mutate::*;
use proto::*;
use std::sync::Arc;

fn menu(cols: usize) -> Menu {
    use Kind::*;
    Menu {
        offsets: vec![vec![0, 1], vec![0, 1, 2], vec![0, 2], vec![1, 0]],
        kinds: vec![Fib, Sq, SquareOf(0)],
        max_cols: cols,
        aux: vec![vec![], vec![Aux::Scaled(0)], vec![Aux::Perm(0, 0)]],
        extra: vec![0],
        bnd: 4,
    }
}

struct Base<F: IsFFTField>
where
    FieldElement<F>: ByteConversion,
{
    spec: Arc<Spec<F>>,
    n: usize,
    o: ProofOptions,
    proof: StarkProof<F>,
}

fn base<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize], qs: &[usize], blow: &[u8]) -> Option<Base<F>>
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let n = ch.of(lens);
    let (spec, rows) = choose::<F>(ch, n, m)?;
    let q = ch.of(qs);
    let b = ch.of(blow);
    let g = ch.of(&[0, 3]);
    proven::<F>(ch, spec, rows, n, opts(b, q, 7, g))
}
fn proven<F: IsFFTField>(ch: &mut Ch, spec: Spec<F>, rows: Vec<Vec<E<F>>>, n: usize, o: ProofOptions) -> Option<Base<F>>
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    if !spec.carried_by(n, o.blowup_factor as usize) {
        return None;
    }
    let spec = Arc::new(spec);
    let Ok(Ok(proof)) = guard(|| prove::<F, FamAir<F>>(&table(&rows), &spec, &o)) else {
        ch.outcome("no proof to start from");
        return None;
    };
    if guard(|| verify::<F, FamAir<F>>(&proof, &spec, &o)) != Ok(true) {
        ch.outcome("honest proof not accepted");
        return None;
    }
    if !judge(&spec, n, &proof, &o).is_empty() {
        ch.outcome("proof accepted although the reference verifier rejects it");
    }
    ch.validated(1);
    Some(Base { spec, n, o, proof })
}

fn try_one<F: IsFFTField>(ch: &mut Ch, b: &Base<F>, p: &StarkProof<F>, key: &str, what: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    ch.ops(1);
    ch.state(&(b.spec.name(), b.n, b.o.fri_number_of_queries, b.o.grinding_factor, what));
    let r = guard(|| verify::<F, FamAir<F>>(p, &b.spec, &b.o));
    let descr = || format!("{what}: {} n={} queries {} grinding {}", b.spec.name(), b.n, b.o.fri_number_of_queries, b.o.grinding_factor);
    match r {
        Ok(false) => ch.outcome("rejected"),
        Ok(true) => {
            // only another nonce may, by coincidence, lead to the very same queries
            if key == "nonce" && judge(&b.spec, b.n, p, &b.o).is_empty() {
                ch.outcome("another nonce with the same query indices");
            } else {
                ch.fail(format!("accepted:{key}"), descr());
            }
        }
        Err(e) => ch.fail(format!("panic:{key}"), format!("{e}: {}", descr())),
    }
}

fn values<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize], qs: &[usize], blow: &[u8])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some(mut b) = base::<F>(ch, m, lens, qs, blow) else { return };
    let all = places(&b.proof);
    let vals: Vec<E<F>> = all.iter().map(|a| cell(&mut b.proof, *a).clone()).collect();
    let one = E::<F>::one();
    for (i, at) in all.iter().enumerate() {
        let x = &vals[i];
        let next = &vals[(i + 1) % vals.len()];
        let key = format!("{at:?}").split('(').next().unwrap().to_string();
        for (k, y) in [x + &one, x - &one, -x, E::<F>::zero(), x + x, next.clone()].into_iter().enumerate() {
            if y == *x {
                continue;
            }
            let mut p = copy(&b.proof);
            *cell(&mut p, *at) = y;
            try_one(ch, &b, &p, &key, &format!("{at:?} change {k}"));
        }
    }
    ch.sample(|| serde_json::json!({"system": b.spec.name(), "n": b.n, "elements": all.len()}));
}

fn pairs<F: IsFFTField>(ch: &mut Ch, m: &Menu)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some(mut b) = base::<F>(ch, m, &[4], &[1], &[2, 4]) else { return };
    let all = places(&b.proof);
    let i = ch.pick(all.len());
    let one = E::<F>::one();
    for j in i + 1..all.len() {
        let (x, y) = (cell(&mut b.proof, all[i]).clone(), cell(&mut b.proof, all[j]).clone());
        for (k, (dx, dy)) in [(&x + &one, &y + &one), (&x + &one, &y - &one), (y.clone(), x.clone())].into_iter().enumerate() {
            if dx == x && dy == y {
                continue;
            }
            let mut p = copy(&b.proof);
            *cell(&mut p, all[i]) = dx;
            *cell(&mut p, all[j]) = dy;
            try_one(ch, &b, &p, "two-elements", &format!("{:?} and {:?} change {k}", all[i], all[j]));
        }
    }
}

fn digests_and_nonce<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize], qs: &[usize], bytes: &[usize])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some(mut b) = base::<F>(ch, m, lens, qs, &[2, 4]) else { return };
    let names: Vec<(String, [u8; 32])> = digests(&mut b.proof).into_iter().map(|(s, d)| (s, *d)).collect();
    for i in 0..names.len() {
        let (name, old) = &names[i];
        let mut news: Vec<[u8; 32]> = bytes
            .iter()
            .map(|k| {
                let mut d = *old;
                d[*k] ^= if k % 2 == 0 { 1 } else { 0x80 };
                d
            })
            .collect();
        news.push([0; 32]);
        news.push(names[(i + 1) % names.len()].1);
        for (k, new) in news.iter().enumerate() {
            if new == old {
                continue;
            }
            let mut p = copy(&b.proof);
            *digests(&mut p).swap_remove(i).1 = *new;
            let key = name.split('.').next().unwrap();
            try_one(ch, &b, &p, key, &format!("digest {name} change {k}"));
        }
    }
    for k in 0..64 {
        let mut p = copy(&b.proof);
        p.nonce ^= 1 << k;
        try_one(ch, &b, &p, "nonce", &format!("nonce bit {k}"));
    }
    for k in 1..=8u64 {
        let mut p = copy(&b.proof);
        p.nonce = p.nonce.wrapping_add(k);
        try_one(ch, &b, &p, "nonce", &format!("nonce plus {k}"));
        let mut p = copy(&b.proof);
        p.nonce = p.nonce.wrapping_sub(k);
        try_one(ch, &b, &p, "nonce", &format!("nonce minus {k}"));
    }
}

fn entries<F: IsFFTField>(ch: &mut Ch, m: &Menu, lens: &[usize])
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let Some(mut b) = base::<F>(ch, m, lens, &[1, 3], &[2, 4]) else { return };
    let im = image(&b.proof);
    for l in lists(&b.proof) {
        let n = len(&mut b.proof, l);
        let lname = format!("{l:?}").split('(').next().unwrap().to_string();
        for i in 0..n {
            for s in [Shape::Drop(l, i), Shape::Dup(l, i)] {
                let mut p = copy(&b.proof);
                reshape(&mut p, &s);
                let op = if matches!(s, Shape::Drop(..)) { "drop" } else { "duplicate" };
                try_one(ch, &b, &p, &format!("{op}:{lname}"), &format!("{s:?}"));
            }
            for j in i + 1..n {
                let mut p = copy(&b.proof);
                swap(&mut p, l, i, j);
                if image(&p) != im {
                    try_one(ch, &b, &p, &format!("swap:{lname}"), &format!("swap {l:?} {i} {j}"));
                }
            }
        }
    }
    let (n, o) = (b.n, b.proof.nonce);
    for t in (0..=2 * n + 1).chain([4 * n, 8 * n]) {
        let mut p = copy(&b.proof);
        p.trace_length = t;
        if t != n {
            try_one(ch, &b, &p, "trace_length", &format!("trace length {t}"));
        }
    }
    let _ = o;
}

/// Proofs with many columns, frame rows, queries or layers: every element and digest changed once.
fn large(ch: &mut Ch) {
    let t = ch.ctx.thorough();
    let many: &[usize] = if t { &[16, 17, 32, 33, 64, 65, 128, 129, 256, 257] } else { &[17, 65, 129] };
    let (mut cols, mut aux, mut n, mut q, mut offsets) = (2, 1, 8, 1, vec![0, 1]);
    match ch.pick(5) {
        0 => cols = ch.of(many),
        1 => aux = ch.of(many),
        2 => n = 1 << ch.range(4, if t { 12 } else { 10 }),
        3 => q = ch.of(many),
        _ => offsets = (0..ch.range(2, 6)).collect(),
    }
    let (spec, rows) = big::<G>(n, cols, aux, 2, &offsets);
    let Some(mut b) = proven::<G>(ch, spec, rows, n, opts(4, q, 7, 3)) else { return };
    let shares = 16;
    let share = ch.pick(shares);
    let one = E::<G>::one();
    let all = places(&b.proof);
    for at in all.iter().skip(share).step_by(shares) {
        let key = format!("{at:?}").split('(').next().unwrap().to_string();
        let mut p = copy(&b.proof);
        let c = cell(&mut p, *at);
        *c = *c + one;
        try_one(ch, &b, &p, &key, &format!("{at:?} plus one"));
    }
    let names: Vec<String> = digests(&mut b.proof).into_iter().map(|(s, _)| s).collect();
    for i in (share..names.len()).step_by(shares) {
        let mut p = copy(&b.proof);
        digests(&mut p).swap_remove(i).1[9] ^= 16;
        try_one(ch, &b, &p, names[i].split('.').next().unwrap(), &format!("digest {}", names[i]));
    }
}

fn main() {
    harness::main("C03", Level::FaultEnumeration, |ctx| {
        ctx.rule("an accepted proof x one changed field element, digest, nonce, length or list entry (or two changed elements); non-trivial: the changed proof differs from the accepted one");
        let lens = ctx.tier(vec![2, 8], vec![2, 4, 8, 16]);
        let m = menu(ctx.tier(1, 2));
        let blow: Vec<u8> = ctx.tier(vec![2, 4], vec![2, 4, 8]);
        ctx.explore("field elements", |ch| values::<G>(ch, &menu(2), &lens, &[1, 2], &blow));
        ctx.explore("field elements, Stark252", |ch| values::<S>(ch, &menu(1), &[4], &[1, 2], &blow));
        ctx.explore("field elements, many queries", |ch| {
            let mut m = menu(1);
            m.bnd = 2;
            values::<G>(ch, &m, &ctx.tier(vec![4], vec![4, 16]), &[5, 16], &[2])
        });
        let bytes: Vec<usize> = ctx.tier(vec![0, 7, 31], (0..32).collect());
        ctx.explore("digests and nonce", |ch| digests_and_nonce::<G>(ch, &m, &ctx.tier(vec![4], vec![2, 4, 8, 16]), &[1, 2], &bytes));
        let every: Vec<usize> = (0..32).collect();
        ctx.explore("every digest byte", |ch| {
            let mut m = menu(1);
            m.kinds.truncate(1);
            m.bnd = 2;
            if ch.flag() {
                digests_and_nonce::<S>(ch, &m, &[4], &[1], &every)
            } else {
                digests_and_nonce::<G>(ch, &m, &[2, 8], &[3], &every)
            }
        });
        ctx.explore("large proofs", large);
        ctx.explore("list entries and lengths", |ch| entries::<G>(ch, &m, &lens));
        ctx.explore("two field elements", |ch| {
            let mut m = menu(1);
            if !ctx.thorough() {
                m.kinds.truncate(1);
                m.bnd = 2;
            }
            pairs::<G>(ch, &m)
        });
    });
}

//! C20: verifier coins are sampled in range, unbiased in form and off the domains.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_crypto::hooks;
use lambdaworks_math::field::fields::fft_friendly::{stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::{ByteConversion, Serializable};
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize};
use lambdaworks_stark::starks::verifier::verify;
use proto::*;
use std::sync::Arc;

type P5 = U64PrimeField<5>;
type P17 = U64PrimeField<17>;
type P97 = U64PrimeField<97>;
type P193 = U64PrimeField<193>;
type P257 = U64PrimeField<257>;
type P7681 = U64PrimeField<7681>;
type P65537 = U64PrimeField<65537>;

/// Answers the given outputs in order, then asks for more: a panic.
struct Fixed {
    out: Vec<[u8; 32]>,
    drawn: usize,
    appended: usize,
}
impl Fixed {
    fn new(out: Vec<[u8; 32]>) -> Self {
        Fixed { out, drawn: 0, appended: 0 }
    }
}
impl Transcript for Fixed {
    fn append(&mut self, _: &[u8]) {
        self.appended += 1;
    }
    fn challenge(&mut self) -> [u8; 32] {
        self.drawn += 1;
        self.out[self.drawn - 1]
    }
}

/// The value of the masked output as four big-endian words.
fn masked<F: IsFFTField>(b: &[u8; 32]) -> [u64; 4] {
    let keep = F::field_bit_size() - 1;
    let mut w = [0u64; 4];
    for i in 0..keep {
        // bit i, counted from the least significant end
        if b[31 - i / 8] >> (i % 8) & 1 == 1 {
            w[3 - i / 64] |= 1 << (i % 64);
        }
    }
    w
}
trait Words: IsFFTField {
    /// canonical integer behind an element, as stored
    fn words(x: &E<Self>) -> [u64; 4];
    const MODULUS: [u64; 4];
}
impl<const P: u64> Words for U64PrimeField<P> {
    fn words(x: &E<Self>) -> [u64; 4] {
        [0, 0, 0, *x.value()]
    }
    const MODULUS: [u64; 4] = [0, 0, 0, P];
}
impl Words for S {
    fn words(x: &E<Self>) -> [u64; 4] {
        x.representative().limbs
    }
    const MODULUS: [u64; 4] = [0x0800_0000_0000_0011, 0, 0, 1];
}

/// One output: as a field challenge and as an index.
fn one<F: Words>(ch: &Ch, b: &[u8; 32], field: &str)
where
    FieldElement<F>: ByteConversion,
{
    ch.ops(1);
    let mut t = Fixed::new(vec![*b]);
    let got = guard(std::panic::AssertUnwindSafe(|| transcript_to_field::<F, _>(&mut t)));
    let what = || format!("{field}, output {b:02x?}");
    match got {
        Err(e) => ch.fail("field-challenge-panics", format!("{e}: {}", what())),
        Ok(x) => {
            let w = F::words(&x);
            ch.check(w < F::MODULUS, "not-canonical", || format!("{w:x?}: {}", what()));
            ch.check(w == masked::<F>(b), "field-challenge", || format!("{w:x?} instead of {:x?}: {}", masked::<F>(b), what()));
            ch.check(t.drawn == 1 && t.appended == 0, "draws", || format!("{} draws, {} appends: {}", t.drawn, t.appended, what()));
        }
    }
    let mut t = Fixed::new(vec![*b]);
    let got = guard(std::panic::AssertUnwindSafe(|| transcript_to_usize(&mut t)));
    let want = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
    ch.check(got == Ok(want), "index-challenge", || format!("{got:?} instead of {want}: {}", what()));
    ch.check(t.drawn == 1 && t.appended == 0, "draws", || format!("{} draws, {} appends for an index: {}", t.drawn, t.appended, what()));
}

const BASES: [u8; 6] = [0x00, 0xff, 0x55, 0xaa, 0x0f, 0x80];

/// Every output with at most two bits (quick) or three bits different from a constant pattern.
fn strings<F: Words>(ch: &mut Ch, field: &str)
where
    FieldElement<F>: ByteConversion,
{
    let base = [ch.of(&BASES); 32];
    let flip = |b: &mut [u8; 32], i: usize| b[i / 8] ^= 0x80 >> (i % 8);
    let i = ch.range(0, 256);
    ch.state(&(field, base, i));
    ch.outcome("output");
    let mut b = base;
    if i == 256 {
        // a ramp, so that no two bytes agree
        let b: [u8; 32] = std::array::from_fn(|k| (k as u8).wrapping_mul(37) ^ base[0]);
        return one::<F>(ch, &b, field);
    }
    flip(&mut b, i);
    one::<F>(ch, &b, field);
    for j in i + 1..256 {
        let mut c = b;
        flip(&mut c, j);
        one::<F>(ch, &c, field);
        if ch.ctx.thorough() {
            for k in (j + 1..256).step_by(3) {
                let mut d = c;
                flip(&mut d, k);
                one::<F>(ch, &d, field);
            }
        }
    }
}
/// Every value of the low bits of a small field under several patterns of the ignored bits: each
/// element below the power of two appears equally often.
fn spread<F: Words>(ch: &mut Ch, field: &str)
where
    FieldElement<F>: ByteConversion,
{
    let keep = F::field_bit_size() - 1;
    let base = ch.of(&BASES);
    let over = ch.range(0, 1 << (24usize.saturating_sub(keep)).min(8)) as u64;
    ch.state(&(field, base, over));
    ch.outcome("all low bits");
    let mut seen = vec![0u32; 1 << keep];
    for low in 0..1u64 << keep {
        let mut b = [base; 32];
        let word = low | over << keep | (base as u64) << 56;
        b[24..].copy_from_slice(&word.to_be_bytes());
        one::<F>(ch, &b, field);
        let mut t = Fixed::new(vec![b]);
        if let Ok(x) = guard(std::panic::AssertUnwindSafe(|| transcript_to_field::<F, _>(&mut t))) {
            if let Some(k) = seen.get_mut(F::words(&x)[3] as usize) {
                *k += 1;
            }
        }
    }
    ch.check(seen.iter().all(|k| *k == 1), "not-uniform", || format!("{field}: {} of {} values are never produced", seen.iter().filter(|k| **k == 0).count(), seen.len()));
}
fn batches<F: Words>(ch: &mut Ch, field: &str)
where
    FieldElement<F>: ByteConversion,
{
    let size = if ch.ctx.thorough() { ch.range(0, 300) } else { ch.of(&(0..=80).chain([100, 127, 128, 129, 150, 200, 255, 256, 257, 300]).collect::<Vec<_>>()) };
    let order = ch.pick(3);
    ch.state(&(field, size, order));
    ch.outcome("batch");
    let mask = (1u64 << (F::field_bit_size() - 1).min(32)) - 1;
    let vals: Vec<u64> = (0..size as u64 + 3).map(|i| [i + 1, 1000 - i, i % 2][order] & mask).collect();
    let mut t = Fixed::new(vals.iter().map(|v| coin_field(*v)).collect());
    let got = guard(std::panic::AssertUnwindSafe(|| batch_sample_challenges::<F, _>(size, &mut t)));
    let want: Vec<E<F>> = vals[..size].iter().map(|v| E::<F>::from(*v)).collect();
    ch.check(got == Ok(want), "batch", || format!("{field}: batch of {size} from {vals:?}: {got:?}"));
    ch.check(t.drawn == size && t.appended == 0, "draws", || format!("{field}: {} draws for a batch of {size}", t.drawn));
}

fn plain<F: IsFFTField>() -> Arc<Spec<F>> {
    Arc::new(Spec::<F> {
        main: vec![Kind::Bool],
        aux: vec![],
        offsets: vec![0, 1],
        cons: vec![con_of(Kind::Bool, 0, &[0, 1], 0).unwrap()],
        bnd: vec![],
        bound_mult: 2,
        n_rap: 0,
        aux_fault: None,
    })
}
/// May z be used? Off both domains, and no query may meet the pole at z².
fn usable<F: IsFFTField>(z: &E<F>, n: usize, blowup: usize, off: u64) -> bool {
    let t = powers(&root_of::<F>(n), n, &E::<F>::one());
    let l = powers(&root_of::<F>(n * blowup), n * blowup, &E::<F>::from(off));
    !t.contains(z) && !l.contains(z) && !l.contains(&(z * z))
}

/// Every sequence of out-of-domain candidates over the whole coin space, to a depth.
fn points<F: Words>(ch: &mut Ch, sizes: &[(usize, usize)], offs: &[u64], depth: usize, field: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let (n, blowup) = ch.of(sizes);
    let off = ch.of(offs);
    if !legal_offset::<F>(off, n, blowup) {
        return ch.outcome("illegal offset");
    }
    let coins = 1u64 << (F::field_bit_size() - 1);
    let t_dom = powers(&root_of::<F>(n), n, &E::<F>::one());
    let l_dom = powers(&root_of::<F>(n * blowup), n * blowup, &E::<F>::from(off));
    let mut out: Vec<u64> = vec![];
    let mut stop = None;
    for i in 0..depth {
        let v = ch.pick(coins as usize) as u64;
        out.push(v);
        if usable(&E::<F>::from(v), n, blowup, off) {
            stop = Some(i);
            break;
        }
    }
    let last = match stop {
        Some(i) => i,
        None => {
            // whatever was refused, a usable point is taken
            let Some(v) = (0..coins).rev().find(|v| usable(&E::<F>::from(*v), n, blowup, off)) else {
                return ch.outcome("no usable point");
            };
            out.push(v);
            depth
        }
    };
    // a decoy that a sampler reading too far would use
    out.push(0);
    let mut t = Fixed::new(out.iter().map(|v| coin_field(*v)).collect());
    let what = || format!("{field}, {n} rows, blow-up {blowup}, offset {off}, candidates {out:?}");
    ch.state(&(field, n, blowup, off, &out));
    ch.outcome(if last == 0 { "taken at once" } else { "taken after refusals" });
    let got = guard(std::panic::AssertUnwindSafe(|| sample_z_ood(&l_dom, &t_dom, &mut t)));
    match got {
        Err(e) => ch.fail("out-of-domain-panics", format!("{e}: {}", what())),
        Ok(z) => {
            ch.check(!t_dom.contains(&z), "in-trace-domain", || format!("{z:?}: {}", what()));
            ch.check(!l_dom.contains(&z), "in-evaluation-domain", || format!("{z:?}: {}", what()));
            ch.check(!l_dom.contains(&(&z * &z)), "pole-in-evaluation-domain", || format!("{z:?}: {}", what()));
            ch.check(z == E::<F>::from(out[last]) && t.drawn == last + 1, "not-first-usable", || format!("{z:?} after {} draws: {}", t.drawn, what()));
        }
    }
}

/// The same sampling inside whole proofs: scripted candidates and indices.
fn whole<F: Words>(ch: &mut Ch, sizes: &[(usize, usize)], offs: &[u64], refusals: usize, field: &str)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let (n, blowup) = ch.of(sizes);
    let off = ch.of(offs);
    if !legal_offset::<F>(off, n, blowup) {
        return ch.outcome("illegal offset");
    }
    let spec = plain::<F>();
    let rows: Vec<Vec<E<F>>> = (0..n).map(|i| vec![E::<F>::from((i % 3 / 2) as u64)]).collect();
    let big = n * blowup;
    let queries = ch.range(1, 2);
    let o = opts(blowup as u8, queries, off, 0);
    let coins: u64 = 1 << (F::field_bit_size() - 1).min(20);
    // candidates: domain points that a coin can produce, poles, then one that is usable
    let t_dom = powers(&root_of::<F>(n), n, &E::<F>::one());
    let l_dom = powers(&root_of::<F>(big), big, &E::<F>::from(off));
    let small = coins <= 1 << 8;
    let coin = |x: &E<F>| -> Option<[u8; 32]> {
        let w = F::words(x);
        let mut c = [0u8; 32];
        for (i, k) in w.iter().enumerate() {
            c[8 * i..8 * i + 8].copy_from_slice(&k.to_be_bytes());
        }
        (masked::<F>(&c) == w).then_some(c)
    };
    let refused: Vec<[u8; 32]> = if small {
        (0..coins).map(|v| E::<F>::from(v)).filter(|z| !usable(z, n, blowup, off)).filter_map(|z| coin(&z)).collect()
    } else {
        t_dom.iter().chain(l_dom.iter()).filter_map(coin).collect()
    };
    let mut cand: Vec<[u8; 32]> = vec![];
    if !refused.is_empty() {
        for _ in 0..ch.range(0, refusals) {
            cand.push(ch.of(&refused));
        }
    }
    let Some(v) = (2..coins.min(4096)).find(|v| usable(&E::<F>::from(*v), n, blowup, off)).or(Some(0)) else { return };
    cand.push(coin_field(v));
    let iotas: Vec<u64> = (0..queries)
        .map(|_| {
            let b = big as u64;
            let menu: Vec<u64> = if small {
                (0..b).chain([b, b + 1, u64::MAX, u64::MAX - b, 1 << 63, 1 << 32]).collect()
            } else {
                vec![0, 1, b - 1, b, u64::MAX, 1 << 63]
            };
            ch.of(&menu)
        })
        .collect();
    let zi = 2 * spec.bnd.len() + 2 * spec.cons.len();
    let after = zi + cand.len() + 2 + spec.n_cols() * spec.offsets.len() + n.trailing_zeros() as usize + 1;
    let (c2, i2) = (cand.clone(), iotas.clone());
    let script = move || {
        let (c, i) = (c2.clone(), i2.clone());
        hooks::set_script(Some(Box::new(move |k, _| {
            if k >= zi && k < zi + c.len() {
                Some(c[k - zi])
            } else if k >= after && k < after + i.len() {
                Some(coin_index(i[k - after]))
            } else {
                None
            }
        })));
    };
    let what = || format!("{field}, {n} rows, blow-up {blowup}, offset {off}, {} refused candidates, index outputs {iotas:?}", cand.len() - 1);
    script();
    let made = make(&spec, &rows, &o, Cheat::None);
    script();
    let pr = guard(|| prove::<F, FamAir<F>>(&table(&rows), &spec, &o));
    ch.validated(1);
    ch.state(&(field, n, blowup, off, &cand, &iotas));
    let want: Vec<usize> = iotas.iter().map(|i| (*i % big as u64) as usize).collect();
    assert_eq!(made.iotas, want, "the script did not reach the queries");
    match pr {
        Err(e) => {
            hooks::set_script(None);
            return ch.fail("prover-panics", format!("{e}: {}", what()));
        }
        Ok(Err(e)) => {
            hooks::set_script(None);
            return ch.fail("prover-fails", format!("{e:?}: {}", what()));
        }
        Ok(Ok(p)) => {
            let same = p.serialize() == made.proof.serialize();
            ch.check(same, "coins-used-by-the-prover", || {
                let p0 = p.trace_ood_frame_evaluations.serialize() == made.proof.trace_ood_frame_evaluations.serialize();
                format!("proof differs from the reference ({}): {}", if p0 { "same point, so other queries" } else { "other out-of-domain point" }, what())
            });
            script();
            let r = guard(|| verify::<F, FamAir<F>>(&made.proof, &spec, &o));
            ch.outcome("whole proof");
            ch.check(r == Ok(true), "coins-used-by-the-verifier", || format!("{r:?} on the reference proof: {}", what()));
        }
    }
    hooks::set_script(None);
}

fn main() {
    harness::main("C20", Level::ModelChecking, |ctx| {
        ctx.rule("every transcript output near six patterns and every low-bit value of small fields; every sequence of out-of-domain candidates over the whole coin space of small fields to a depth; whole proofs under scripted candidates and query outputs; non-trivial: distinct outputs, candidates, domains");
        macro_rules! each {
            ($f:ident; $($t:ident),*) => { $( ctx.explore(concat!(stringify!($f), " ", stringify!($t)), |ch| $f::<$t>(ch, stringify!($t))); )* };
        }
        each!(strings; P5, P17, P97, P193, P257, P7681, P65537, G, S);
        each!(spread; P5, P17, P97, P193, P257, P7681);
        if ctx.thorough() {
            each!(spread; P65537);
        }
        each!(batches; P5, P17, P97, P257, P65537, G, S);
        let d = ctx.tier(3, 4);
        ctx.explore("points F17", |ch| points::<P17>(ch, &[(1, 2), (1, 4), (2, 2), (2, 4), (4, 2)], &[2, 3, 5, 6, 7, 10, 11], d + 1, "F17"));
        ctx.explore("points F97", |ch| points::<P97>(ch, &[(1, 2), (2, 2), (2, 4), (4, 4), (8, 2)], &[2, 3, 5, 7], d, "F97"));
        ctx.explore("points F193", |ch| points::<P193>(ch, &[(2, 2), (4, 4), (8, 4), (16, 2)], &[3, 5, 7], d - 1, "F193"));
        ctx.explore("points F257", |ch| points::<P257>(ch, &[(2, 2), (4, 8), (8, 4), (16, 8)], &[3, 5, 7], d - 1, "F257"));
        ctx.explore("whole proofs F17", |ch| whole::<P17>(ch, &[(2, 4), (4, 2)], &[3, 5, 6], ctx.tier(2, 3), "F17"));
        ctx.explore("whole proofs F97", |ch| whole::<P97>(ch, &[(2, 4), (4, 4), (8, 2)], &[3, 5], ctx.tier(1, 2), "F97"));
        ctx.explore("whole proofs F257", |ch| whole::<P257>(ch, &[(4, 4)], &[3, 5], 1, "F257"));
        ctx.explore("whole proofs Goldilocks", |ch| whole::<G>(ch, &[(2, 2), (4, 4), (8, 4)], &[3, 7], ctx.tier(1, 2), "Goldilocks"));
        ctx.explore("whole proofs Stark252", |ch| whole::<S>(ch, &[(2, 2), (4, 4)], &[3], ctx.tier(1, 2), "Stark252"));
    });
}

//! C08: proof of work. Searcher, checker, prover and verifier against the definition.
#[path = "../../kit/fam.rs"]
mod fam;
#[path = "../../kit/mutate.rs"]
mod mutate;
#[path = "../../kit/proto.rs"]
mod proto;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_crypto::hooks::{self, Event};
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::grinding::{
    generate_nonce_with_grinding, hash_transcript_with_int_and_get_leading_zeros,
};
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use mutate::*;
use proto::score;
use std::sync::Arc;

fn seed(byte: usize, value: u8) -> [u8; 32] {
    let mut s = [0u8; 32];
    s[byte] = value;
    s
}

fn digest_of(ch: &Ch, s: &[u8; 32], nonce: u64) -> u8 {
    let want = score(s, nonce);
    match guard(|| hash_transcript_with_int_and_get_leading_zeros(s, nonce)) {
        Ok(got) => {
            ch.check(got == want, "difficulty-measure", || format!("seed {s:02x?} nonce {nonce:#x}: {got} zero bits, definition {want}"));
        }
        Err(e) => ch.fail("difficulty-panics", format!("seed {s:02x?} nonce {nonce:#x}: {e}")),
    }
    want
}

fn end_to_end<F: IsFFTField>(ch: &mut Ch, lens: &[usize], nonces: u64)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    use Kind::*;
    let m = Menu {
        offsets: vec![vec![0, 1], vec![0, 1, 2]],
        kinds: vec![Fib, Sq],
        max_cols: 1,
        aux: vec![vec![], vec![Aux::Scaled(0)]],
        extra: vec![0],
        bnd: 2,
    };
    let n = ch.of(lens);
    let Some((spec, rows)) = choose::<F>(ch, n, &m) else { return };
    let (q, gr) = (ch.of(&[1usize, 3]), ch.of(&[0u8, 1, 2, 3, 5, 8, 11]));
    let o = opts(4, q, 7, gr);
    if !spec.carried_by(n, 4) {
        return;
    }
    let spec = Arc::new(spec);
    let what = || format!("{} n={n} queries {q}", spec.name());
    hooks::start_recording();
    let pr = guard(|| prove::<F, FamAir<F>>(&table(&rows), &spec, &o));
    let ev = hooks::stop_recording();
    let Ok(Ok(proof)) = pr else {
        return ch.outcome("no proof");
    };
    // the last challenge before the q query challenges is the puzzle
    let cs: Vec<[u8; 32]> = ev.iter().filter_map(|e| if let Event::Challenge(c) = e { Some(*c) } else { None }).collect();
    if cs.len() <= q {
        return ch.fail("no-puzzle-challenge", what());
    }
    let at = cs.len() - q - 1;
    let s = cs[at];
    let best = (0u64..).find(|x| score(&s, *x) >= gr).unwrap();
    ch.check(proof.nonce == best, "prover-nonce", || format!("{} difficulty {gr}: nonce {}, smallest {best}", what(), proof.nonce));
    // all other coins fixed to those of the honest proof: only the work check can decide
    let iotas: Vec<[u8; 32]> = cs[at + 1..].to_vec();
    hooks::set_script(Some(Box::new(move |k, _| if k > at { iotas.get(k - at - 1).copied() } else { None })));
    let mut list: Vec<u64> = (0..nonces).collect();
    list.extend((7..64).map(|k| 1u64 << k));
    list.extend([u64::MAX, u64::MAX - 1, u64::MAX / 2, best + (1 << 32), best << 8 | 1]);
    list.push(proof.nonce);
    for x in list {
        let have = score(&s, x);
        let mut p = copy(&proof);
        p.nonce = x;
        let mut ds: Vec<u8> = (0..=13).collect();
        ds.extend([have.saturating_sub(1), have, have + 1, 20, 32, 63, 64, 65, 127, 128, 255]);
        ds.sort_unstable();
        ds.dedup();
        for d in ds {
            let mut od = o.clone();
            od.grinding_factor = d;
            let r = guard(|| verify::<F, FamAir<F>>(&p, &spec, &od));
            ch.ops(1);
            let msg = || format!("{} proof made for difficulty {gr}, nonce {x:#x} has {have} zero bits, required {d}: {r:?}", what());
            match &r {
                Err(_) => ch.fail("verifier-panics", msg()),
                Ok(a) if *a != (have >= d) => {
                    ch.fail(if *a { "insufficient-work-accepted" } else { "sufficient-work-rejected" }, msg())
                }
                Ok(a) => ch.outcome(if *a { "accepted" } else { "rejected" }),
            }
        }
        ch.validated(1);
        ch.state(&(spec.name(), n, q, gr, x, have));
    }
    hooks::set_script(None);
}

/// The digest of `seed`, `nonce` is scripted to have exactly `zeros(nonce)` zero bits.
fn script(seed: [u8; 32], high: bool, zeros: impl Fn(u64) -> u8 + 'static) {
    scripted_sha3::hooks::script_digests(Some(Box::new(move |data: &[u8]| {
        if data.len() != 40 || data[..32] != seed {
            return None;
        }
        let z = zeros(u64::from_le_bytes(data[32..].try_into().unwrap())) as u32;
        let fill = if high { u64::MAX } else { 0 };
        let head = if z >= 64 { 0 } else { (fill << z) | (1 << z) };
        let mut d = [if high { 0xff } else { 0 }; 32];
        d[..8].copy_from_slice(&head.to_be_bytes());
        Some(d)
    })));
}

fn unscript() {
    scripted_sha3::hooks::script_digests(None);
}

/// Digests scripted so that any difficulty can be met by any nonce.
fn scripted_search(ch: &mut Ch, far: &[u64]) {
    let d = ch.range(0, 64) as u8;
    let first = if d == 0 { 0 } else { ch.of(far) };
    // before the first sufficient nonce: nothing, one bit too few, or every insufficient amount in turn
    let before = ch.pick(3);
    let at = if d == 0 { ch.range(0, 64) as u8 } else { ch.of(&[d, 64]) };
    let high = ch.flag();
    let s = seed(7, 0x5a);
    script(s, high, move |x| match (x.cmp(&first), before) {
        (std::cmp::Ordering::Less, 0) => 0,
        (std::cmp::Ordering::Less, 1) => d - 1,
        (std::cmp::Ordering::Less, _) => (x % d as u64) as u8,
        (std::cmp::Ordering::Equal, _) => at,
        _ => 64,
    });
    let m = guard(|| hash_transcript_with_int_and_get_leading_zeros(&s, first));
    let r = guard(|| generate_nonce_with_grinding(&s, d));
    unscript();
    ch.ops(first + 1);
    ch.validated(1);
    ch.state(&(d, first, before, at, high));
    ch.outcome("searched");
    ch.check(m == Ok(at), "difficulty-measure", || format!("digest with {at} zero bits measured as {m:?}"));
    ch.check(r == Ok(Some(first)), "search", || format!("difficulty {d}: found {r:?}, smallest sufficient nonce {first} (scripted digests)"));
}

/// Every amount of work a nonce can show, against every requirement.
fn every_amount<F: IsFFTField>(ch: &mut Ch)
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let m = Menu { offsets: vec![vec![0, 1]], kinds: vec![Kind::Fib], max_cols: 1, aux: vec![vec![]], extra: vec![0], bnd: 1 };
    let Some((spec, rows)) = choose::<F>(ch, 4, &m) else { return };
    let (gr, high) = (ch.of(&[0u8, 3]), ch.flag());
    let have = ch.range(0, 64) as u8;
    let o = opts(4, 2, 7, gr);
    let spec = Arc::new(spec);
    hooks::start_recording();
    let pr = guard(|| prove::<F, FamAir<F>>(&table(&rows), &spec, &o));
    let ev = hooks::stop_recording();
    let Ok(Ok(proof)) = pr else { return ch.outcome("no proof") };
    let cs: Vec<[u8; 32]> = ev.iter().filter_map(|e| if let Event::Challenge(c) = e { Some(*c) } else { None }).collect();
    if cs.len() <= 2 {
        return ch.fail("no-puzzle-challenge", spec.name());
    }
    script(cs[cs.len() - 3], high, move |_| have);
    for d in 0..=255u8 {
        let mut od = o.clone();
        od.grinding_factor = d;
        let r = guard(|| verify::<F, FamAir<F>>(&proof, &spec, &od));
        ch.ops(1);
        ch.validated(1);
        ch.state(&(have, d, gr, high, F::TWO_ADICITY));
        let msg = || format!("{} nonce shows {have} zero bits (scripted digest), required {d}: {r:?}", spec.name());
        match &r {
            Err(_) => ch.fail("verifier-panics", msg()),
            Ok(a) if *a != (have >= d) => ch.fail(if *a { "insufficient-work-accepted" } else { "sufficient-work-rejected" }, msg()),
            Ok(a) => ch.outcome(if *a { "accepted" } else { "rejected" }),
        }
    }
    unscript();
}

fn main() {
    harness::main("C08", Level::ModelChecking, |ctx| {
        ctx.rule("digest: seeds with every byte position set, nonces over every byte position; search: seed x difficulty, smallest nonce by exhaustive search; verifier: every nonce of an initial segment and of every word position x every difficulty, all other coins held at the honest ones so that only the work check decides");
        let vals: Vec<u8> = if ctx.thorough() { (0..=255).collect() } else { vec![0, 1, 2, 127, 128, 254, 255] };
        ctx.explore("difficulty of a digest", |ch| {
            let b = ch.range(0, 31);
            let v = ch.of(&vals);
            let s = seed(b, v);
            let mut seen = [0u32; 65];
            for k in 0..8 {
                for nv in 0..=255u64 {
                    seen[digest_of(ch, &s, nv << (8 * k)) as usize] += 1;
                }
            }
            for x in [u64::MAX, u64::MAX - 1, u64::MAX / 3, 0x0102030405060708] {
                seen[digest_of(ch, &s, x) as usize] += 1;
            }
            ch.ops(2052);
            ch.validated(2052);
            ch.state(&(b, v, seen));
            ch.outcome("digests measured");
        });
        let top = ctx.tier(12, 18) as u8;
        let sv: Vec<u8> = if ctx.thorough() { (1..=255).step_by(2).collect() } else { vec![1, 85, 128, 255] };
        ctx.explore("smallest nonce", |ch| {
            let s = seed(ch.range(0, 31), ch.of(&sv));
            let mut x = 0u64;
            for d in 0..=top {
                while score(&s, x) < d {
                    x += 1;
                }
                let r = guard(|| generate_nonce_with_grinding(&s, d));
                ch.ops(x + 1);
                ch.state(&(s, d, x));
                ch.validated(1);
                ch.check(r == Ok(Some(x)), "search", || format!("seed {s:02x?} difficulty {d}: found {r:?}, smallest {x}"));
            }
            ch.outcome("searched");
        });
        // the hash must depend on every bit of both inputs
        ctx.explore("pinned example", |ch| {
            let s = [226u8, 27, 133, 168, 62, 203, 20, 59, 122, 230, 227, 33, 76, 44, 53, 150, 200, 45, 136, 162, 249, 239, 142, 90, 204, 191, 45, 4, 53, 22, 103, 240];
            let d = ch.range(0, 24) as u8;
            let x = (0u64..).find(|x| score(&s, *x) >= d).unwrap();
            digest_of(ch, &s, x);
            ch.state(&x);
            ch.check(generate_nonce_with_grinding(&s, d) == Some(x), "search", || format!("difficulty {d}: smallest {x}"));
        });
        let far = ctx.tier(vec![0u64, 1, 2, 3, 10, 255, 256, 257], vec![0, 1, 2, 3, 10, 63, 64, 65, 255, 256, 257, 1000, 65535, 65536, 65537]);
        ctx.explore("search with scripted digests", |ch| scripted_search(ch, &far));
        let one = ctx.tier(vec![65536u64], vec![1 << 24, (1 << 32) + 2]);
        ctx.explore("search with scripted digests, far", |ch| {
            let (d, first) = (ch.of(&[33u8]), ch.of(&one));
            let s = seed(7, 0x5a);
            script(s, true, move |x| if x < first { 32 } else { 33 });
            let r = guard(|| generate_nonce_with_grinding(&s, d));
            unscript();
            ch.ops(first + 1);
            ch.state(&first);
            ch.outcome("searched");
            ch.check(r == Ok(Some(first)), "search", || format!("difficulty {d}: found {r:?}, smallest sufficient nonce {first} (scripted digests)"));
        });
        ctx.explore("every amount of work against every requirement", |ch| if ch.flag() { every_amount::<S>(ch) } else { every_amount::<G>(ch) });
        let nonces = ctx.tier(64, 1024) as u64;
        ctx.explore("prover and verifier, Goldilocks", |ch| end_to_end::<G>(ch, &[2, 4, 8], nonces));
        ctx.explore("prover and verifier, Stark252", |ch| end_to_end::<S>(ch, &[4], nonces / 2));
    });
}

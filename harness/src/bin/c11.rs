//! C11: decoding untrusted proof bytes is total and exact.
#[path = "../../kit/bytes.rs"]
mod bytes;
#[path = "../../kit/fam.rs"]
mod fam;
use bytes::*;
use fam::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
use lambdaworks_stark::starks::proof::stark::{DeepPolynomialOpenings, StarkProof};
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::{frame::Frame, fri::fri_decommit::FriDecommitment};
use lambdaworks_stark::starks::utils::{deserialize_proof, serialize_proof};
use std::sync::{Arc, OnceLock};

#[global_allocator]
static ALLOC: harness::alloc_guard::Guarded = harness::alloc_guard::Guarded;

#[derive(Clone)]
struct Base {
    name: String,
    bytes: Vec<u8>,
}
type Dec = fn(&[u8]) -> Did;
fn dec<T: Serializable + Deserializable>(b: &[u8]) -> Did {
    match T::deserialize(b) {
        Ok(v) => Did::Accepted(v.serialize()),
        Err(_) => Did::Refused,
    }
}
fn dec_path(b: &[u8]) -> Did {
    match deserialize_proof(b) {
        Ok((p, rest)) => {
            let mut v = serialize_proof(&p);
            v.extend(rest);
            Did::Accepted(v)
        }
        Err(_) => Did::Refused,
    }
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    a == b
}

/// (kind, decoder, encodings to start from)
struct Kindred {
    kind: &'static str,
    dec: Dec,
    bases: Vec<Base>,
    /// a path decoder hands the rest back, so it accepts longer strings and cannot see appended ones
    open_ended: bool,
}

fn gather<F: IsFFTField>(ctx: &harness::Ctx, tag: &'static [&'static str; 5], deep: bool) -> Result<Vec<Kindred>, String>
where
    FieldElement<F>: ByteConversion + Send + Sync,
{
    let mut whole = vec![];
    let (mut ds, mut os, mut fs, mut ps) = (vec![], vec![], vec![], vec![]);
    let base = |offsets: Vec<usize>, cols: usize, aux: Vec<Aux>, n: usize, q: usize, gr: u8| -> Result<(String, StarkProof<F>), String> {
        let m = Menu { offsets: vec![offsets], kinds: vec![Kind::Sq], max_cols: cols, aux: vec![aux], extra: vec![0], bnd: 1 };
        let Some((spec, rows)) = ctx.fixed(&[0, cols - 1], |ch| choose::<F>(ch, n, &m)) else { return Err("no base system".into()) };
        let spec = Arc::new(spec);
        let o = opts(4, q, 7, gr);
        let p = guard(|| prove::<F, FamAir<F>>(&table(&rows), &spec, &o))?.map_err(|e| format!("{e:?}"))?;
        Ok((format!("{} n={n} queries {q}", spec.name()), p))
    };
    let mut cfg = vec![(vec![0, 1], 1, vec![], 2, 1, 0), (vec![0, 1], 1, vec![Aux::Scaled(0)], 2, 2, 2)];
    if deep {
        cfg.push((vec![0, 1, 2], 2, vec![Aux::Scaled(0)], 4, 2, 0));
        cfg.push((vec![0, 1], 1, vec![], 8, 3, 0));
    }
    for (off, c, aux, n, q, g) in cfg {
        let (name, p) = base(off, c, aux, n, q, g)?;
        let b = |x: Vec<u8>| Base { name: name.clone(), bytes: x };
        ds.push(b(p.query_list[0].serialize()));
        os.push(b(p.deep_poly_openings[0].serialize()));
        fs.push(b(p.trace_ood_frame_evaluations.serialize()));
        ps.push(b(serialize_proof(&p.deep_poly_openings[0].lde_composition_poly_proof)));
        whole.push(b(p.serialize()));
    }
    Ok(vec![
        Kindred { kind: tag[0], dec: dec::<StarkProof<F>>, bases: whole, open_ended: false },
        Kindred { kind: tag[1], dec: dec::<FriDecommitment<F>>, bases: ds, open_ended: false },
        Kindred { kind: tag[2], dec: dec::<DeepPolynomialOpenings<F>>, bases: os, open_ended: false },
        Kindred { kind: tag[3], dec: dec::<Frame<F>>, bases: fs, open_ended: false },
        Kindred { kind: tag[4], dec: dec_path, bases: ps, open_ended: true },
    ])
}

fn all(ctx: &harness::Ctx, deep: bool) -> Result<Vec<Kindred>, String> {
    let mut v = gather::<G>(ctx, &["proof", "decommitment", "openings", "frame", "path"], deep)?;
    v.extend(gather::<S>(ctx, &["proof252", "decommitment252", "openings252", "frame252", "path252"], deep)?);
    Ok(v)
}

static KINDS: OnceLock<Result<Vec<Kindred>, String>> = OnceLock::new();

fn feed(ch: &Ch, k: &Kindred, how: &str, from: &str, b: &[u8], must_fail: bool) {
    let what = || format!("{how} ({} bytes) from {} of {from}", b.len(), k.kind);
    let took = exact(ch, k.kind, &what, b, &k.dec, &eq);
    ch.outcome(if took { "accepted exactly" } else { "refused" });
    if took && must_fail {
        ch.fail(format!("{}:{how}-accepted", k.kind), what());
    }
}

fn main() {
    harness::main("C11", Level::FaultEnumeration, |ctx| {
        harness::alloc_guard::set_limit(256 << 20);
        ctx.set_hang_limit(20);
        ctx.rule("encodings of real proofs and of their parts: every strict prefix; at every position every byte value, deletion, insertion, every word of a list of extreme and neighbouring words, deleted/doubled words and blocks; appended bytes; every sequence of words up to a depth and every short byte string as input. Accepted strings must be what the decoded value encodes to; non-trivial: distinct input string");
        let deep = ctx.thorough();
        let kinds = match KINDS.get_or_init(|| guard(|| all(ctx, deep)).and_then(|x| x)) {
            Ok(k) => k,
            Err(e) => {
            ctx.explore("base proofs", |ch| ch.fail("no-encoding", format!("no encoded proof to start from: {e}")));
            return;
        }
        };
        ctx.explore("prefixes and appended bytes", |ch| {
            let k = &kinds[ch.pick(kinds.len())];
            let b = &k.bases[ch.pick(k.bases.len())];
            match guard(|| (k.dec)(&b.bytes)) {
                Ok(Did::Accepted(x)) if x == b.bytes => {}
                Ok(Did::Accepted(_)) => ch.fail(format!("{}:bytes-ignored", k.kind), format!("the intact encoding of {}", b.name)),
                Ok(Did::Refused) => ch.fail(format!("{}:valid-refused", k.kind), b.name.clone()),
                Err(e) => ch.fail(format!("{}:panic", k.kind), format!("{e}: {}", b.name)),
            }
            let step = 64;
            let part = ch.pick(b.bytes.len().div_ceil(step) + 1);
            if part == 0 {
                if !k.open_ended {
                    appended(&b.bytes, &mut |how, x| {
                        ch.state(x);
                        feed(ch, k, how, &b.name, x, true)
                    });
                }
                return;
            }
            for i in (part - 1) * step..(part * step).min(b.bytes.len()) {
                ch.state(&b.bytes[..i]);
                feed(ch, k, "prefix", &b.name, &b.bytes[..i], true);
            }
        });
        ctx.explore("damage at every position", |ch| {
            let k = &kinds[ch.pick(kinds.len())];
            let b = &k.bases[ch.pick(k.bases.len())];
            let i = ch.range(0, b.bytes.len());
            let full = deep || b.bytes.len() < 1500;
            ch.state(&(k.kind, &b.name, i));
            at_position(&b.bytes, i, full, &mut |how, x| feed(ch, k, how, &b.name, x, false));
        });
        ctx.explore("two damaged words", |ch| {
            let k = &kinds[ch.pick(kinds.len())];
            let b = &k.bases[0];
            let top = ch.ctx.tier(400, 900);
            if b.bytes.len() > top {
                return;
            }
            // words that hold a length: those below 2^16
            let at: Vec<usize> = (0..b.bytes.len().saturating_sub(7)).filter(|i| u64::from_be_bytes(b.bytes[*i..*i + 8].try_into().unwrap()) < 1 << 16).collect();
            if at.len() < 2 {
                return;
            }
            let i = ch.of(&at);
            for &j in &at {
                if j < i + 8 {
                    continue;
                }
                for w in WORDS {
                    for x in [0u64, 1, 2, 8, 32, u64::MAX] {
                        let mut s = b.bytes.clone();
                        s[i..i + 8].copy_from_slice(&w.to_be_bytes());
                        s[j..j + 8].copy_from_slice(&x.to_be_bytes());
                        feed(ch, k, "two words", &b.name, &s, false);
                    }
                }
            }
            ch.state(&(k.kind, i));
        });
        let depth = ctx.tier(5, 7);
        ctx.explore("every sequence of words", |ch| {
            let k = &kinds[ch.pick(kinds.len())];
            let n = ch.range(0, depth);
            let mut s = vec![];
            for _ in 0..n {
                s.extend(ch.of(&[0u64, 1, 2, 8, 16, 32, 1 << 40, u64::MAX]).to_be_bytes());
            }
            // with room behind it for what the words may ask for
            for room in [0usize, 1, 31, 32, 40, 64, 200] {
                let mut t = s.clone();
                t.resize(s.len() + room, 0);
                feed(ch, k, "words", "-", &t, false);
            }
            ch.state(&(k.kind, s));
        });
        ctx.explore("every short string", |ch| {
            let k = &kinds[ch.pick(kinds.len())];
            let a = ch.range(0, 255) as u8;
            feed(ch, k, "short", "-", &[], true && !k.open_ended);
            feed(ch, k, "short", "-", &[a], true);
            for b in 0..=255 {
                feed(ch, k, "short", "-", &[a, b], true);
                feed(ch, k, "short", "-", &[a, b, a], true);
            }
            for n in 3..700 {
                feed(ch, k, "uniform", "-", &vec![a; n], false);
            }
            ch.state(&(k.kind, a));
        });
    });
}

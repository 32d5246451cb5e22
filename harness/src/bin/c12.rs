//! C12: public inputs survive serialization and decode safely.
#[path = "../../kit/bytes.rs"]
mod bytes;
use bytes::*;
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as S;
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};
use std::collections::HashMap;

type FE = FieldElement<S>;

#[global_allocator]
static ALLOC: harness::alloc_guard::Guarded = harness::alloc_guard::Guarded;

/// The same value always gives the same text, whatever the order of its maps.
fn text(p: &PublicInputs) -> String {
    let mut seg: Vec<String> = p.memory_segments.iter().map(|(k, r)| format!("{k:?} {}..{}", r.start, r.end)).collect();
    seg.sort();
    let mut mem: Vec<String> = p.public_memory.iter().map(|(a, v)| format!("{a:?}={v:?}")).collect();
    mem.sort();
    format!(
        "pc {:?}->{:?} ap {:?}->{:?} fp {:?} rc {:?} {:?} segments {seg:?} steps {} memory {mem:?}",
        p.pc_init, p.pc_final, p.ap_init, p.ap_final, p.fp_init, p.range_check_min, p.range_check_max, p.num_steps
    )
}
fn felts() -> Vec<FE> {
    vec![FE::from(1u64), FE::zero(), -FE::one(), FE::from(u64::MAX), -FE::from(1u64 << 40), FE::from(2u64).pow(200usize)]
}
fn dec(b: &[u8]) -> Did {
    match PublicInputs::deserialize(b) {
        Ok(v) => Did::Accepted(v.serialize()),
        Err(_) => Did::Refused,
    }
}
/// Maps are written in no particular order, so encodings are compared up to it.
fn same(a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    a.sort_unstable();
    b.sort_unstable();
    a == b
}

fn round(ch: &Ch, p: &PublicInputs) {
    ch.ops(1);
    ch.validated(1);
    let before = text(p);
    ch.state(&before);
    let b = match guard(|| p.serialize()) {
        Ok(b) => b,
        Err(e) => return ch.fail("serialize-panics", format!("{e}: {before}")),
    };
    match guard(|| PublicInputs::deserialize(&b)) {
        Ok(Ok(q)) => {
            let after = text(&q);
            let which = |s: &str| s.split(" memory ").next().unwrap_or("").to_string();
            let key = if which(&before) != which(&after) { "changed" } else { "memory-changed" };
            ch.check(before == after, key, || format!("{} became {}", &before[..before.len().min(900)], &after[..after.len().min(900)]));
            ch.check(guard(|| q.serialize()).is_ok_and(|x| same(&x, &b)), "bytes-changed", || before.clone());
            ch.outcome("round trip");
        }
        Ok(Err(e)) => ch.fail("not-read-back", format!("{e:?}: {before}")),
        Err(e) => ch.fail("deserialize-panics", format!("{e}: {before}")),
    }
}

fn memory(n: usize, seed: usize) -> HashMap<FE, FE> {
    let f = felts();
    (0..n).map(|i| if i < f.len() && seed > 0 { (f[(i + seed) % f.len()].clone(), f[(i * seed) % f.len()].clone()) } else { (FE::from(i as u64 + 1000), FE::from((i * i) as u64)) }).collect()
}

fn some(rc: (Option<u16>, Option<u16>), segs: usize, n: usize, steps: usize) -> PublicInputs {
    let mut memory_segments = HashMap::new();
    if segs & 1 != 0 {
        memory_segments.insert(MemorySegment::RangeCheck, 100..0x0203040506070809);
    }
    if segs & 2 != 0 {
        memory_segments.insert(MemorySegment::Output, 5..9);
    }
    PublicInputs {
        pc_init: FE::from(1u64),
        ap_init: FE::from(30u64),
        fp_init: FE::from(31u64),
        pc_final: FE::from(20u64),
        ap_final: FE::from(64u64),
        range_check_min: rc.0,
        range_check_max: rc.1,
        memory_segments,
        public_memory: memory(n, 0),
        num_steps: steps,
    }
}

fn main() {
    harness::main("C12", Level::ModelChecking, |ctx| {
        harness::alloc_guard::set_limit(256 << 20);
        ctx.set_hang_limit(20);
        ctx.rule("public inputs over the product of register values, range-check bounds, segment sets and ranges, public memories and step counts; encoded, decoded, compared, re-encoded. Then from each base encoding every prefix, every position's damage, appended bytes and every word sequence up to a depth: never a panic, and an accepted string is the encoding of its value; non-trivial: distinct value or string");
        ctx.explore("registers", |ch| {
            let f = felts();
            let mut p = some((Some(1), Some(2)), 0, 2, 7);
            p.pc_init = ch.of(&f);
            p.ap_init = ch.of(&f);
            p.fp_init = ch.of(&f);
            p.pc_final = ch.of(&f);
            p.ap_final = ch.of(&f);
            round(ch, &p);
        });
        ctx.explore("bounds, segments and steps", |ch| {
            let rc = [None, Some(0u16), Some(1), Some(255), Some(256), Some(32768), Some(65535)];
            let mut p = some((ch.of(&rc), ch.of(&rc)), 0, ch.of(&[0, 1, 3]), ch.of(&[0, 1, 2, 255, 256, 1 << 32, usize::MAX]));
            let ends = [0u64, 1, 255, 256, 1 << 32, u64::MAX];
            for s in [MemorySegment::RangeCheck, MemorySegment::Output] {
                if ch.flag() {
                    let r = ch.of(&ends)..ch.of(&ends);
                    p.memory_segments.insert(s, r);
                }
            }
            round(ch, &p);
        });
        ctx.explore("public memories", |ch| {
            let n = ch.of(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 32, 255, 256, 257, 1000, 65536]);
            let seed = ch.range(0, 4);
            let mut p = some((None, Some(9)), ch.range(0, 3), 0, 12);
            p.public_memory = memory(n, seed);
            round(ch, &p);
        });
        let mut bases = vec![];
        for rc in [(None, None), (Some(0x0102), None), (None, Some(0x7ffe)), (Some(1), Some(2))] {
            for segs in 0..4 {
                for n in ctx.tier(vec![0, 1, 3], vec![0, 1, 2, 3, 5]) {
                    bases.push(some(rc, segs, n, 0x1122));
                }
            }
        }
        let enc: Vec<(String, Vec<u8>)> = bases.iter().map(|p| (text(p), guard(|| p.serialize()).unwrap_or_default())).collect();
        let feed = |ch: &Ch, how: &str, from: &str, b: &[u8], must_fail: bool| {
            let took = exact(ch, "public input", &|| format!("{how} ({} bytes) from {from}", b.len()), b, &dec, &same);
            ch.outcome(if took { "accepted exactly" } else { "refused" });
            if took && must_fail {
                ch.fail(format!("{how}-accepted"), format!("{} bytes from {from}", b.len()));
            }
        };
        ctx.explore("prefixes and appended bytes", |ch| {
            let (name, b) = &enc[ch.pick(enc.len())];
            for i in 0..b.len() {
                ch.state(&b[..i]);
                feed(ch, "prefix", name, &b[..i], true);
            }
            appended(b, &mut |how, x| {
                ch.state(x);
                feed(ch, how, name, x, true)
            });
        });
        ctx.explore("damage at every position", |ch| {
            let (name, b) = &enc[ch.pick(enc.len())];
            let i = ch.range(0, b.len());
            ch.state(&(name, i));
            at_position(b, i, true, &mut |how, x| feed(ch, how, name, x, false));
        });
        ctx.explore("entries repeated", |ch| {
            // the same segment or public cell listed twice, with the count adjusted
            let p = some((Some(1), Some(2)), ch.range(0, 3), ch.range(0, 2), 5);
            let name = text(&p);
            let Ok(b) = guard(|| p.serialize()) else { return };
            let segs_at = 8 + 5 * 32 + 6;
            let ns = p.memory_segments.len();
            let mem_at = segs_at + 8 + ns * 17;
            let mut put = |count_at: usize, n: usize, size: usize, how: &str| {
                for i in 0..n {
                    for keep in [true, false] {
                        let mut x = b.clone();
                        x[count_at..count_at + 8].copy_from_slice(&(n as u64 + 1).to_be_bytes());
                        let from = count_at + 8 + i * size;
                        let mut entry = b[from..from + size].to_vec();
                        if !keep {
                            entry[size - 1] ^= 1;
                        }
                        x.splice(from..from, entry);
                        ch.state(&x);
                        feed(ch, how, &name, &x, true);
                    }
                }
            };
            put(segs_at, ns, 17, "repeated segment");
            put(mem_at, p.public_memory.len(), 64, "repeated cell");
        });
        let depth = ctx.tier(5, 6);
        ctx.explore("every sequence of words", |ch| {
            let n = ch.range(0, depth);
            let head = ch.of(&[0usize, 168]);
            let mut s = vec![0u8; head];
            if head > 0 {
                s[..8].copy_from_slice(&32u64.to_be_bytes());
                s.extend([0u8; 1]);
                s.extend([ch.pick(3) as u8]);
            }
            for _ in 0..n {
                s.extend(ch.of(&[0u64, 1, 2, 8, 32, 1 << 40, 1 << 56, u64::MAX]).to_be_bytes());
            }
            for room in [0usize, 1, 2, 3, 31, 32, 64, 200] {
                let mut t = s.clone();
                t.resize(s.len() + room, 0);
                feed(ch, "words", "-", &t, false);
            }
            ch.state(&s);
        });
        ctx.explore("every short string", |ch| {
            let a = ch.range(0, 255) as u8;
            feed(ch, "short", "-", &[], true);
            feed(ch, "short", "-", &[a], true);
            for b in 0..=255 {
                feed(ch, "short", "-", &[a, b], true);
            }
            for n in 3..700 {
                feed(ch, "uniform", "-", &vec![a; n], false);
            }
            ch.state(&a);
        });
    });
}

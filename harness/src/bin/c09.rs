//! C09: options checked against a security target, over every blow-up factor, work factor and target
//! there is (all are bytes), with the query counts around each threshold and the extreme ones.
use harness::{guard, Ch, Level};
use lambdaworks_math::field::fields::fft_friendly::{
    stark_252_prime_field::Stark252PrimeField as S, u64_goldilocks::F64 as G,
};
use lambdaworks_math::field::fields::u64_prime_field::U64PrimeField;
use lambdaworks_math::field::traits::IsPrimeField;
use lambdaworks_stark::starks::proof::options::{ProofOptions, SecurityLevel};

/// Bits of security the stated formula assigns, or None when no legal blow-up factor was given.
fn bits(provable: bool, blowup: u8, q: usize, g: u8) -> Option<i128> {
    let b = match blowup {
        2 => 1,
        4 => 2,
        8 => 3,
        16 => 4,
        32 => 5,
        64 => 6,
        128 => 7,
        _ => return None,
    };
    let per = b * q as i128;
    Some(g as i128 + if provable { per / 2 } else { per - 1 })
}
fn granted(provable: bool, field_bits: usize, blowup: u8, q: usize, g: u8, target: u8) -> bool {
    let Some(b) = bits(provable, blowup, q, g) else { return false };
    let enough = if provable { b >= target as i128 } else { b > target as i128 };
    enough && field_bits > target as usize + 40
}

fn one<F: IsPrimeField>(ch: &Ch, provable: bool, field_bits: usize, blowup: u8, q: usize, g: u8, target: u8, off: u64) -> u8 {
    let kind = if provable { "provable" } else { "conjectured" };
    let what = || format!("{kind} blowup {blowup} queries {q} work {g} target {target} field of {field_bits} bits");
    let r = guard(|| {
        if provable {
            ProofOptions::new_with_checked_provable_security::<F>(blowup, q, off, g, target)
        } else {
            ProofOptions::new_with_checked_security::<F>(blowup, q, off, g, target)
        }
    });
    let want = granted(provable, field_bits, blowup, q, g, target);
    match r {
        Err(e) => {
            ch.fail(format!("{kind}-panics"), format!("{}: {e}", what()));
            2
        }
        Ok(Ok(o)) => {
            if !want {
                let why = if bits(provable, blowup, q, g).is_none() {
                    "illegal-blowup-granted"
                } else if field_bits <= target as usize + 40 {
                    "small-field-granted"
                } else {
                    "insufficient-granted"
                };
                ch.fail(format!("{kind}-{why}"), format!("{} was granted", what()));
            }
            if (o.blowup_factor, o.fri_number_of_queries, o.coset_offset, o.grinding_factor) != (blowup, q, off, g) {
                ch.fail(format!("{kind}-altered"), format!("{} returned {o:?}", what()));
            }
            1
        }
        Ok(Err(_)) => {
            if want {
                ch.fail(format!("{kind}-sufficient-refused"), what());
            }
            0
        }
    }
}

fn sweep<F: IsPrimeField>(ch: &Ch, provable: bool, field_bits: usize, blowup: u8, g: u8, wide: usize) {
    let mut counts = [0u64; 3];
    for target in 0..=255u8 {
        let mut qs: Vec<usize> = (0..=wide).collect();
        for b in 1..=8usize {
            // thresholds whatever a factor might be taken to contribute
            for extra in 0..2 {
                let need = (target as usize + 1).saturating_sub(g as usize) * (1 + extra);
                for d in 0..3 {
                    qs.push((need / b + d).saturating_sub(1));
                }
            }
        }
        for b in 1..=8usize {
            // the points where a product or sum could leave the machine word
            for d in 0..3 {
                qs.push((usize::MAX / b).wrapping_add(d).wrapping_sub(1));
                qs.push(((1usize << 63) / b).wrapping_add(d).wrapping_sub(1));
                qs.push((usize::MAX - g as usize) / b - d);
            }
        }
        qs.push(1 << 32);
        qs.push(1 << 61);
        qs.push(1 << 62);
        qs.sort_unstable();
        qs.dedup();
        for q in qs {
            counts[one::<F>(ch, provable, field_bits, blowup, q, g, target, 3 + (q as u64 % 5)) as usize] += 1;
        }
    }
    ch.ops(counts.iter().sum());
    ch.validated(counts.iter().sum());
    ch.ctx.outcome("granted", counts[1]);
    ch.ctx.outcome("refused", counts[0]);
    ch.state(&(provable, field_bits, blowup, g, counts));
}

fn main() {
    harness::main("C09", Level::Exploration, |ctx| {
        ctx.rule("stated formula: work bits + queries * log2(blow-up) - 1 exceeds the target (conjectured), work bits + floor(queries * log2(blow-up) / 2) reaches it (provable), field bits exceed target + 40, blow-up is a power of two >= 2; recomputed in 128-bit arithmetic");
        let legal = [2u8, 4, 8, 16, 32, 64, 128];
        let wide = ctx.tier(8, 64);
        ctx.explore("legal blow-up factors: every work factor and target, query counts at every threshold and at the word limits", |ch| {
            let provable = ch.flag();
            let blowup = ch.of(&legal);
            let g = ch.range(0, 255) as u8;
            match ch.pick(3) {
                0 => sweep::<S>(ch, provable, 252, blowup, g, wide),
                1 => sweep::<G>(ch, provable, 64, blowup, g, wide),
                _ => sweep::<U64PrimeField<17>>(ch, provable, 5, blowup, g, wide),
            }
        });
        let gs: Vec<usize> = if ctx.thorough() { (0..=255).collect() } else { vec![0, 1, 2, 20, 64, 127, 128, 254, 255] };
        ctx.explore("illegal blow-up factors: every other byte", |ch| {
            let provable = ch.flag();
            let blowup = ch.range(0, 255) as u8;
            let g = ch.of(&gs) as u8;
            if legal.contains(&blowup) {
                return;
            }
            sweep::<S>(ch, provable, 252, blowup, g, 2);
        });
        ctx.explore("named security levels", |ch| {
            let i = ch.pick(6);
            let off = ch.of(&[0u64, 1, 2, 3, 7, u64::MAX]);
            let (level, target, provable) = match i {
                0 => (SecurityLevel::Conjecturable80Bits, 80, false),
                1 => (SecurityLevel::Conjecturable100Bits, 100, false),
                2 => (SecurityLevel::Conjecturable128Bits, 128, false),
                3 => (SecurityLevel::Provable80Bits, 80, true),
                4 => (SecurityLevel::Provable100Bits, 100, true),
                _ => (SecurityLevel::Provable128Bits, 128, true),
            };
            let o = match guard(|| ProofOptions::new_secure(level, off)) {
                Ok(o) => o,
                Err(e) => return ch.fail("named-level-panics", format!("level {i}: {e}")),
            };
            ch.state(&(i, off, o.blowup_factor, o.fri_number_of_queries, o.grinding_factor));
            ch.ops(1);
            ch.sample(|| serde_json::json!({"level": i, "options": format!("{o:?}")}));
            ch.check(o.coset_offset == off, "named-level-offset", || format!("level {i}: offset {} instead of {off}", o.coset_offset));
            let ok = granted(provable, 252, o.blowup_factor, o.fri_number_of_queries, o.grinding_factor, target);
            ch.check(ok, &format!("named-level-{i}-misses-target"), || format!("level {i} (target {target}, provable {provable}) has {o:?}"));
            one::<S>(ch, provable, 252, o.blowup_factor, o.fri_number_of_queries, o.grinding_factor, target, off);
            ch.outcome("named level checked");
        });
    });
}

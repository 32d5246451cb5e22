//! C13: instruction decoding against the Cairo machine specification (whitepaper, section 4.4).
use harness::{guard, Ch, Level};
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as S;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::decode::instruction_flags::*;
use lambdaworks_stark::cairo::decode::instruction_offsets::InstructionOffsets;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use std::collections::HashMap;

type FE = FieldElement<S>;

/// What the specification makes of the 15 flag bits, or None for an illegal combination.
fn spec_flags(f: u64) -> Option<CairoInstructionFlags> {
    let bit = |i: u32| f >> i & 1 == 1;
    let one_of = |bits: &[u32]| {
        let on: Vec<usize> = (0..bits.len()).filter(|i| bit(bits[*i])).collect();
        match on.len() {
            0 => Some(0),
            1 => Some(on[0] + 1),
            _ => None,
        }
    };
    if bit(15) {
        return None;
    }
    Some(CairoInstructionFlags {
        dst_reg: if bit(0) { DstReg::FP } else { DstReg::AP },
        op0_reg: if bit(1) { Op0Reg::FP } else { Op0Reg::AP },
        op1_src: [Op1Src::Op0, Op1Src::Imm, Op1Src::FP, Op1Src::AP][one_of(&[2, 3, 4])?].clone(),
        res_logic: [ResLogic::Op1, ResLogic::Add, ResLogic::Mul][one_of(&[5, 6])?].clone(),
        pc_update: [PcUpdate::Regular, PcUpdate::Jump, PcUpdate::JumpRel, PcUpdate::Jnz][one_of(&[7, 8, 9])?].clone(),
        ap_update: [ApUpdate::Regular, ApUpdate::Add, ApUpdate::Add1][one_of(&[10, 11])?].clone(),
        opcode: [CairoOpcode::NOp, CairoOpcode::Call, CairoOpcode::Ret, CairoOpcode::AssertEq][one_of(&[12, 13, 14])?].clone(),
    })
}

fn word(ch: &Ch, flags: u64, d: u64, a: u64, b: u64) {
    let w = flags << 48 | b << 32 | a << 16 | d;
    let fe = FE::from(w);
    let want = spec_flags(flags);
    let got = match guard(|| CairoInstructionFlags::try_from(&fe)) {
        Ok(g) => g.ok(),
        Err(e) => return ch.fail("decode-panics", format!("word {w:#018x}: {e}")),
    };
    if got != want {
        let key = match (&got, &want) {
            (Some(_), None) if flags >> 15 == 1 => "high-bit-accepted",
            (Some(_), None) => "illegal-accepted",
            (None, Some(_)) => "legal-refused",
            _ => "decoded-wrong",
        };
        ch.fail(key, format!("word {w:#018x}: decoded {got:?}, specification {want:?}"));
        return;
    }
    match guard(|| InstructionOffsets::new(&fe)) {
        Ok(o) => {
            let s = |x: u64| x as i32 - 0x8000;
            ch.check((o.off_dst, o.off_op0, o.off_op1) == (s(d), s(a), s(b)), "offsets", || format!("word {w:#018x}: offsets {o:?}"));
            match guard(|| o.to_trace_representation::<S>()) {
                Ok(t) => {
                    ch.check(t == [FE::from(d), FE::from(a), FE::from(b)], "offset-columns", || format!("word {w:#018x}: columns {t:?}"));
                }
                Err(e) => ch.fail("offset-columns-panic", format!("word {w:#018x}: {e}")),
            }
        }
        Err(e) => ch.fail("offsets-panic", format!("word {w:#018x}: {e}")),
    }
    if let Some(g) = got {
        match guard(|| g.to_trace_representation()) {
            Ok(t) => {
                let bits: Vec<FE> = (0..16).map(|i| FE::from(flags >> i & 1)).collect();
                ch.check(t.len() == 16 && t[..] == bits[..], "flag-columns", || format!("word {w:#018x}: columns {t:?}"));
            }
            Err(e) => ch.fail("flag-columns-panic", format!("word {w:#018x}: {e}")),
        }
        ch.outcome("legal word");
    } else {
        ch.outcome("illegal word");
    }
    ch.ops(1);
}

const GRID: [u64; 8] = [0, 1, 0x00ff, 0x7fff, 0x8000, 0x8001, 0xff00, 0xffff];

fn main() {
    harness::main("C13", Level::ModelChecking, |ctx| {
        ctx.rule("all 2^16 flag words x a grid of offsets; every value of each 16-bit offset x flag words; words with any bit above the 63rd; decoding through a register trace; non-trivial: distinct flag word / offset / wide word");
        ctx.explore("every flag word", |ch| {
            let hi = ch.range(0, 255) as u64;
            let lo = ch.range(0, 255) as u64;
            let f = hi << 8 | lo;
            let g: &[u64] = if spec_flags(f).is_some() || ch.ctx.thorough() { &GRID } else { &GRID[3..5] };
            for &d in g {
                for &a in g {
                    for &b in g {
                        word(ch, f, d, a, b);
                    }
                }
            }
            ch.validated(1);
            ch.state(&f);
        });
        let fl: Vec<u64> = (0..1u64 << 15).filter(|f| spec_flags(*f).is_some()).collect();
        ctx.outcome("legal flag words", fl.len() as u64);
        let fs = ctx.tier(vec![0u64, 0x7fff, 0x4806, fl[fl.len() / 2]], fl.iter().step_by(37).copied().collect::<Vec<_>>());
        ctx.explore("every offset", |ch| {
            let pos = ch.pick(3);
            let top = ch.range(0, 255) as u64;
            let f = ch.of(&fs);
            for low in 0..256u64 {
                let x = top << 8 | low;
                for &p in &GRID[..] {
                    match pos {
                        0 => word(ch, f, x, p, GRID[7] - p),
                        1 => word(ch, f, p, x, GRID[7] - p),
                        _ => word(ch, f, GRID[7] - p, p, x),
                    }
                }
            }
            ch.validated(1);
            ch.state(&(pos, top, f));
        });
        ctx.explore("words wider than an instruction", |ch| {
            let base = ch.of(&[0u64, 0x480680017fff8000, 0x1104800180018000, 0x208b7fff7fff7ffe, 0x0a0680017fff7fff]);
            let k = ch.range(63, 251);
            let j = ch.range(k, 251);
            let two = FE::from(2u64);
            let mut x = FE::from(base) + two.pow(k);
            if j != k {
                x = x + two.pow(j);
            }
            let r = guard(|| CairoInstructionFlags::try_from(&x).is_ok());
            ch.ops(1);
            ch.state(&(base, k, j));
            ch.check(r == Ok(false), "wide-word-accepted", || format!("{base:#x} + 2^{k} (+ 2^{j}) decodes like {base:#x}: {r:?}"));
            for m in [1u64, 2, 1 << 20, base] {
                let x = -FE::from(m + 1);
                let r = guard(|| CairoInstructionFlags::try_from(&x).is_ok());
                ch.check(r == Ok(false), "wide-word-accepted", || format!("-({m}+1): {r:?}"));
            }
            ch.outcome("wide word refused");
        });
        ctx.explore("through a register trace", |ch| {
            // a row whose pc has no instruction, an illegal one, a wide one or a legal one, anywhere among others
            let n = ch.range(1, 4);
            let kinds: Vec<usize> = (0..n).map(|_| ch.pick(5)).collect();
            let mut data = HashMap::new();
            let mut rows = vec![];
            let mut want = Some(vec![]);
            for (i, k) in kinds.iter().enumerate() {
                let pc = 10 * (i as u64 + 1);
                rows.push(RegistersState { pc, ap: 100, fp: 200 });
                let w = match k {
                    0 => Some((0x480680017fff8000u64, true)),
                    1 => Some((0x208b7fff7fff7ffe, true)),
                    2 => Some((0x0c06_8001_7fff_7fff & !(1 << 63) | 3 << 58, false)),
                    3 => Some((0x480680017fff8000 | 1 << 63, false)),
                    _ => None,
                };
                data.insert(pc + 1, FE::from(0x480680017fff8000u64));
                match w {
                    Some((w, ok)) => {
                        data.insert(pc, FE::from(w));
                        if ok {
                            if let Some(v) = want.as_mut() {
                                v.push(spec_flags(w >> 48).unwrap());
                            }
                        } else {
                            want = None;
                        }
                    }
                    None => want = None,
                }
            }
            let states = RegisterStates { rows };
            let mem = CairoMemory::new(data);
            let r = guard(|| states.flags_and_offsets(&mem));
            ch.state(&kinds);
            ch.ops(n as u64);
            ch.validated(1);
            let got = match &r {
                Ok(Ok(v)) => Some(v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()),
                Ok(Err(_)) => None,
                Err(e) => return ch.fail("trace-decode-panics", format!("{kinds:?}: {e}")),
            };
            ch.check(got == want, "trace-decode", || format!("rows {kinds:?}: {got:?} instead of {want:?}"));
            ch.outcome("register trace");
        });
    });
}

//! An independent Cairo machine (whitepaper, sections 4 and 5), the trace rows it implies, and an
//! independent transcription of the Cairo AIR (section 9). Nothing here calls the code under test
//! except to hand it the run.
#![allow(dead_code)]
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField as S;
use lambdaworks_stark::cairo::air::*;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use std::collections::BTreeMap;
use std::ops::Range;

pub type FE = FieldElement<S>;

/// The value of a small field element (an address, a register, a step).
pub fn small(x: &FE) -> Option<u64> {
    let l = x.representative().limbs;
    (l[0] == 0 && l[1] == 0 && l[2] == 0).then_some(l[3])
}
pub fn fe(i: i64) -> FE {
    if i < 0 {
        -FE::from(i.unsigned_abs())
    } else {
        FE::from(i as u64)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op1 {
    Op0,
    Imm,
    Fp,
    Ap,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Res {
    Op1,
    Add,
    Mul,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pc {
    Next,
    Abs,
    Rel,
    Jnz,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ap {
    Same,
    Res,
    One,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Opc {
    Nop,
    Call,
    Ret,
    Assert,
}

/// One instruction.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ins {
    pub dst_fp: bool,
    pub op0_fp: bool,
    pub op1: Op1,
    pub res: Res,
    pub pc: Pc,
    pub ap: Ap,
    pub op: Opc,
    pub off: [i32; 3],
}

impl Ins {
    /// Combinations whose effect the specification leaves undefined.
    pub fn defined(&self) -> bool {
        let jnz = self.pc == Pc::Jnz;
        !(jnz && (self.res != Res::Op1 || self.op != Opc::Nop || self.ap == Ap::Res)) && !(self.op == Opc::Call && self.ap != Ap::Same)
    }
    pub fn bits(&self) -> u64 {
        self.dst_fp as u64
            | (self.op0_fp as u64) << 1
            | match self.op1 {
                Op1::Op0 => 0,
                Op1::Imm => 1 << 2,
                Op1::Fp => 1 << 3,
                Op1::Ap => 1 << 4,
            }
            | match self.res {
                Res::Op1 => 0,
                Res::Add => 1 << 5,
                Res::Mul => 1 << 6,
            }
            | match self.pc {
                Pc::Next => 0,
                Pc::Abs => 1 << 7,
                Pc::Rel => 1 << 8,
                Pc::Jnz => 1 << 9,
            }
            | match self.ap {
                Ap::Same => 0,
                Ap::Res => 1 << 10,
                Ap::One => 1 << 11,
            }
            | match self.op {
                Opc::Nop => 0,
                Opc::Call => 1 << 12,
                Opc::Ret => 1 << 13,
                Opc::Assert => 1 << 14,
            }
    }
    pub fn word(&self) -> u64 {
        let o = |i: usize| (self.off[i] + 0x8000) as u64;
        self.bits() << 48 | o(2) << 32 | o(1) << 16 | o(0)
    }
    pub fn of_word(w: u64) -> Option<Ins> {
        let f = w >> 48;
        let one = |sh: u32, n: u32| -> Option<usize> {
            let v = f >> sh & ((1 << n) - 1);
            match v {
                0 => Some(0),
                1 => Some(1),
                2 => Some(2),
                4 => Some(3),
                _ => None,
            }
        };
        if f >> 15 == 1 {
            return None;
        }
        let o = |sh: u32| (w >> sh & 0xffff) as i32 - 0x8000;
        Some(Ins {
            dst_fp: f & 1 == 1,
            op0_fp: f >> 1 & 1 == 1,
            op1: [Op1::Op0, Op1::Imm, Op1::Fp, Op1::Ap][one(2, 3)?],
            res: [Res::Op1, Res::Add, Res::Mul][one(5, 2)?],
            pc: [Pc::Next, Pc::Abs, Pc::Rel, Pc::Jnz][one(7, 3)?],
            ap: [Ap::Same, Ap::Res, Ap::One][one(10, 2)?],
            op: [Opc::Nop, Opc::Call, Opc::Ret, Opc::Assert][one(12, 3)?],
            off: [o(0), o(16), o(32)],
        })
    }
    pub fn size(&self) -> u64 {
        if self.op1 == Op1::Imm {
            2
        } else {
            1
        }
    }
}

/// `[dst] = [op1]` and friends, as short-hands for the enumerated programs.
pub fn ins(dst: (char, i32), op0: (char, i32), op1: (char, i32), res: Res, pc: Pc, ap: Ap, op: Opc) -> Ins {
    Ins {
        dst_fp: dst.0 == 'f',
        op0_fp: op0.0 == 'f',
        op1: match op1.0 {
            'i' => Op1::Imm,
            'f' => Op1::Fp,
            'a' => Op1::Ap,
            _ => Op1::Op0,
        },
        res,
        pc,
        ap,
        op,
        off: [dst.1, op0.1, op1.1],
    }
}

/// One executed step.
#[derive(Clone, Debug)]
pub struct Step {
    pub ap: u64,
    pub fp: u64,
    pub pc: u64,
    pub ins: Ins,
    pub addr: [u64; 3],
    pub dst: FE,
    pub op0: FE,
    pub op1: FE,
    pub res: FE,
    pub next_pc: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub code_len: u64,
    pub steps: Vec<Step>,
    pub mem: BTreeMap<u64, FE>,
}

/// Executes from `(pc, ap, fp)` over a memory (program included) until `end` is reached or
/// `max` steps were taken; None if the machine could not take a step, or a cell it needs has no
/// value.
pub fn execute(mut mem: BTreeMap<u64, FE>, code_len: u64, start: (u64, u64, u64), end: u64, max: usize) -> Option<Run> {
    let (mut pc, mut ap, mut fp) = start;
    let mut steps = vec![];
    while steps.len() < max {
        let w = small(mem.get(&pc)?)?;
        let i = Ins::of_word(w)?;
        if !i.defined() {
            return None;
        }
        let at = |base: u64, off: i32| base.checked_add_signed(off as i64).filter(|a| *a < 1 << 40);
        let dst_a = at(if i.dst_fp { fp } else { ap }, i.off[0])?;
        let op0_a = at(if i.op0_fp { fp } else { ap }, i.off[1])?;
        let mut op0 = mem.get(&op0_a).copied();
        let mut dst = mem.get(&dst_a).copied();
        if op0.is_none() && i.op == Opc::Call {
            op0 = Some(FE::from(pc + i.size()));
        }
        let op1_a = match i.op1 {
            Op1::Op0 => at(small(&op0?)?, i.off[2])?,
            Op1::Imm => at(pc, i.off[2])?,
            Op1::Fp => at(fp, i.off[2])?,
            Op1::Ap => at(ap, i.off[2])?,
        };
        let mut op1 = mem.get(&op1_a).copied();
        if i.op == Opc::Call && dst.is_none() {
            dst = Some(FE::from(fp));
        }
        if i.op == Opc::Assert {
            // one unknown operand of an assertion takes the only value that satisfies it
            let zero = FE::zero();
            match (i.res, op0, op1, dst) {
                (Res::Op1, _, None, Some(d)) => op1 = Some(d),
                (Res::Add, None, Some(b), Some(d)) => op0 = Some(d - b),
                (Res::Add, Some(a), None, Some(d)) => op1 = Some(d - a),
                (Res::Mul, None, Some(b), Some(d)) if b != zero => op0 = Some(d * b.inv()),
                (Res::Mul, Some(a), None, Some(d)) if a != zero => op1 = Some(d * a.inv()),
                _ => {}
            }
        }
        let (op0, op1) = (op0?, op1?);
        let res = match i.res {
            Res::Op1 => op1,
            Res::Add => op0 + op1,
            Res::Mul => op0 * op1,
        };
        if i.op == Opc::Assert && dst.is_none() {
            dst = Some(res);
        }
        let dst = dst?;
        for (a, v) in [(dst_a, dst), (op0_a, op0), (op1_a, op1)] {
            if *mem.entry(a).or_insert(v) != v {
                return None;
            }
        }
        let next_pc = FE::from(pc)
            + match i.pc {
                Pc::Next => FE::from(i.size()),
                Pc::Abs => res - FE::from(pc),
                Pc::Rel => res,
                Pc::Jnz if dst == FE::zero() => FE::from(i.size()),
                Pc::Jnz => op1,
            };
        let next_ap = FE::from(ap)
            + match (i.op, i.ap) {
                (Opc::Call, _) => FE::from(2u64),
                (_, Ap::Same) => FE::zero(),
                (_, Ap::Res) => res,
                (_, Ap::One) => FE::one(),
            };
        let next_fp = match i.op {
            Opc::Nop | Opc::Assert => FE::from(fp),
            Opc::Call => FE::from(ap + 2),
            Opc::Ret => dst,
        };
        match i.op {
            Opc::Assert if dst != res => return None,
            Opc::Call if dst != FE::from(fp) || op0 != FE::from(pc + i.size()) => return None,
            _ => {}
        }
        // an unused result is stored as the inverse of the tested value
        let shown = if i.pc == Pc::Jnz {
            if dst == FE::zero() {
                dst
            } else {
                dst.inv()
            }
        } else {
            res
        };
        let npc = small(&next_pc);
        steps.push(Step { ap, fp, pc, ins: i, addr: [dst_a, op0_a, op1_a], dst, op0, op1, res: shown, next_pc: npc });
        match npc {
            Some(p) if p == end => break,
            _ if steps.len() == max => break,
            _ => {}
        }
        pc = npc?;
        ap = small(&next_ap).filter(|a| *a < 1 << 40)?;
        fp = small(&next_fp).filter(|a| *a < 1 << 40)?;
    }
    (!steps.is_empty()).then_some(Run { code_len, steps, mem })
}

pub const END: u64 = 1 << 41;

/// A program as the runner starts it: code from 1, then the arguments, the caller's frame pointer
/// and return address, and the frame behind them.
pub fn call_main(code: &[FE], args: &[FE], max: usize) -> Option<Run> {
    let mut mem = BTreeMap::new();
    for (i, w) in code.iter().enumerate() {
        mem.insert(i as u64 + 1, *w);
    }
    let l = code.len() as u64;
    for (i, a) in args.iter().enumerate() {
        mem.insert(l + 1 + i as u64, *a);
    }
    let n = args.len() as u64;
    mem.insert(l + n + 1, FE::from(END));
    mem.insert(l + n + 2, FE::from(END));
    let fp = l + n + 3;
    execute(mem, l, (1, fp, fp), END, max)
}

impl Run {
    pub fn registers(&self) -> RegisterStates {
        RegisterStates { rows: self.steps.iter().map(|s| RegistersState { pc: s.pc, fp: s.fp, ap: s.ap }).collect() }
    }
    pub fn memory(&self) -> CairoMemory {
        CairoMemory::new(self.mem.iter().map(|(a, v)| (*a, *v)).collect())
    }
    pub fn public(&self, rc: Option<Range<u64>>, out: Option<Range<u64>>) -> PublicInputs {
        let mut seg = MemorySegmentMap::new();
        if let Some(r) = rc {
            seg.insert(MemorySegment::RangeCheck, r);
        }
        if let Some(r) = out {
            seg.insert(MemorySegment::Output, r);
        }
        PublicInputs::from_regs_and_mem(&self.registers(), &self.memory(), self.code_len as usize, &seg)
    }
    /// The 34 execution columns of every step, from the definition of each column.
    pub fn rows(&self) -> Vec<Vec<FE>> {
        let last = self.steps.len() - 1;
        self.steps
            .iter()
            .enumerate()
            .map(|(k, s)| {
                let w = s.ins.word();
                let mut r: Vec<FE> = (0..16).map(|b| FE::from(w >> (48 + b) & 1)).collect();
                let u = |x: u64| FE::from(x);
                r.push(s.res);
                r.extend([u(s.ap), u(s.fp), u(s.pc), u(s.addr[0]), u(s.addr[1]), u(s.addr[2])]);
                r.extend([self.mem[&s.pc], s.dst, s.op0, s.op1]);
                r.extend([u(w & 0xffff), u(w >> 16 & 0xffff), u(w >> 32 & 0xffff)]);
                let t0 = if s.ins.pc == Pc::Jnz { s.dst } else { FE::zero() };
                r.extend([t0, t0 * s.res, s.op0 * s.op1, if k == last { FE::zero() } else { FE::one() }]);
                r
            })
            .collect()
    }
}

/// Column names, for keys and messages.
pub fn column(c: usize, rc: bool) -> &'static str {
    const MAIN: [&str; 34] = [
        "flag0", "flag1", "flag2", "flag3", "flag4", "flag5", "flag6", "flag7", "flag8", "flag9", "flag10", "flag11", "flag12", "flag13", "flag14", "flag15",
        "res", "ap", "fp", "pc", "dst_addr", "op0_addr", "op1_addr", "inst", "dst", "op0", "op1", "off_dst", "off_op0", "off_op1", "t0", "t1", "mul", "selector",
    ];
    const RC: [&str; 9] = ["rc0", "rc1", "rc2", "rc3", "rc4", "rc5", "rc6", "rc7", "rc_value"];
    const AUX: [&str; 18] = [
        "sorted_off0", "sorted_off1", "sorted_off2", "sorted_addr0", "sorted_addr1", "sorted_addr2", "sorted_addr3", "sorted_val0", "sorted_val1", "sorted_val2",
        "sorted_val3", "mem_prod0", "mem_prod1", "mem_prod2", "mem_prod3", "off_prod0", "off_prod1", "off_prod2",
    ];
    if c < 34 {
        MAIN[c]
    } else if rc && c < 43 {
        RC[c - 34]
    } else {
        AUX[c - if rc { 43 } else { 34 }]
    }
}

pub struct Coins {
    pub alpha: FE,
    pub z: FE,
    pub zrc: FE,
}
impl Coins {
    pub fn rap(&self) -> CairoRAPChallenges {
        CairoRAPChallenges { alpha_memory: self.alpha, z_memory: self.z, z_range_check: self.zrc }
    }
    pub fn nth(k: usize) -> Coins {
        let f = |s: &str| FE::from_hex(s).unwrap();
        match k {
            0 => Coins { alpha: f("123456789abcdef0fedcba98765432100f1e2d3c4b5a69788796a5b4c3d2e1"), z: f("2b7e151628aed2a6abf7158809cf4f3c762e7160f38b4da56a784d9045190cf"), zrc: f("3243f6a8885a308d313198a2e03707344a4093822299f31d0082efa98ec4e6c") },
            _ => Coins { alpha: f("5be0cd191f83d9ab9b05688c510e527fa54ff53a3c6ef372bb67ae856a09e66"), z: f("428a2f9871374491b5c0fbcfe9b5dba53956c25b59f111f1923f82a4ab1c5ed"), zrc: f("6ca6351e03f8a13c4d1e5c5a0f9b8a7e2d3c4b5a69788796a5b4c3d2e1f0ab1") },
        }
    }
}

/// What a constraint is about and whether it is in force on the last row of the trace.
pub fn constraint(k: usize) -> (&'static str, bool) {
    match k {
        0..=14 => ("flag-bit", true),
        15 => ("flag-15", true),
        16 => ("instruction", true),
        17 => ("dst_addr", true),
        18 => ("op0_addr", true),
        19 => ("op1_addr", true),
        20 => ("next_ap", false),
        21 => ("next_fp", false),
        22 => ("next_pc_1", false),
        23 => ("next_pc_2", false),
        24 => ("t0", true),
        25 => ("t1", true),
        26 => ("mul_1", true),
        27 => ("mul_2", true),
        28 => ("call_1", true),
        29 => ("call_2", true),
        30 => ("assert_eq", true),
        31..=33 => ("addr-continuous", true),
        34 => ("addr-continuous", false),
        35..=37 => ("value-consistent", true),
        38 => ("value-consistent", false),
        39..=41 => ("memory-product", true),
        42 => ("memory-product", false),
        43..=44 => ("offset-continuous", true),
        45 => ("offset-continuous", false),
        46..=48 => ("offset-product", true),
        _ => ("rc-decomposition", true),
    }
}

/// The constraint values on a pair of rows.
pub fn reference(cur: &[FE], next: &[FE], coins: &Coins, rc: bool) -> Vec<FE> {
    let one = FE::one();
    let n = |x: u64| FE::from(x);
    let two16 = n(1 << 16);
    let f = |i: usize| cur[i];
    let mut c = vec![];
    // instruction
    for i in 0..15 {
        c.push(f(i) * f(i) - f(i));
    }
    c.push(f(15));
    let mut word = n(0);
    for i in 0..15 {
        word = word + f(i) * n(1 << i);
    }
    let (res, ap, fp, pc) = (cur[16], cur[17], cur[18], cur[19]);
    let (da, a0, a1, inst, dst, op0, op1) = (cur[20], cur[21], cur[22], cur[23], cur[24], cur[25], cur[26]);
    let (od, o0, o1, t0, t1, mul, sel) = (cur[27], cur[28], cur[29], cur[30], cur[31], cur[32], cur[33]);
    let mut s = vec![];
    s.push(od + two16 * (o0 + two16 * (o1 + two16 * word)) - inst);
    // operands
    let half = n(1 << 15);
    let reg = |b: FE| b * fp + (one - b) * ap;
    s.push(reg(f(0)) + od - half - da);
    s.push(reg(f(1)) + o0 - half - a0);
    let base1 = f(2) * pc + f(4) * ap + f(3) * fp + (one - f(2) - f(4) - f(3)) * op0;
    s.push(base1 + o1 - half - a1);
    // registers
    let size = f(2) + one;
    let (nap, nfp, npc) = (next[17], next[18], next[19]);
    s.push(ap + f(10) * res + f(11) + f(12) * n(2) - nap);
    s.push(f(13) * dst + f(12) * (ap + n(2)) + (one - f(13) - f(12)) * fp - nfp);
    s.push((t1 - f(9)) * (npc - (pc + size)));
    let regular = one - f(7) - f(8) - f(9);
    s.push(t0 * (npc - (pc + op1)) + (one - f(9)) * npc - (regular * (pc + size) + f(7) * res + f(8) * (pc + res)));
    s.push(f(9) * dst - t0);
    s.push(t0 * res - t1);
    // opcodes
    s.push(mul - op0 * op1);
    s.push(f(5) * (op0 + op1) + f(6) * mul + (one - f(5) - f(6) - f(9)) * op1 - (one - f(9)) * res);
    s.push(f(12) * (dst - fp));
    s.push(f(12) * (op0 - (pc + size)));
    s.push(f(14) * (dst - res));
    c.extend(s.into_iter().map(|x| x * sel));
    // memory
    let b = if rc { 43 } else { 34 };
    let off = |r: &[FE], k: usize| r[b + k];
    let addr = |r: &[FE], k: usize| r[b + 3 + k];
    let val = |r: &[FE], k: usize| r[b + 7 + k];
    let mp = |r: &[FE], k: usize| r[b + 11 + k];
    let op = |r: &[FE], k: usize| r[b + 15 + k];
    let sa: Vec<FE> = (0..4).map(|k| addr(cur, k)).chain([addr(next, 0)]).collect();
    let sv: Vec<FE> = (0..4).map(|k| val(cur, k)).chain([val(next, 0)]).collect();
    for k in 0..4 {
        // scaled by -1, as (a - a')(a' - a - 1)
        c.push(-((sa[k + 1] - sa[k]) * (sa[k + 1] - sa[k] - one)));
    }
    for k in 0..4 {
        c.push(-((sv[k + 1] - sv[k]) * (sa[k + 1] - sa[k] - one)));
    }
    let key = |a: FE, v: FE| coins.z - (a + coins.alpha * v);
    let ra = [da, a0, a1, next[19]];
    let rv = [dst, op0, op1, next[23]];
    let pr = [mp(cur, 0), mp(cur, 1), mp(cur, 2), mp(cur, 3), mp(next, 0)];
    for k in 0..4 {
        c.push(key(sa[k + 1], sv[k + 1]) * pr[k + 1] - key(ra[k], rv[k]) * pr[k]);
    }
    // range check of the offsets
    let so = [off(cur, 0), off(cur, 1), off(cur, 2), off(next, 0)];
    for k in 0..3 {
        c.push(-((so[k + 1] - so[k]) * (so[k + 1] - so[k] - one)));
    }
    let ro = [o0, o1, next[27]];
    let pr = [op(cur, 0), op(cur, 1), op(cur, 2), op(next, 0)];
    for k in 0..3 {
        c.push((coins.zrc - so[k + 1]) * pr[k + 1] - (coins.zrc - ro[k]) * pr[k]);
    }
    if rc {
        let mut v = n(0);
        for k in (0..8).rev() {
            v = v * two16 + cur[34 + k];
        }
        c.push(v - cur[42]);
    }
    c
}

/// The claims a valid trace of `rows` rows must meet, as (column, row, value).
pub fn claims(p: &PublicInputs, rows: usize, coins: &Coins, rc: bool) -> Vec<(&'static str, usize, usize, FE)> {
    let b = if rc { 43 } else { 34 };
    let last = rows - 1;
    let mut den = FE::one();
    for (a, v) in &p.public_memory {
        den = den * (coins.z - (*a + coins.alpha * *v));
    }
    let mut num = FE::one();
    for _ in 0..p.public_memory.len() {
        num = num * coins.z;
    }
    vec![
        ("pc_init", 19, 0, p.pc_init),
        ("ap_init", 17, 0, p.ap_init),
        ("pc_final", 19, p.num_steps - 1, p.pc_final),
        ("ap_final", 17, p.num_steps - 1, p.ap_final),
        ("fp_init", 18, 0, p.fp_init),
        ("memory product", b + 14, last, num * den.inv()),
        ("offset product", b + 17, last, FE::one()),
        ("offset minimum", b, 0, FE::from(p.range_check_min.unwrap() as u64)),
        ("offset maximum", b + 2, last, FE::from(p.range_check_max.unwrap() as u64)),
    ]
}

/// The full trace (main columns and auxiliary columns side by side) as the prover commits it.
pub struct Full {
    pub rc: bool,
    pub width: usize,
    pub rows: Vec<Vec<FE>>,
}
pub fn opts(blowup: u8, queries: usize) -> ProofOptions {
    ProofOptions { blowup_factor: blowup, fri_number_of_queries: queries, coset_offset: 3, grinding_factor: 0 }
}
pub fn complete(main: &TraceTable<S>, p: &PublicInputs, coins: &Coins) -> (CairoAIR, Full) {
    let air = CairoAIR::new(main.n_rows(), p, &opts(2, 1));
    let aux = air.build_auxiliary_trace(main, &coins.rap());
    let rows: Vec<Vec<FE>> = (0..main.n_rows()).map(|r| main.get_row(r).iter().chain(aux.get_row(r)).copied().collect()).collect();
    let width = rows[0].len();
    (air, Full { rc: width == 61, width, rows })
}
impl Full {
    /// The real constraint values on row `r` and its successor.
    pub fn real(&self, air: &CairoAIR, r: usize, coins: &Coins) -> Vec<FE> {
        let next = (r + 1) % self.rows.len();
        let mut data = self.rows[r].clone();
        data.extend(self.rows[next].iter().copied());
        air.compute_transition(&Frame::new(data, self.width), &coins.rap())
    }
    pub fn reference(&self, r: usize, coins: &Coins) -> Vec<FE> {
        reference(&self.rows[r], &self.rows[(r + 1) % self.rows.len()], coins, self.rc)
    }
    pub fn in_force(&self, k: usize, r: usize) -> bool {
        constraint(k).1 || r + 1 < self.rows.len()
    }
}

pub const TEMPLATES: usize = 28;
/// The `t`-th instruction of the alphabet; jumps aim at the instruction `skip` words further on.
pub fn template(t: usize, here: u64, next_size: u64) -> (Ins, Option<FE>) {
    use Opc::*;
    let same = Ap::Same;
    let b = ('f', -1);
    let over = |i: &Ins| i.size() + next_size;
    let (i, v): (Ins, Option<i64>) = match t {
        0 => (ins(('a', 0), b, ('i', 1), Res::Op1, Pc::Next, Ap::One, Assert), Some(7)),
        1 => (ins(('a', 0), b, ('f', -5), Res::Op1, Pc::Next, Ap::One, Assert), None),
        2 => (ins(('a', 0), ('a', -1), ('f', -5), Res::Add, Pc::Next, Ap::One, Assert), None),
        3 => (ins(('a', 0), ('a', -1), ('f', -5), Res::Mul, Pc::Next, Ap::One, Assert), None),
        4 => (ins(('a', 0), ('a', -1), ('i', 1), Res::Add, Pc::Next, Ap::One, Assert), Some(3)),
        5 => (ins(('a', 0), ('a', -1), ('i', 1), Res::Mul, Pc::Next, Ap::One, Assert), Some(-2)),
        6 => (ins(('a', 0), ('f', -4), ('p', 0), Res::Op1, Pc::Next, Ap::One, Assert), None),
        7 => (ins(('a', 1), ('f', -4), ('p', 1), Res::Op1, Pc::Next, Ap::Same, Assert), None),
        8 => (ins(('f', -5), ('a', -1), ('a', 0), Res::Add, Pc::Next, Ap::One, Assert), None),
        9 => (ins(b, b, ('i', 1), Res::Op1, Pc::Next, Ap::Res, Nop), Some(2)),
        10 => (ins(b, b, ('f', -5), Res::Op1, Pc::Next, Ap::Res, Nop), None),
        11 => (ins(b, b, ('i', 1), Res::Op1, Pc::Rel, same, Nop), Some(0)),
        12 => (ins(b, b, ('i', 1), Res::Op1, Pc::Abs, same, Nop), Some(0)),
        13 => (ins(('a', -1), b, ('i', 1), Res::Op1, Pc::Jnz, same, Nop), Some(0)),
        14 => (ins(('f', -3), b, ('i', 1), Res::Op1, Pc::Jnz, same, Nop), Some(0)),
        15 => (ins(('f', -5), b, ('i', 1), Res::Op1, Pc::Jnz, Ap::One, Nop), Some(0)),
        16 => (ins(('a', 0), ('a', 1), ('i', 1), Res::Op1, Pc::Rel, same, Call), Some(0)),
        17 => (ins(('a', 0), ('a', 1), ('i', 1), Res::Op1, Pc::Abs, same, Call), Some(0)),
        18 => (ins(('f', -2), b, ('f', -1), Res::Op1, Pc::Abs, same, Ret), None),
        19 => (ins(('f', -5), b, ('i', 1), Res::Op1, Pc::Next, same, Assert), Some(5)),
        20 => (ins(b, b, ('f', -5), Res::Add, Pc::Next, Ap::One, Nop), None),
        21 => (ins(('f', -5), b, ('a', 6), Res::Op1, Pc::Next, same, Assert), None),
        22 => (ins(b, b, ('i', 1), Res::Op1, Pc::Rel, Ap::One, Nop), Some(-2)),
        23 => (ins(('f', -5), ('a', 2), ('f', -5), Res::Mul, Pc::Next, Ap::One, Assert), None),
        24 => (ins(('a', 9), ('f', -3), ('f', -5), Res::Add, Pc::Next, same, Assert), None),
        25 => (ins(('f', -5), ('a', 0), ('i', 1), Res::Add, Pc::Next, Ap::One, Assert), Some(-1)),
        // operands read from the code: the instruction itself, and the word after the immediate
        26 => (ins(('a', 0), b, ('i', 0), Res::Op1, Pc::Next, Ap::One, Assert), Some(9)),
        _ => (ins(('a', 0), ('a', -1), ('i', 2), Res::Add, Pc::Next, Ap::One, Assert), Some(9)),
    };
    let v = match (t, v) {
        (11 | 13 | 14 | 15 | 16, _) => Some(over(&i) as i64),
        (12 | 17, _) => Some((here + over(&i)) as i64),
        (_, v) => v,
    };
    (i, v.map(fe))
}
/// The words of a sequence of templates followed by `ret`.
pub fn assemble(ts: &[usize]) -> Vec<FE> {
    let mut ts = ts.to_vec();
    ts.push(18);
    let size = |t: usize| template(t, 0, 0).0.size();
    let mut words = vec![];
    for (k, t) in ts.iter().enumerate() {
        let next = ts.get(k + 1).map(|t| size(*t)).unwrap_or(0);
        let (i, v) = template(*t, words.len() as u64 + 1, next);
        words.push(FE::from(i.word()));
        if let Some(v) = v {
            words.push(v);
        }
    }
    words
}
pub fn run_of(ts: &[usize], max: usize) -> Option<Run> {
    let code = assemble(ts);
    let l = code.len() as u64;
    // arguments: a number, a pointer to it, and zero
    call_main(&code, &[fe(5), fe(l as i64 + 1), fe(0)], max)
}

/// Every defined combination of sources and update rules as a one-step program with operands that
/// make it executable.
pub fn class(ch: &mut harness::Ch) -> Option<(Run, Ins)> {
    let dst_fp = ch.flag();
    let op0_fp = ch.flag();
    let op1 = ch.of(&[Op1::Op0, Op1::Imm, Op1::Fp, Op1::Ap]);
    let res = ch.of(&[Res::Op1, Res::Add, Res::Mul]);
    let pc = ch.of(&[Pc::Next, Pc::Abs, Pc::Rel, Pc::Jnz]);
    let ap = ch.of(&[Ap::Same, Ap::Res, Ap::One]);
    let op = ch.of(&[Opc::Nop, Opc::Call, Opc::Ret, Opc::Assert]);
    let (ap0, fp0) = (44u64, 31u64);
    let layout = ch.pick(2);
    let (d, a) = if layout == 0 { (25u64, 27u64) } else { (58, 60) };
    let off = |f: bool, at: u64| at as i32 - if f { fp0 } else { ap0 } as i32;
    let mut i = Ins { dst_fp, op0_fp, op1, res, pc, ap, op, off: [off(dst_fp, d), off(op0_fp, a), 0] };
    if !i.defined() {
        return None;
    }
    let b = 29u64;
    // the value the result is to take
    let jump = 12u64;
    let results: Vec<FE> = match (pc, ap) {
        (Pc::Abs, _) => vec![fe(jump as i64)],
        (Pc::Rel, Ap::Res) => vec![fe(jump as i64 - 1)],
        (Pc::Rel, _) => vec![fe(jump as i64 - 1), fe(5)],
        (Pc::Jnz, _) => vec![fe(jump as i64 - 1), fe(i.size() as i64)],
        (_, Ap::Res) => vec![fe(3), fe(0), fe(-2)],
        _ => vec![fe(3), fe(0), fe(-1), FE::from(1u64 << 63) * FE::from(1u64 << 63)],
    };
    let r = ch.of(&results);
    let size = i.size();
    let first: Vec<FE> = if op == Opc::Call {
        vec![fe(1 + size as i64)]
    } else if op1 == Op1::Op0 {
        vec![fe(20), fe(33)]
    } else {
        vec![fe(4), fe(0), fe(-3), FE::from(u64::MAX) * fe(17)]
    };
    let x = ch.of(&first);
    let zero = fe(0);
    let y = match res {
        Res::Op1 => r,
        Res::Add => r - x,
        Res::Mul if x == zero && r == zero => fe(9),
        Res::Mul if x == zero => return None,
        Res::Mul => r * x.inv(),
    };
    let mut mem = std::collections::BTreeMap::new();
    // code: the instruction, maybe its immediate, then a harmless assertion everywhere
    let trivial = ins(('f', -6), ('f', -6), ('f', -6), Res::Op1, Pc::Next, Ap::Same, Opc::Assert);
    for k in 1..=16u64 {
        mem.insert(k, FE::from(trivial.word()));
    }
    let op1_a = match op1 {
        // the word behind the instruction, or any other cell
        Op1::Imm => ch.of(&[2, b]),
        _ => b,
    };
    i.off[2] = match op1 {
        Op1::Imm => op1_a as i32 - 1,
        Op1::Op0 => op1_a as i32 - small(&x).unwrap() as i32,
        Op1::Fp => op1_a as i32 - fp0 as i32,
        Op1::Ap => op1_a as i32 - ap0 as i32,
    };
    mem.insert(1, FE::from(i.word()));
    mem.insert(op1_a, y);
    mem.insert(a, x);
    let dsts = match op {
        Opc::Call => vec![fe(fp0 as i64)],
        Opc::Ret => vec![fe(fp0 as i64), fe(40)],
        Opc::Assert => vec![r],
        Opc::Nop => vec![fe(0), fe(1), fe(-7)],
    };
    let v = ch.of(&dsts);
    mem.insert(d, v);
    // the harmless assertion reads the frame, wherever that is by then
    for f in [fp0, 40, ap0 + 2] {
        mem.entry(f - 6).or_insert(fe(77));
    }
    let steps = ch.range(2, 3);
    let run = execute(mem, 16, (1, ap0, fp0), END, steps)?;
    Some((run, i))
}


/// A compiled program as the runner reads it.
pub fn json(words: &[FE], builtins: &[&str], entries: &[(&str, usize)]) -> Vec<u8> {
    let data: Vec<String> = words.iter().map(|w| format!("{:#x}", Hex(*w))).collect();
    let ids: serde_json::Map<String, serde_json::Value> = entries.iter().map(|(n, pc)| (format!("__main__.{n}"), serde_json::json!({"pc": pc, "type": "function"}))).collect();
    serde_json::to_vec(&serde_json::json!({"data": data, "builtins": builtins, "identifiers": ids, "hints": {}})).unwrap()
}
struct Hex(FE);
impl std::fmt::LowerHex for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "0x")?;
        for l in self.0.representative().limbs {
            write!(f, "{l:016x}")?;
        }
        Ok(())
    }
}

/// `main` that writes the values to the output segment, range-checks the others, and returns.
/// `None` leaves a builtin out altogether.
pub fn builtin_main(out: Option<&[FE]>, rc: Option<&[FE]>, pad: usize) -> (Vec<FE>, Vec<&'static str>) {
    let (mut code, mut names) = (vec![], vec![]);
    let push = |code: &mut Vec<FE>, v: FE| {
        code.push(FE::from(ins(('a', 0), ('f', -1), ('i', 1), Res::Op1, Pc::Next, Ap::One, Opc::Assert).word()));
        code.push(v);
    };
    let at = |first: bool| if first && rc.is_some() { -4 } else { -3 };
    let mut ends = vec![];
    for (kind, vals) in [("output", out), ("range_check", rc)] {
        let Some(vals) = vals else { continue };
        names.push(kind);
        let ptr = at(kind == "output");
        for (k, v) in vals.iter().enumerate() {
            push(&mut code, *v);
            code.push(FE::from(ins(('a', -1), ('f', ptr), ('p', k as i32), Res::Op1, Pc::Next, Ap::Same, Opc::Assert).word()));
        }
        ends.push((ptr, vals.len()));
    }
    for _ in 0..pad {
        push(&mut code, fe(3));
    }
    for (ptr, n) in ends {
        // [ap] = [fp + ptr] + n
        code.push(FE::from(ins(('a', 0), ('f', ptr), ('i', 1), Res::Add, Pc::Next, Ap::One, Opc::Assert).word()));
        code.push(fe(n as i64));
    }
    code.push(FE::from(template(18, 0, 0).0.word()));
    (code, names)
}

use super::errors::{memory_errors::MemoryError, trace_errors::TraceError, vm_errors::VirtualMachineError};
use super::trace::trace_entry::TraceEntry;
use crate::felt::{Felt252, Inner};
use crate::serde::deserialize_program::BuiltinName;
use crate::types::relocatable::{MaybeRelocatable, MathError, Relocatable};
use serde_json::Value;

type VmResult<T> = Result<T, VirtualMachineError>;

fn err<T>(s: impl Into<String>) -> VmResult<T> {
    Err(VirtualMachineError::Other(s.into()))
}

#[derive(Clone, Debug)]
pub struct BuiltinRunner {
    pub kind: BuiltinName,
    pub included: bool,
    pub base: usize,
    pub stop_ptr: Option<usize>,
}
impl BuiltinRunner {
    pub fn name(&self) -> &'static str {
        self.kind.name()
    }
    pub fn initial_stack(&self) -> Vec<MaybeRelocatable> {
        if self.included {
            vec![MaybeRelocatable::from(Relocatable::from((self.base as isize, 0)))]
        } else {
            vec![]
        }
    }
    /// (segment index, offset at which the program left the builtin pointer)
    pub fn get_memory_segment_addresses(&self) -> (usize, Option<usize>) {
        (self.base, self.stop_ptr)
    }
}
pub type RangeCheckBuiltinRunner = BuiltinRunner;

pub struct VirtualMachine {
    pub(crate) segments: Vec<Vec<Option<MaybeRelocatable>>>,
    pub(crate) builtin_runners: Vec<BuiltinRunner>,
    pub(crate) trace: Vec<(Relocatable, Relocatable, Relocatable)>, // pc, ap, fp
    pub(crate) relocated_trace: Option<Vec<TraceEntry>>,
    pub(crate) pc: Relocatable,
    pub(crate) ap: Relocatable,
    pub(crate) fp: Relocatable,
    pub(crate) trace_enabled: bool,
    pub(crate) trace_fault: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Op {
    Nop,
    Call,
    Ret,
    AssertEq,
}

impl VirtualMachine {
    pub fn new(trace_enabled: bool) -> Self {
        let z = Relocatable::default();
        Self {
            segments: vec![],
            builtin_runners: vec![],
            trace: vec![],
            relocated_trace: None,
            pc: z,
            ap: z,
            fp: z,
            trace_enabled,
            trace_fault: false,
        }
    }
    pub fn add_memory_segment(&mut self) -> Relocatable {
        self.segments.push(vec![]);
        Relocatable::from((self.segments.len() as isize - 1, 0))
    }
    pub fn get_builtin_runners(&self) -> &Vec<BuiltinRunner> {
        &self.builtin_runners
    }
    pub fn get_range_check_builtin(&self) -> VmResult<&RangeCheckBuiltinRunner> {
        self.builtin_runners
            .iter()
            .find(|b| b.kind == BuiltinName::range_check)
            .ok_or(VirtualMachineError::NoRangeCheckBuiltin("range_check"))
    }
    pub fn get_segment_size(&self, index: usize) -> Option<usize> {
        self.segments.get(index).map(|s| s.len())
    }
    pub fn get_segment_used_size(&self, index: usize) -> Option<usize> {
        self.get_segment_size(index)
    }
    pub fn get_relocated_trace(&self) -> Result<&Vec<TraceEntry>, TraceError> {
        if self.trace_fault {
            return Err(TraceError::TraceNotRelocated);
        }
        self.relocated_trace.as_ref().ok_or(TraceError::TraceNotRelocated)
    }
    pub fn load_data(&mut self, ptr: Relocatable, data: &Vec<MaybeRelocatable>) -> Result<Relocatable, MemoryError> {
        if crate::hooks::load_hit() {
            return Err(MemoryError::Other("injected failure".into()));
        }
        self.load(ptr, data).map_err(|e| MemoryError::Other(e.to_string()))
    }
    pub(crate) fn load(&mut self, ptr: Relocatable, data: &Vec<MaybeRelocatable>) -> VmResult<Relocatable> {
        for (i, d) in data.iter().enumerate() {
            self.set(Relocatable { offset: ptr.offset + i, ..ptr }, d.clone())?;
        }
        Ok(Relocatable { offset: ptr.offset + data.len(), ..ptr })
    }
    pub fn get(&self, a: &Relocatable) -> Option<&MaybeRelocatable> {
        self.segments.get(a.segment_index as usize)?.get(a.offset)?.as_ref()
    }
    pub fn set(&mut self, a: Relocatable, v: MaybeRelocatable) -> VmResult<()> {
        if a.segment_index < 0 || a.segment_index as usize >= self.segments.len() {
            return err("bad segment");
        }
        if a.offset > 1 << 24 {
            return err("offset too large");
        }
        let seg = &mut self.segments[a.segment_index as usize];
        if seg.len() <= a.offset {
            seg.resize(a.offset + 1, None);
        }
        match &seg[a.offset] {
            Some(old) if *old != v => err("inconsistent memory"),
            _ => {
                seg[a.offset] = Some(v);
                Ok(())
            }
        }
    }

    fn off(base: &Relocatable, off: i64) -> VmResult<Relocatable> {
        let o = base.offset as i64 + off;
        if o < 0 {
            return err("negative offset");
        }
        Ok(Relocatable { offset: o as usize, ..*base })
    }
    fn add(a: &MaybeRelocatable, b: &MaybeRelocatable) -> VmResult<MaybeRelocatable> {
        use MaybeRelocatable::*;
        match (a, b) {
            (Int(x), Int(y)) => Ok(Int(Felt252(&x.0 + &y.0))),
            (RelocatableValue(r), Int(i)) | (Int(i), RelocatableValue(r)) => {
                let s = &Inner::from(r.offset as u64) + &i.0;
                match Felt252(s).to_usize() {
                    Some(o) => Ok(RelocatableValue(Relocatable { offset: o, ..*r })),
                    None => err("relocatable addition out of range"),
                }
            }
            _ => err("adding two relocatables"),
        }
    }
    fn sub(a: &MaybeRelocatable, b: &MaybeRelocatable) -> VmResult<MaybeRelocatable> {
        use MaybeRelocatable::*;
        match (a, b) {
            (Int(x), Int(y)) => Ok(Int(Felt252(&x.0 - &y.0))),
            (RelocatableValue(r), RelocatableValue(s)) if r.segment_index == s.segment_index => {
                Ok(Int(Felt252(&Inner::from(r.offset as u64) - &Inner::from(s.offset as u64))))
            }
            (RelocatableValue(r), Int(i)) => {
                let s = &Inner::from(r.offset as u64) - &i.0;
                match Felt252(s).to_usize() {
                    Some(o) => Ok(RelocatableValue(Relocatable { offset: o, ..*r })),
                    None => err("relocatable subtraction out of range"),
                }
            }
            _ => err("bad subtraction"),
        }
    }
    fn mul(a: &MaybeRelocatable, b: &MaybeRelocatable) -> VmResult<MaybeRelocatable> {
        use MaybeRelocatable::*;
        match (a, b) {
            (Int(x), Int(y)) => Ok(Int(Felt252(&x.0 * &y.0))),
            _ => err("multiplying relocatables"),
        }
    }

    /// Writes a value, or leaves it unset when it is unknown.
    pub fn step(&mut self) -> VmResult<()> {
        use MaybeRelocatable::*;
        let word = match self.get(&self.pc) {
            Some(Int(f)) => f.to_usize().ok_or(VirtualMachineError::Other("instruction too large".into()))? as u64,
            _ => return err("no instruction at pc"),
        };
        if word >> 63 != 0 {
            return err("high bit of instruction");
        }
        let o = |sh: u32| ((word >> sh) & 0xffff) as i64 - 0x8000;
        let (off_dst, off_op0, off_op1) = (o(0), o(16), o(32));
        let flag = |i: u32| (word >> (48 + i)) & 1 == 1;
        let dst_fp = flag(0);
        let op0_fp = flag(1);
        let op1_src = (word >> 50) & 7;
        let res_logic = (word >> 53) & 3;
        let pc_update = (word >> 55) & 7;
        let ap_update = (word >> 58) & 3;
        let opcode = match (word >> 60) & 7 {
            0 => Op::Nop,
            1 => Op::Call,
            2 => Op::Ret,
            4 => Op::AssertEq,
            _ => return err("invalid opcode"),
        };
        if !matches!(op1_src, 0 | 1 | 2 | 4) {
            return err("invalid op1");
        }
        if res_logic == 3 {
            return err("invalid res");
        }
        if !matches!(pc_update, 0 | 1 | 2 | 4) {
            return err("invalid pc update");
        }
        if ap_update == 3 {
            return err("invalid ap update");
        }
        let size = if op1_src == 1 { 2 } else { 1 };

        let dst_addr = Self::off(if dst_fp { &self.fp } else { &self.ap }, off_dst)?;
        let op0_addr = Self::off(if op0_fp { &self.fp } else { &self.ap }, off_op0)?;
        let mut dst = self.get(&dst_addr).cloned();
        let mut op0 = self.get(&op0_addr).cloned();
        let op1_addr = match op1_src {
            0 => match &op0 {
                Some(RelocatableValue(r)) => Self::off(r, off_op1)?,
                _ => return err("op0 is not an address"),
            },
            1 => {
                if off_op1 != 1 {
                    return err("immediate offset");
                }
                Self::off(&self.pc, off_op1)?
            }
            2 => Self::off(&self.fp, off_op1)?,
            _ => Self::off(&self.ap, off_op1)?,
        };
        let mut op1 = self.get(&op1_addr).cloned();
        let return_pc = RelocatableValue(Self::off(&self.pc, size)?);

        // deduce op0
        if op0.is_none() {
            match opcode {
                Op::Call => op0 = Some(return_pc.clone()),
                Op::AssertEq => {
                    if let (Some(d), Some(b)) = (&dst, &op1) {
                        op0 = match res_logic {
                            1 => Some(Self::sub(d, b)?),
                            2 => match (d, b) {
                                (Int(x), Int(y)) if !y.is_zero() => Some(Int(Felt252(&x.0 / &y.0))),
                                _ => None,
                            },
                            _ => None,
                        };
                    }
                }
                _ => {}
            }
        }
        // deduce op1
        if op1.is_none() && opcode == Op::AssertEq {
            if let Some(d) = &dst {
                op1 = match (res_logic, &op0) {
                    (0, _) => Some(d.clone()),
                    (1, Some(a)) => Some(Self::sub(d, a)?),
                    (2, Some(Int(a))) if !a.is_zero() => match d {
                        Int(x) => Some(Int(Felt252(&x.0 / &a.0))),
                        _ => None,
                    },
                    _ => None,
                };
            }
        }
        let op0 = match op0 {
            Some(v) => v,
            None => return err("cannot deduce op0"),
        };
        let op1 = match op1 {
            Some(v) => v,
            None => return err("cannot deduce op1"),
        };
        let res = if pc_update == 4 {
            None
        } else {
            Some(match res_logic {
                0 => op1.clone(),
                1 => Self::add(&op0, &op1)?,
                _ => Self::mul(&op0, &op1)?,
            })
        };
        if dst.is_none() {
            dst = match opcode {
                Op::AssertEq => res.clone(),
                Op::Call => Some(RelocatableValue(self.fp)),
                _ => None,
            };
        }
        let dst = match dst {
            Some(v) => v,
            None => return err("no dst"),
        };
        self.set(dst_addr, dst.clone())?;
        self.set(op0_addr, op0.clone())?;
        self.set(op1_addr, op1.clone())?;

        match opcode {
            Op::AssertEq => {
                if res.as_ref() != Some(&dst) {
                    return err("assert_eq failed");
                }
            }
            Op::Call => {
                if op0 != return_pc {
                    return err("call: wrong return pc");
                }
                if dst != RelocatableValue(self.fp) {
                    return err("call: wrong return fp");
                }
            }
            _ => {}
        }
        if self.trace_enabled {
            self.trace.push((self.pc, self.ap, self.fp));
        }
        let new_ap = match (opcode, ap_update) {
            (Op::Call, 0) => Self::off(&self.ap, 2)?,
            (Op::Call, _) => return err("call with ap update"),
            (_, 0) => self.ap,
            (_, 1) => match &res {
                Some(Int(f)) => match Self::add(&RelocatableValue(self.ap), &Int(f.clone()))? {
                    RelocatableValue(r) => r,
                    _ => unreachable!(),
                },
                _ => return err("ap += non integer"),
            },
            (_, _) => Self::off(&self.ap, 1)?,
        };
        let new_fp = match opcode {
            Op::Call => Self::off(&self.ap, 2)?,
            Op::Ret => match &dst {
                RelocatableValue(r) => *r,
                Int(_) => return err("ret: fp not relocatable"),
            },
            _ => self.fp,
        };
        let new_pc = match pc_update {
            0 => Self::off(&self.pc, size)?,
            1 => match &res {
                Some(RelocatableValue(r)) => *r,
                _ => return err("jump abs to non relocatable"),
            },
            2 => match &res {
                Some(Int(_)) => match Self::add(&RelocatableValue(self.pc), res.as_ref().unwrap())? {
                    RelocatableValue(r) => r,
                    _ => unreachable!(),
                },
                _ => return err("jump rel by non integer"),
            },
            _ => {
                let zero = matches!(&dst, Int(f) if f.is_zero());
                if zero {
                    Self::off(&self.pc, size)?
                } else {
                    match Self::add(&RelocatableValue(self.pc), &op1)? {
                        RelocatableValue(r) => r,
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.pc = new_pc;
        self.ap = new_ap;
        self.fp = new_fp;
        Ok(())
    }

    fn cell(&self, v: &Value) -> Option<Relocatable> {
        let base = match v.get("register")?.as_str()? {
            "AP" => &self.ap,
            "FP" => &self.fp,
            _ => return None,
        };
        Self::off(base, v.get("offset")?.as_i64()?).ok()
    }
    fn operand(&self, v: &Value) -> Option<Felt252> {
        if let Some(i) = v.get("Immediate") {
            return Felt252::from_hex(i.as_str()?);
        }
        match self.get(&self.cell(v.get("Deref")?)?)? {
            MaybeRelocatable::Int(f) => Some(f.clone()),
            _ => None,
        }
    }
    /// The two Cairo 1 hints that occur in straight programs.
    pub(crate) fn run_hint(&mut self, h: &Value) -> VmResult<()> {
        if let Some(t) = h.get("TestLessThanOrEqual").or(h.get("TestLessThan")) {
            let strict = h.get("TestLessThan").is_some();
            let (a, b) = match (self.operand(&t["lhs"]), self.operand(&t["rhs"])) {
                (Some(a), Some(b)) => (a, b),
                _ => return err("hint operand"),
            };
            let (a, b) = (a.0.representative(), b.0.representative());
            let r = if strict { a < b } else { a <= b };
            let dst = self.cell(&t["dst"]).ok_or(VirtualMachineError::Other("hint dst".into()))?;
            return self.set(dst, MaybeRelocatable::from(r as usize));
        }
        if let Some(t) = h.get("AllocSegment") {
            let s = self.add_memory_segment();
            let dst = self.cell(&t["dst"]).ok_or(VirtualMachineError::Other("hint dst".into()))?;
            return self.set(dst, s.into());
        }
        err(format!("unknown hint {h}"))
    }

    pub(crate) fn verify_range_checks(&self) -> VmResult<()> {
        for b in &self.builtin_runners {
            if b.kind == BuiltinName::range_check {
                for v in self.segments[b.base].iter().flatten() {
                    match v {
                        MaybeRelocatable::Int(f) => {
                            let r = f.0.representative();
                            if r.limbs[0] != 0 || r.limbs[1] != 0 {
                                return err("range check value out of bounds");
                            }
                        }
                        _ => return err("range check of a relocatable"),
                    }
                }
            }
        }
        Ok(())
    }

    pub(crate) fn relocate_all(&mut self, relocated_memory: &mut Vec<Option<Felt252>>) {
        let mut bases = vec![];
        let mut b = 1usize;
        for s in &self.segments {
            bases.push(b);
            b += s.len();
        }
        let rel = |r: &Relocatable| bases[r.segment_index as usize] + r.offset;
        relocated_memory.clear();
        relocated_memory.push(None);
        for s in &self.segments {
            for c in s {
                relocated_memory.push(c.as_ref().map(|c| match c {
                    MaybeRelocatable::Int(f) => f.clone(),
                    MaybeRelocatable::RelocatableValue(r) => Felt252::from(rel(r)),
                }));
            }
        }
        if !self.trace_enabled {
            return;
        }
        self.relocated_trace = Some(
            self.trace
                .iter()
                .map(|(pc, ap, fp)| TraceEntry { pc: rel(pc), ap: rel(ap), fp: rel(fp) })
                .collect(),
        );
    }
}

impl From<MathError> for VirtualMachineError {
    fn from(e: MathError) -> Self {
        VirtualMachineError::Other(e.0)
    }
}

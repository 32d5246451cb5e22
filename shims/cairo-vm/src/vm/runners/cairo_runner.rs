use crate::felt::Felt252;
use crate::hooks::{self, Fault};
use crate::hint_processor::cairo_1_hint_processor::hint_processor::Cairo1HintProcessor;
use crate::serde::deserialize_program::BuiltinName;
use crate::types::program::Program;
use crate::types::relocatable::{MaybeRelocatable, Relocatable};
use crate::vm::errors::cairo_run_errors::CairoRunError;
use crate::vm::errors::runner_errors::RunnerError;
use crate::vm::errors::trace_errors::TraceError;
use crate::vm::errors::vm_errors::VirtualMachineError;
use crate::vm::vm_core::{BuiltinRunner, VirtualMachine};

#[derive(Clone, Debug)]
pub enum CairoArg {
    Single(MaybeRelocatable),
    Array(Vec<MaybeRelocatable>),
}
impl From<MaybeRelocatable> for CairoArg {
    fn from(v: MaybeRelocatable) -> Self {
        CairoArg::Single(v)
    }
}

#[derive(Clone, Debug, Default)]
pub struct RunResources {
    pub n_steps: Option<usize>,
}

pub struct CairoRunner {
    program: Program,
    layout: String,
    pub program_base: Option<Relocatable>,
    pub execution_base: Option<Relocatable>,
    pub relocated_memory: Vec<Option<Felt252>>,
}

pub(crate) fn layout_builtins(layout: &str) -> Option<Vec<BuiltinName>> {
    use BuiltinName::*;
    Some(match layout {
        "plain" => vec![],
        "small" | "dex" => vec![output, pedersen, range_check, ecdsa],
        "recursive" | "recursive_large_output" => vec![output, pedersen, range_check, bitwise],
        "starknet" => vec![output, pedersen, range_check, ecdsa, bitwise, ec_op, poseidon],
        "starknet_with_keccak" => vec![output, pedersen, range_check, ecdsa, bitwise, ec_op, keccak, poseidon],
        "all_cairo" => vec![output, pedersen, range_check, ecdsa, bitwise, ec_op, keccak, poseidon],
        "all_solidity" => vec![output, pedersen, range_check, ecdsa, bitwise, ec_op],
        "dynamic" => vec![output, pedersen, range_check, ecdsa, bitwise, ec_op],
        _ => return None,
    })
}

impl CairoRunner {
    pub fn new(program: &Program, layout: &str, _proof_mode: bool) -> Result<Self, RunnerError> {
        hooks::LAST_LAYOUT.with(|l| *l.borrow_mut() = Some(layout.to_string()));
        if hooks::hit(Fault::New) {
            return Err(RunnerError::Other("injected failure".into()));
        }
        if layout_builtins(layout).is_none() {
            return Err(RunnerError::Other(format!("Invalid layout {layout}")));
        }
        Ok(Self {
            program: program.clone(),
            layout: layout.to_string(),
            program_base: None,
            execution_base: None,
            relocated_memory: vec![],
        })
    }
    pub fn get_program(&self) -> &Program {
        &self.program
    }
    pub fn get_program_builtins(&self) -> &Vec<BuiltinName> {
        &self.program.builtins
    }
    pub fn initialize_builtins(&mut self, vm: &mut VirtualMachine) -> Result<(), RunnerError> {
        if hooks::hit(Fault::Init) {
            return Err(RunnerError::Other("injected failure".into()));
        }
        let available = layout_builtins(&self.layout).unwrap_or_default();
        for b in &self.program.builtins {
            if !available.contains(b) {
                return Err(RunnerError::Other(format!("Builtin {} not in layout", b.name())));
            }
        }
        for kind in available {
            if self.program.builtins.contains(&kind) {
                vm.builtin_runners.push(BuiltinRunner { kind, included: true, base: 0, stop_ptr: None });
            }
        }
        Ok(())
    }
    pub fn initialize_segments(&mut self, vm: &mut VirtualMachine) {
        self.program_base = Some(vm.add_memory_segment());
        self.execution_base = Some(vm.add_memory_segment());
        for i in 0..vm.builtin_runners.len() {
            let s = vm.add_memory_segment();
            vm.builtin_runners[i].base = s.segment_index as usize;
        }
    }
    pub fn initialize_function_runner_cairo_1(
        &mut self,
        vm: &mut VirtualMachine,
        program_builtins: &[BuiltinName],
    ) -> Result<(), RunnerError> {
        if hooks::hit(Fault::Init) {
            return Err(RunnerError::Other("injected failure".into()));
        }
        self.program.builtins = program_builtins.to_vec();
        for kind in program_builtins {
            vm.builtin_runners.push(BuiltinRunner { kind: *kind, included: true, base: 0, stop_ptr: None });
        }
        self.initialize_segments(vm);
        vm.load(self.program_base.unwrap(), &self.program.data.clone())
            .map_err(|e| RunnerError::Other(e.to_string()))?;
        Ok(())
    }

    fn execute(
        &mut self,
        entry: usize,
        mut stack: Vec<MaybeRelocatable>,
        vm: &mut VirtualMachine,
        hints: &[(usize, Vec<serde_json::Value>)],
    ) -> Result<(), VirtualMachineError> {
        let base = self.execution_base.unwrap();
        let program_base = self.program_base.unwrap();
        let return_fp = vm.add_memory_segment();
        let end = vm.add_memory_segment();
        stack.push(return_fp.into());
        stack.push(end.into());
        vm.load(program_base, &self.program.data.clone())?;
        let fp = vm.load(base, &stack)?;
        vm.fp = fp;
        vm.ap = fp;
        vm.pc = (program_base + entry)?;
        let max = crate::hooks::MAX_STEPS.with(|m| *m.borrow());
        let mut steps = 0;
        while vm.pc != end {
            if steps >= max {
                return Err(VirtualMachineError::Other("step limit".into()));
            }
            if vm.pc.segment_index == program_base.segment_index {
                if let Some((_, hs)) = hints.iter().find(|(pc, _)| *pc == vm.pc.offset) {
                    for h in hs {
                        vm.run_hint(h)?;
                    }
                }
            }
            vm.step()?;
            steps += 1;
        }
        vm.verify_range_checks()
    }

    pub(crate) fn run_main(&mut self, entry: usize, vm: &mut VirtualMachine) -> Result<(), VirtualMachineError> {
        let stack = vm.builtin_runners.iter().flat_map(|b| b.initial_stack()).collect();
        self.execute(entry, stack, vm, &[])
    }

    pub(crate) fn read_return_values(&mut self, vm: &mut VirtualMachine) -> Result<(), RunnerError> {
        let mut ptr = vm.ap;
        for i in (0..vm.builtin_runners.len()).rev() {
            ptr.offset = ptr.offset.checked_sub(1).ok_or(RunnerError::Other("no stop pointer".into()))?;
            let b = &vm.builtin_runners[i];
            match vm.get(&ptr) {
                Some(MaybeRelocatable::RelocatableValue(r)) if r.segment_index as usize == b.base => {
                    let stop = r.offset;
                    let used = vm.segments[b.base].len();
                    if stop != used {
                        return Err(RunnerError::Other(format!("invalid stop pointer for {}", b.name())));
                    }
                    vm.builtin_runners[i].stop_ptr = Some(stop);
                }
                _ => return Err(RunnerError::Other(format!("no stop pointer for {}", b.name()))),
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    pub fn run_from_entrypoint(
        &mut self,
        entrypoint: usize,
        args: &[&CairoArg],
        _run_resources: &mut RunResources,
        _verify_secure: bool,
        _program_segment_size: Option<usize>,
        vm: &mut VirtualMachine,
        hint_processor: &mut Cairo1HintProcessor,
    ) -> Result<(), CairoRunError> {
        if hooks::hit(Fault::Run) {
            return Err(CairoRunError::Injected("run".into()));
        }
        let mut stack = vec![];
        for a in args {
            match a {
                CairoArg::Single(m) => stack.push(m.clone()),
                CairoArg::Array(v) => stack.extend(v.iter().cloned()),
            }
        }
        let hints = hint_processor.hints.clone();
        Ok(self.execute(entrypoint, stack, vm, &hints)?)
    }

    pub fn relocate(&mut self, vm: &mut VirtualMachine, _relocate_mem: bool) -> Result<(), TraceError> {
        if hooks::hit(Fault::Relocate) {
            return Err(TraceError::MemoryError);
        }
        vm.relocate_all(&mut self.relocated_memory);
        if hooks::hit(Fault::Trace) {
            vm.trace_fault = true;
        }
        Ok(())
    }
}

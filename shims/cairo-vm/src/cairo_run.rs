use crate::hint_processor::builtin_hint_processor::builtin_hint_processor_definition::BuiltinHintProcessor;
use crate::hooks::{self, Fault, RunRecord};
use crate::types::errors::program_errors::ProgramError;
use crate::types::program::Program;
use crate::vm::errors::cairo_run_errors::CairoRunError;
use crate::vm::runners::cairo_runner::CairoRunner;
use crate::vm::vm_core::VirtualMachine;

#[derive(Debug, thiserror::Error)]
#[error("Failed to encode trace at position {0}")]
pub struct EncodeTraceError(pub usize);

pub struct CairoRunConfig<'a> {
    pub entrypoint: &'a str,
    pub trace_enabled: bool,
    pub relocate_mem: bool,
    pub layout: &'a str,
    pub proof_mode: bool,
    pub secure_run: Option<bool>,
}

impl<'a> Default for CairoRunConfig<'a> {
    fn default() -> Self {
        CairoRunConfig {
            entrypoint: "main",
            trace_enabled: false,
            relocate_mem: false,
            layout: "plain",
            proof_mode: false,
            secure_run: None,
        }
    }
}

pub fn cairo_run(
    program_content: &[u8],
    cairo_run_config: &CairoRunConfig,
    _hint_executor: &mut BuiltinHintProcessor,
) -> Result<(CairoRunner, VirtualMachine), CairoRunError> {
    let c = cairo_run_config;
    hooks::LAST_RUN.with(|l| {
        *l.borrow_mut() = Some(RunRecord {
            entrypoint: c.entrypoint.to_string(),
            layout: c.layout.to_string(),
            trace_enabled: c.trace_enabled,
            relocate_mem: c.relocate_mem,
            proof_mode: c.proof_mode,
        })
    });
    if hooks::hit(Fault::Run) {
        return Err(CairoRunError::Injected("run".into()));
    }
    let program = Program::from_json(program_content).map_err(|e| CairoRunError::Program(ProgramError::Other(e)))?;
    if program.has_hints {
        return Err(CairoRunError::Program(ProgramError::Other("hints are not supported by this stand-in".into())));
    }
    let entry = *program
        .identifiers
        .get(&format!("__main__.{}", c.entrypoint))
        .ok_or_else(|| CairoRunError::Program(ProgramError::EntrypointNotFound(c.entrypoint.to_string())))?;
    let mut runner = CairoRunner::new(&program, c.layout, c.proof_mode)?;
    let mut vm = VirtualMachine::new(c.trace_enabled);
    runner.initialize_builtins(&mut vm)?;
    runner.initialize_segments(&mut vm);
    runner.run_main(entry, &mut vm)?;
    runner.read_return_values(&mut vm)?;
    if c.relocate_mem {
        runner.relocate(&mut vm, true)?;
    }
    if hooks::hit(Fault::Trace) {
        vm.trace_fault = true;
    }
    Ok((runner, vm))
}

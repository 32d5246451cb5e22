//! Stand-in for cairo-vm 0.6.0: a small Cairo virtual machine with the public names the repository
//! uses.  `hooks` records the configuration of the last run and can inject failures.
pub mod cairo_run;
pub mod felt;
pub mod hooks;

pub mod serde {
    pub mod deserialize_program {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum BuiltinName {
            output,
            range_check,
            pedersen,
            ecdsa,
            keccak,
            bitwise,
            ec_op,
            poseidon,
            segment_arena,
        }
        impl BuiltinName {
            pub fn name(&self) -> &'static str {
                match self {
                    BuiltinName::output => "output_builtin",
                    BuiltinName::range_check => "range_check_builtin",
                    BuiltinName::pedersen => "pedersen_builtin",
                    BuiltinName::ecdsa => "ecdsa_builtin",
                    BuiltinName::keccak => "keccak_builtin",
                    BuiltinName::bitwise => "bitwise_builtin",
                    BuiltinName::ec_op => "ec_op_builtin",
                    BuiltinName::poseidon => "poseidon_builtin",
                    BuiltinName::segment_arena => "segment_arena_builtin",
                }
            }
            pub fn from_program_name(s: &str) -> Option<Self> {
                Some(match s {
                    "output" => BuiltinName::output,
                    "range_check" => BuiltinName::range_check,
                    "pedersen" => BuiltinName::pedersen,
                    "ecdsa" => BuiltinName::ecdsa,
                    "keccak" => BuiltinName::keccak,
                    "bitwise" => BuiltinName::bitwise,
                    "ec_op" => BuiltinName::ec_op,
                    "poseidon" => BuiltinName::poseidon,
                    _ => return None,
                })
            }
        }
    }
}

pub mod hint_processor {
    pub mod builtin_hint_processor {
        pub mod builtin_hint_processor_definition {
            pub struct BuiltinHintProcessor;
            impl BuiltinHintProcessor {
                pub fn new_empty() -> Self {
                    Self
                }
            }
        }
    }
    pub mod cairo_1_hint_processor {
        pub mod hint_processor {
            pub struct Cairo1HintProcessor {
                pub hints: Vec<(usize, Vec<serde_json::Value>)>,
            }
            impl Cairo1HintProcessor {
                pub fn new(hints: &[(usize, Vec<serde_json::Value>)]) -> Self {
                    Self { hints: hints.to_vec() }
                }
            }
        }
    }
}

pub mod types {
    pub mod errors {
        pub mod math_errors {
            pub use crate::types::relocatable::MathError;
        }
        pub mod program_errors {
            #[derive(Debug, thiserror::Error)]
            pub enum ProgramError {
                #[error(transparent)]
                IO(#[from] std::io::Error),
                #[error(transparent)]
                Parse(#[from] serde_json::Error),
                #[error("Entrypoint {0} not found")]
                EntrypointNotFound(String),
                #[error("{0}")]
                Other(String),
            }
        }
    }
    pub mod program;
    pub mod relocatable;
}

pub mod vm {
    pub mod errors {
        pub mod cairo_run_errors {
            use super::memory_errors::MemoryError;
            use super::runner_errors::RunnerError;
            use super::trace_errors::TraceError;
            use super::vm_errors::VirtualMachineError;
            use crate::types::errors::program_errors::ProgramError;
            #[derive(Debug, thiserror::Error)]
            pub enum CairoRunError {
                #[error(transparent)]
                Program(#[from] ProgramError),
                #[error(transparent)]
                Runner(#[from] RunnerError),
                #[error(transparent)]
                VirtualMachine(#[from] VirtualMachineError),
                #[error(transparent)]
                MemoryError(#[from] MemoryError),
                #[error(transparent)]
                Trace(#[from] TraceError),
                #[error("injected failure: {0}")]
                Injected(String),
            }
        }
        pub mod memory_errors {
            #[derive(Debug, PartialEq, Eq, thiserror::Error)]
            pub enum MemoryError {
                #[error("memory: {0}")]
                Other(String),
            }
        }
        pub mod trace_errors {
            #[derive(Debug, PartialEq, Eq, thiserror::Error)]
            pub enum TraceError {
                #[error("Trace is not enabled for this run")]
                TraceNotEnabled,
                #[error("Trace should be relocated only once")]
                AlreadyRelocated,
                #[error("Trace not relocated")]
                TraceNotRelocated,
                #[error("memory relocation failed")]
                MemoryError,
            }
        }
        pub mod vm_errors {
            #[derive(Debug, PartialEq, Eq, thiserror::Error)]
            pub enum VirtualMachineError {
                #[error("virtual machine: {0}")]
                Other(String),
                #[error("builtin not found: {0}")]
                NoRangeCheckBuiltin(&'static str),
            }
        }
        pub mod runner_errors {
            #[derive(Debug, PartialEq, Eq, thiserror::Error)]
            pub enum RunnerError {
                #[error("{0}")]
                Other(String),
            }
        }
    }
    pub mod runners {
        pub mod cairo_runner;
    }
    pub mod trace {
        pub mod trace_entry {
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub struct TraceEntry {
                pub pc: usize,
                pub ap: usize,
                pub fp: usize,
            }
        }
    }
    pub mod vm_core;
}

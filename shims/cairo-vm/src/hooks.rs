//! What the code under test asked the machine for, and failures the explorer injects.
use std::cell::RefCell;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RunRecord {
    pub entrypoint: String,
    pub layout: String,
    pub trace_enabled: bool,
    pub relocate_mem: bool,
    pub proof_mode: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    /// cairo_run returns an error
    Run,
    /// the run succeeds but its trace is reported as not relocated
    Trace,
    /// the runner cannot be created
    New,
    /// segments and builtins cannot be initialised
    Init,
    /// the n-th piece of data loaded from outside is refused
    Load(usize),
    /// the memory cannot be relocated
    Relocate,
    /// a contract is not a program
    Contract,
}

/// Consumes the injected failure if it is this one.
pub fn hit(f: Fault) -> bool {
    FAULT.with(|x| {
        let mut x = x.borrow_mut();
        let is = *x == Some(f);
        if is {
            *x = None;
        }
        is
    })
}
/// Counts down an injected load failure.
pub fn load_hit() -> bool {
    let now = FAULT.with(|x| x.borrow().clone());
    match now {
        Some(Fault::Load(0)) => hit(Fault::Load(0)),
        Some(Fault::Load(n)) => {
            FAULT.with(|x| *x.borrow_mut() = Some(Fault::Load(n - 1)));
            false
        }
        _ => false,
    }
}

thread_local! {
    pub static LAST_RUN: RefCell<Option<RunRecord>> = const { RefCell::new(None) };
    /// the layout of the last runner that was created
    pub static LAST_LAYOUT: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static FAULT: RefCell<Option<Fault>> = const { RefCell::new(None) };
    pub static MAX_STEPS: RefCell<usize> = const { RefCell::new(1 << 22) };
}

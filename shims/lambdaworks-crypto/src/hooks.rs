//! Owns the one source of nondeterminism of the protocol: the verifier's coins.
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Append(Vec<u8>),
    Challenge([u8; 32]),
}

/// Given the number of challenges drawn so far on this transcript and the honest output, may
/// answer another 32-byte output.
pub type Script = Box<dyn FnMut(usize, [u8; 32]) -> Option<[u8; 32]>>;

#[derive(Default)]
pub struct Hooks {
    pub recording: bool,
    pub events: Vec<Event>,
    pub script: Option<Script>,
}

thread_local! {
    pub static HOOKS: RefCell<Hooks> = RefCell::new(Hooks::default());
}

pub fn start_recording() {
    HOOKS.with(|h| {
        let mut h = h.borrow_mut();
        h.recording = true;
        h.events.clear();
    })
}
pub fn stop_recording() -> Vec<Event> {
    HOOKS.with(|h| {
        let mut h = h.borrow_mut();
        h.recording = false;
        std::mem::take(&mut h.events)
    })
}
pub fn set_script(s: Option<Script>) {
    HOOKS.with(|h| h.borrow_mut().script = s)
}
pub(crate) fn on_append(data: &[u8]) {
    HOOKS.with(|h| {
        let mut h = h.borrow_mut();
        if h.recording {
            h.events.push(Event::Append(data.to_vec()));
        }
    })
}
pub(crate) fn on_challenge(n: usize, honest: [u8; 32]) -> [u8; 32] {
    let script = HOOKS.with(|h| h.borrow_mut().script.take());
    let mut out = honest;
    if let Some(mut s) = script {
        if let Some(o) = s(n, honest) {
            out = o;
        }
        HOOKS.with(|h| h.borrow_mut().script = Some(s));
    }
    HOOKS.with(|h| {
        let mut h = h.borrow_mut();
        if h.recording {
            h.events.push(Event::Challenge(out));
        }
    });
    out
}

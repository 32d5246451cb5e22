//! The real `sha3`, except that the Keccak256 digest of chosen inputs can be scripted by a check.
pub use real::*;
use real::digest::{consts::U32, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

pub mod hooks {
    use std::cell::RefCell;

    pub type Script = Box<dyn FnMut(&[u8]) -> Option<[u8; 32]>>;
    thread_local!(pub(crate) static SCRIPT: RefCell<Option<Script>> = const { RefCell::new(None) });

    /// While set, decides the digest of the inputs it answers for, on this thread.
    pub fn script_digests(s: Option<Script>) {
        SCRIPT.with(|x| *x.borrow_mut() = s);
    }

    pub(crate) fn scripted(data: &[u8]) -> Option<[u8; 32]> {
        SCRIPT.with(|x| x.try_borrow_mut().ok().and_then(|mut s| s.as_mut().and_then(|f| f(data))))
    }
}

#[derive(Clone, Default, Debug)]
pub struct Keccak256 {
    // inputs of the usual sizes stay off the heap
    head: Head,
    rest: Vec<u8>,
}

#[derive(Clone, Debug)]
struct Head([u8; 64], usize);
impl Default for Head {
    fn default() -> Self {
        Head([0; 64], 0)
    }
}

impl Keccak256 {
    fn end(&self) -> [u8; 32] {
        let spilled;
        let data = if self.rest.is_empty() {
            &self.head.0[..self.head.1]
        } else {
            spilled = [&self.head.0[..self.head.1], &self.rest[..]].concat();
            &spilled[..]
        };
        hooks::scripted(data).unwrap_or_else(|| <real::Keccak256 as Digest>::digest(data).into())
    }
}

impl HashMarker for Keccak256 {}
impl OutputSizeUser for Keccak256 {
    type OutputSize = U32;
}
impl Update for Keccak256 {
    fn update(&mut self, data: &[u8]) {
        let Head(b, n) = &mut self.head;
        if self.rest.is_empty() && *n + data.len() <= b.len() {
            b[*n..*n + data.len()].copy_from_slice(data);
            *n += data.len();
        } else {
            self.rest.extend_from_slice(data);
        }
    }
}
impl FixedOutput for Keccak256 {
    fn finalize_into(self, out: &mut Output<Self>) {
        out.copy_from_slice(&self.end());
    }
}
impl Reset for Keccak256 {
    fn reset(&mut self) {
        *self = Self::default();
    }
}
impl FixedOutputReset for Keccak256 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        out.copy_from_slice(&self.end());
        Reset::reset(self);
    }
}

use super::transcript::Transcript;
use crate::hooks;
use sha3::{digest::FixedOutputReset, Digest, Sha3_256};

pub struct DefaultTranscript {
    hasher: Sha3_256,
    drawn: usize,
}

impl Transcript for DefaultTranscript {
    fn append(&mut self, new_data: &[u8]) {
        hooks::on_append(new_data);
        self.hasher.update(new_data);
    }
    fn challenge(&mut self) -> [u8; 32] {
        let mut result_hash = [0u8; 32];
        result_hash.copy_from_slice(&FixedOutputReset::finalize_fixed_reset(&mut self.hasher));
        result_hash.reverse();
        self.hasher.update(result_hash);
        let n = self.drawn;
        self.drawn += 1;
        hooks::on_challenge(n, result_hash)
    }
}

impl Default for DefaultTranscript {
    fn default() -> Self {
        Self::new()
    }
}

impl DefaultTranscript {
    pub fn new() -> Self {
        Self { hasher: Sha3_256::new(), drawn: 0 }
    }
}

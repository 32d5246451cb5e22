//! Stand-in for lambdaworks-crypto (rev a17b951): SHA3-256 transcript and Keccak-256 Merkle trees,
//! plus `hooks` (thread-local) with which the explorer records transcripts and scripts the coins.
pub mod fiat_shamir;
pub mod hash;
pub mod hooks;
pub mod merkle_tree;

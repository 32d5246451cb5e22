//! Every damage of a byte string up to the stated bounds.
#![allow(dead_code)]
use harness::{guard, Ch};

pub const WORDS: [u64; 12] = [0, 1, 2, 7, 8, 32, 33, 1 << 16, 1 << 32, 1 << 62, 1 << 63, u64::MAX];

/// What a decoder did with a string.
pub enum Did {
    Refused,
    /// accepted, and this is the encoding of what it decoded to
    Accepted(Vec<u8>),
}

/// Judges one decoding: total, and exact (an accepted string is the encoding of its value).
/// `same` compares two encodings (encodings of unordered maps may differ in order).
pub fn exact(ch: &Ch, key: &str, what: &dyn Fn() -> String, input: &[u8], dec: &dyn Fn(&[u8]) -> Did, same: &dyn Fn(&[u8], &[u8]) -> bool) -> bool {
    ch.ops(1);
    match guard(|| dec(input)) {
        Err(e) => {
            ch.fail(format!("{key}:panic"), format!("{e}: {}", what()));
            false
        }
        Ok(Did::Refused) => false,
        Ok(Did::Accepted(out)) => {
            if !same(&out, input) {
                ch.fail(format!("{key}:bytes-ignored"), format!("accepted {} bytes but they are not what the decoded value encodes to ({} bytes): {}", input.len(), out.len(), what()));
            }
            true
        }
    }
}

/// One position's damage: all single-byte values, deletion, insertion, words.
pub fn at_position(base: &[u8], i: usize, all_values: bool, f: &mut dyn FnMut(&str, &[u8])) {
    let mut b = base.to_vec();
    if i < base.len() {
        if all_values {
            for v in 1..=255u8 {
                b[i] = base[i] ^ v;
                f("byte", &b);
            }
        } else {
            for k in 0..8 {
                b[i] = base[i] ^ 1 << k;
                f("byte", &b);
            }
            for v in [0, 1, 255, base[i].wrapping_add(1), base[i].wrapping_sub(1)] {
                b[i] = v;
                if v != base[i] {
                    f("byte", &b);
                }
            }
        }
        b[i] = base[i];
        b.remove(i);
        f("deleted byte", &b);
    }
    let mut b = base.to_vec();
    b.insert(i, 0);
    for v in [0u8, 1, 8, 32, 255] {
        b[i] = v;
        f("inserted byte", &b);
    }
    if i + 8 <= base.len() {
        let old = u64::from_be_bytes(base[i..i + 8].try_into().unwrap());
        let mut b = base.to_vec();
        for w in WORDS.into_iter().chain([old.wrapping_add(1), old.wrapping_sub(1), old.wrapping_add(8), old.wrapping_add(32), old.wrapping_mul(2), old / 2, old ^ (1 << 63)]) {
            if w != old {
                b[i..i + 8].copy_from_slice(&w.to_be_bytes());
                f("word", &b);
            }
        }
        // words taken out, put in, doubled
        let mut b = base.to_vec();
        b.drain(i..i + 8);
        f("deleted word", &b);
        let mut b = base.to_vec();
        let w: Vec<u8> = b[i..i + 8].to_vec();
        b.splice(i..i, w);
        f("doubled word", &b);
    }
    if i + 32 <= base.len() {
        let mut b = base.to_vec();
        for v in [0u8, 255] {
            b[i..i + 32].fill(v);
            if b != base {
                f("block", &b);
            }
        }
        let mut b = base.to_vec();
        b.drain(i..i + 32);
        f("deleted block", &b);
        let mut b = base.to_vec();
        let w: Vec<u8> = b[i..i + 32].to_vec();
        b.splice(i..i, w);
        f("doubled block", &b);
    }
}
pub fn appended(base: &[u8], f: &mut dyn FnMut(&str, &[u8])) {
    for n in [1usize, 2, 7, 8, 9, 16, 31, 32, 33, 40, 64] {
        for v in [0u8, 1, 255] {
            let mut b = base.to_vec();
            b.resize(base.len() + n, v);
            f("appended", &b);
        }
    }
    let mut b = base.to_vec();
    b.extend(base);
    f("repeated", &b);
}

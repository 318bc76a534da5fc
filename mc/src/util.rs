//! Deterministic contents for messages, keys and blocks.

/// The content patterns every input of a given length is tried with.
pub const PATTERNS: usize = 6;
pub const PATTERN_NAMES: &str = "zeros, 0xff, counting, mixed, mixed', 0x80/0x7f alternating";

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn byte(pattern: usize, i: usize) -> u8 {
    match pattern {
        0 => 0,
        1 => 0xff,
        2 => i as u8,
        5 => [0x80, 0x7f][i % 2],
        p => mix(((p as u64) << 40) ^ i as u64) as u8,
    }
}

pub fn bytes(pattern: usize, n: usize) -> Vec<u8> {
    (0..n).map(|i| byte(pattern, i)).collect()
}

pub fn arr<const N: usize>(pattern: usize) -> [u8; N] {
    core::array::from_fn(|i| byte(pattern, i))
}

use crate::engine::Ctx;

/// XORs up to `max` bytes of `buf` (every choice of positions) with each of `vals`.
pub fn perturb(c: &mut Ctx, buf: &mut [u8], max: usize, vals: &[u8]) -> usize {
    let mut from = 0;
    let mut n = 0;
    while n < max && from < buf.len() {
        // 0: no further change
        let p = c.choose(buf.len() - from + 1);
        if p == 0 {
            break;
        }
        let i = from + p - 1;
        buf[i] ^= *c.pick(vals);
        from = i + 1;
        n += 1;
    }
    n
}

pub fn all_deltas() -> Vec<u8> {
    (1..=255).collect()
}

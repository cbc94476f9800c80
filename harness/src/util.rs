//! Shared helpers for the harnesses.
use crate::rt::*;

/// `n` free symbolic bytes, constrained to be well-formed UTF-8.
pub fn free_utf8(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte());
    }
    utf8(v)
}
/// Assumes that the bytes are well-formed UTF-8.
pub fn utf8(v: Vec<u8>) -> String {
    match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            String::new()
        }
    }
}
/// One symbolic byte of 7-bit ASCII.
pub fn ascii() -> u8 {
    let b = byte();
    assume(b < 0x80);
    b
}
/// One symbolic byte drawn from `set`, kept symbolic (no fork).
pub fn of(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for &s in set {
        ok |= b == s;
    }
    assume(ok);
    b
}
/// Equality of two byte strings as one condition (no fork for symbolic bytes).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// Checks that `got` equals `want`, logging both first so a replay shows them.
pub fn check_same(got: &[u8], want: &[u8], id: u32) {
    log(got);
    log(want);
    check(same(got, want), id);
}
/// Lengths around the usual thresholds (buffers, small-size optimisations, counters).
pub const SIZES: [usize; 20] =
    [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300];
pub const BIG: [usize; 6] = [511, 512, 1000, 1023, 1024, 1030];
pub fn rep(out: &mut Vec<u8>, c: u8, n: usize) {
    for _ in 0..n {
        out.push(c);
    }
}

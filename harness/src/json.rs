//! JSON harnesses.  The oracle is RFC 8259, written here independently of the implementation.
use crate::rt::*;
use crate::util::*;

fn ws(b: u8) -> bool {
    b == b' ' || b == b'\n' || b == b'\r' || b == b'\t'
}
fn hexd(b: u8) -> bool {
    b.is_ascii_digit() || (b | 32 >= b'a' && b | 32 <= b'f')
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn skip(&mut self) {
        while self.i < self.s.len() && ws(self.s[self.i]) {
            self.i += 1;
        }
    }
    fn digits(&mut self) -> bool {
        let a = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.i > a
    }
    fn lit(&mut self, w: &[u8]) -> bool {
        if self.s.len() - self.i < w.len() || !same(&self.s[self.i..self.i + w.len()], w) {
            return false;
        }
        self.i += w.len();
        true
    }
    /// after the opening quote
    fn string(&mut self) -> bool {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            self.i += 1;
            if c == b'"' {
                return true;
            }
            if c < 0x20 {
                return false;
            }
            if c == b'\\' {
                if self.i >= self.s.len() {
                    return false;
                }
                let e = self.s[self.i];
                self.i += 1;
                if e == b'u' {
                    for _ in 0..4 {
                        if self.i >= self.s.len() || !hexd(self.s[self.i]) {
                            return false;
                        }
                        self.i += 1;
                    }
                } else {
                    let mut ok = false;
                    for &x in b"\"\\/bfnrt" {
                        ok |= e == x;
                    }
                    if !ok {
                        return false;
                    }
                }
            }
        }
        false
    }
    fn value(&mut self, depth: usize) -> bool {
        if depth > 300 {
            return false;
        }
        self.skip();
        if self.i >= self.s.len() {
            return false;
        }
        let c = self.s[self.i];
        if c == b'"' {
            self.i += 1;
            return self.string();
        }
        if c == b'[' {
            self.i += 1;
            self.skip();
            if self.peek() == b']' {
                self.i += 1;
                return true;
            }
            loop {
                if !self.value(depth + 1) {
                    return false;
                }
                self.skip();
                let c = self.peek();
                self.i += 1;
                if c == b']' {
                    return true;
                }
                if c != b',' {
                    return false;
                }
            }
        }
        if c == b'{' {
            self.i += 1;
            self.skip();
            if self.peek() == b'}' {
                self.i += 1;
                return true;
            }
            loop {
                self.skip();
                if self.peek() != b'"' {
                    return false;
                }
                self.i += 1;
                if !self.string() {
                    return false;
                }
                self.skip();
                if self.peek() != b':' {
                    return false;
                }
                self.i += 1;
                if !self.value(depth + 1) {
                    return false;
                }
                self.skip();
                let c = self.peek();
                self.i += 1;
                if c == b'}' {
                    return true;
                }
                if c != b',' {
                    return false;
                }
            }
        }
        if c == b't' {
            return self.lit(b"true");
        }
        if c == b'f' {
            return self.lit(b"false");
        }
        if c == b'n' {
            return self.lit(b"null");
        }
        if c == b'-' {
            self.i += 1;
        }
        if self.peek() == b'0' {
            self.i += 1;
        } else if !self.digits() {
            return false;
        }
        if self.peek() == b'.' {
            self.i += 1;
            if !self.digits() {
                return false;
            }
        }
        if self.peek() | 32 == b'e' {
            self.i += 1;
            if self.peek() == b'+' || self.peek() == b'-' {
                self.i += 1;
            }
            if !self.digits() {
                return false;
            }
        }
        true
    }
}
/// RFC 8259: is `s` one JSON text?
pub fn valid(s: &[u8]) -> bool {
    let mut p = P { s, i: 0 };
    if !p.value(0) {
        return false;
    }
    p.skip();
    p.i == s.len()
}
/// The specification: the same text without the whitespace between tokens.
pub fn strip(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    let mut instr = false;
    while i < s.len() {
        let c = s[i];
        if instr {
            o.push(c);
            if c == b'\\' {
                i += 1;
                if i < s.len() {
                    o.push(s[i]);
                }
            } else if c == b'"' {
                instr = false;
            }
        } else if c == b'"' {
            o.push(c);
            instr = true;
        } else if !ws(c) {
            o.push(c);
        }
        i += 1;
    }
    o
}
fn min(s: &str) -> String {
    minifier::json::minify(s).to_string()
}

// ---- document generators --------------------------------------------------------------------

/// One inter-token gap: nothing, or one symbolic whitespace character.
fn gap(o: &mut Vec<u8>) {
    if pick(2) == 1 {
        o.push(of(b" \t\n\r"));
    }
}
fn gap2(o: &mut Vec<u8>, on: bool) {
    if on {
        o.push(of(b" \t\n\r"));
        o.push(of(b" \t\n\r"));
    }
}
/// A quoted string holding `k` free bytes (any valid content).
fn qstr(o: &mut Vec<u8>, k: usize) {
    o.push(b'"');
    for _ in 0..k {
        o.push(byte());
    }
    o.push(b'"');
}
fn finish(o: Vec<u8>) -> String {
    let s = utf8(o);
    assume(valid(s.as_bytes()));
    s
}
const NUMS: [&str; 8] = ["0", "-1", "12.50", "1e5", "-0.5E-10", "1E+2", "123456789012345678901234567890", "0.1"];
const LITS: [&str; 3] = ["true", "false", "null"];
const STRS: [&str; 16] = [
    "", " ", "a b", "\\\"", "\\\\", "\\\\\\\"", "a\\\" ", "\\\\ ", "//", "/* x */", "\\u0041 \\/", "é ", "{ }", ": ,",
    "\\n  \\t", "\u{2028} \u{a0}",
];
fn scalar(o: &mut Vec<u8>) {
    match pick(3) {
        0 => o.extend_from_slice(NUMS[pick(NUMS.len())].as_bytes()),
        1 => o.extend_from_slice(LITS[pick(3)].as_bytes()),
        _ => lit_str(o),
    }
}
fn lit_str(o: &mut Vec<u8>) {
    o.push(b'"');
    o.extend_from_slice(STRS[pick(STRS.len())].as_bytes());
    o.push(b'"');
}

/// document family selected by `arg` (see DESIGN.md)
///  0..=15  : `arg` free bytes forming a valid JSON text
/// 100+k    : string with k free content bytes, then more document
/// 200      : every gap of a nested document free
/// 300      : two adjacent literal strings / scalars with free gaps
/// 400+i    : long strings / whitespace runs / nesting (SIZES[i])
pub fn doc(arg: u64) -> String {
    let a = arg as usize;
    let mut o = vec![];
    match a / 100 {
        0 => {
            for _ in 0..a {
                o.push(byte());
            }
        }
        1 => {
            let k = a % 100 % 20;
            match a % 100 / 20 {
                0 => {
                    o.extend_from_slice(b"{ ");
                    qstr(&mut o, k);
                    o.extend_from_slice(b" : [ \"x y\" , 1 ] }\n");
                }
                1 => {
                    o.extend_from_slice(b"[\"\\\"\", ");
                    qstr(&mut o, k);
                    o.extend_from_slice(b"\n, \"\\\\\" ]");
                }
                2 => {
                    // two strings
                    o.extend_from_slice(b"[ ");
                    qstr(&mut o, k);
                    o.push(b',');
                    o.push(of(b" \t\n\r"));
                    qstr(&mut o, k);
                    o.extend_from_slice(b" ]");
                }
                _ => {
                    // string with an escape in the middle
                    o.extend_from_slice(b"{ \"a\" : \"");
                    o.push(byte());
                    o.push(b'\\');
                    for _ in 0..k {
                        o.push(byte());
                    }
                    o.extend_from_slice(b" \" }");
                }
            }
        }
        2 => {
            // every gap of the document in turn: three neighbouring ones are free
            const T: [&[u8]; 15] = [
                b"{", b"\"a b\"", b":", b"[", b"-1.5e+3", b",", b"{", b"}", b"]", b",", b"\"\"", b":", b"null", b"}", b"",
            ];
            let w = pick(T.len());
            let all = a % 2 == 1;
            for i in 0..T.len() {
                if i >= w && i < w + 3 {
                    gap2(&mut o, a % 100 >= 2);
                    gap(&mut o);
                } else if all {
                    o.push(b"\n \t\r"[i % 4]);
                }
                o.extend_from_slice(T[i]);
            }
        }
        3 => {
            o.push(b'[');
            gap(&mut o);
            scalar(&mut o);
            gap(&mut o);
            o.push(b',');
            gap(&mut o);
            scalar(&mut o);
            gap(&mut o);
            o.push(b']');
        }
        _ => {
            let i = a % 100;
            let n = if i < SIZES.len() { SIZES[i] } else { BIG[(i - SIZES.len()) % BIG.len()] };
            match (a - 400) / 100 {
                0 => {
                    // long string with a symbolic tail, then whitespace
                    o.extend_from_slice(b"{ \"k\" : \"");
                    rep(&mut o, b'x', n);
                    o.push(byte());
                    o.push(byte());
                    o.extend_from_slice(b" \" , \"z\" : 1 }");
                }
                1 => {
                    // long gap
                    o.push(b'[');
                    rep(&mut o, b' ', n);
                    o.push(of(b" \t\n\r"));
                    qstr(&mut o, 2);
                    o.push(b'\n');
                    o.push(b']');
                }
                2 => {
                    // many escapes
                    o.push(b'"');
                    for _ in 0..n {
                        o.push(b'\\');
                        o.push(of(b"\"\\/"));
                    }
                    o.extend_from_slice(b" \" ");
                }
                3 => {
                    // deep nesting
                    let n = n % 260;
                    for _ in 0..n {
                        o.push(b'[');
                        o.push(b' ');
                    }
                    qstr(&mut o, 2);
                    for _ in 0..n {
                        o.push(b' ');
                        o.push(b']');
                    }
                }
                _ => {
                    // many strings
                    o.push(b'[');
                    for _ in 0..n {
                        o.extend_from_slice(b"\"a \\\" b\", ");
                    }
                    qstr(&mut o, 2);
                    o.extend_from_slice(b" ]");
                }
            }
        }
    }
    finish(o)
}
/// J01
pub fn json_preserve(arg: u64) {
    let s = doc(arg);
    reach(1);
    let want = strip(s.as_bytes());
    log(s.as_bytes());
    check_same(min(&s).as_bytes(), &want, 1);
}
/// J02
pub fn json_idem(arg: u64) {
    let s = doc(arg);
    reach(1);
    log(s.as_bytes());
    let a = min(&s);
    check(valid(a.as_bytes()), 2);
    check(a.len() <= s.len(), 3);
    let b = min(&a);
    check_same(b.as_bytes(), a.as_bytes(), 4);
}

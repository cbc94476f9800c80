//! JSON streaming reader harnesses: source chunking, consumer buffer sizes and faults are symbolic.
use crate::rt::*;
use crate::util::*;
use std::io::{Error, ErrorKind, Read};

pub const KINDS: [ErrorKind; 9] = [
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
];
struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    /// how many of the next reads have a free chunk size
    free: usize,
    /// largest free chunk
    lim: usize,
    /// chunk size once the free reads are used up (0: as much as fits)
    rest: usize,
    /// remaining calls before the fault
    fault_at: usize,
    fault: Option<ErrorKind>,
    /// how often the fault repeats
    times: usize,
}
impl<'a> Src<'a> {
    fn new(data: &'a [u8]) -> Self {
        Src { data, pos: 0, free: 0, lim: 3, rest: 0, fault_at: usize::MAX, fault: None, times: 0 }
    }
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.fault_at == 0 {
            if let Some(k) = self.fault {
                if self.times > 0 {
                    self.times -= 1;
                    return Err(Error::from(k));
                }
            }
        } else {
            self.fault_at -= 1;
        }
        let max = buf.len().min(self.data.len() - self.pos);
        if max == 0 {
            return Ok(0);
        }
        let k = if self.free > 0 {
            self.free -= 1;
            1 + pick(max.min(self.lim))
        } else if self.rest > 0 {
            max.min(self.rest)
        } else {
            max
        };
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
/// Reads everything the way `Read::read_to_end` does, with the given consumer buffer sizes.
fn drain<R: Read>(mut r: R, mut size: impl FnMut() -> usize, limit: usize) -> (Vec<u8>, Result<(), ErrorKind>) {
    let mut out = vec![];
    let mut calls = 0;
    loop {
        let n = size();
        let mut buf = vec![0xAAu8; n];
        calls += 1;
        check(calls < 4 * limit + 40, 90);
        match r.read(&mut buf) {
            Ok(k) => {
                check(k <= n, 91);
                if n == 0 {
                    continue;
                }
                if k == 0 {
                    return (out, Ok(()));
                }
                out.extend_from_slice(&buf[..k]);
            }
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => return (out, Err(e.kind())),
        }
    }
}
const TEXTS: [&str; 10] = [
    "{ \"k\" : [1, \"a \\\" b\"] }",
    "[\"\u{e9}\", \"\u{20ac}\u{1f600}\"]",
    "\"\\\\\" ",
    "  \n\t ",
    "[ \"\u{1f600}\u{1f600}\" , \"\u{1f600}\" ]",
    "{\"a\":\"b\"}",
    "1",
    "\" \u{7f} \u{a0}\u{2028} \"",
    "",
    "{ \"test\" : \"\\\" test2\", \"test2\" : \"\" }\n",
];
/// source text selected by `a`: 0..=9 free bytes; 10.. fixed texts
fn text(a: usize) -> Vec<u8> {
    if a < 10 {
        free_utf8(a).into_bytes()
    } else if a < 20 {
        TEXTS[a - 10].as_bytes().to_vec()
    } else if a < 60 {
        // long text, sizes around buffer boundaries
        let i = a - 20;
        let n = if i < SIZES.len() { SIZES[i] } else { BIG[(i - SIZES.len()) % BIG.len()] };
        let mut o = b"[ \"".to_vec();
        rep(&mut o, b'x', n);
        o.extend_from_slice("\u{e9}\\\" \u{1f600}\" ,\n 1 ]".as_bytes());
        o
    } else {
        // template with free bytes inside a string
        let mut o = b"{ \"".to_vec();
        for _ in 0..a - 60 {
            o.push(byte());
        }
        o.extend_from_slice(b" \" : 1 } ");
        utf8(o).into_bytes()
    }
}
const CB: [usize; 10] = [1, 2, 3, 4, 5, 7, 8, 32, 64, 1024];
fn want(d: &[u8]) -> Vec<u8> {
    let s = std::str::from_utf8(d).unwrap();
    minifier::json::minify(s).to_string().into_bytes()
}
/// J03.  arg = text + 100 * mode.
///  mode 0: `free` chunk sizes symbolic (first 4 reads), consumer size symbolic per read (first 3)
///  mode 1: constant chunk, constant consumer buffer, both symbolic from tables
///  mode 2: first consumer buffer size differs from the later ones
pub fn json_stream(arg: u64) {
    let a = arg as usize % 100;
    let d = text(a);
    let w = want(&d);
    let mut src = Src::new(&d);
    let (out, r) = match arg / 100 {
        0 => {
            src.free = 4;
            src.lim = 4;
            src.rest = 2;
            let mut n = 0;
            drain(minifier::json::minify_from_read(src),
                move || {
                    n += 1;
                    if n <= 3 {
                        1 + pick(4)
                    } else {
                        3
                    }
                },
                d.len(),
            )
        }
        1 => {
            src.rest = CB[pick(CB.len())];
            let c = CB[pick(CB.len())];
            drain(minifier::json::minify_from_read(src), move || c, d.len())
        }
        _ => {
            src.rest = [0, 1, 3, 5][pick(4)];
            let c0 = [0, 1, 2, 4, 16, 1024][pick(6)];
            let c1 = [1, 2, 3, 5, 33, 2000][pick(6)];
            let mut first = true;
            drain(minifier::json::minify_from_read(src),
                move || {
                    if first {
                        first = false;
                        c0
                    } else {
                        c1
                    }
                },
                d.len(),
            )
        }
    };
    reach(1);
    log(&d);
    check(r.is_ok(), 1);
    check_same(&out, &w, 2);
}
fn prefix(p: &[u8], w: &[u8]) -> bool {
    p.len() <= w.len() && same(p, &w[..p.len()])
}
/// J04 faults: an error of any kind at any read, with symbolic chunking.  arg = text + 100*mode
///  mode 0: permanent error of a symbolic kind;  mode 1: Interrupted 1..=2 times, then data again
pub fn json_fault(arg: u64) {
    let a = arg as usize % 100;
    let d = text(a);
    let w = want(&d);
    let mut src = Src::new(&d);
    src.free = 2;
    src.lim = 3;
    src.rest = [1, 4, 0][pick(3)];
    src.fault_at = pick(7);
    let c = [1, 2, 3, 4, 16][pick(5)];
    if arg / 100 == 0 {
        let k = KINDS[pick(KINDS.len())];
        src.fault = Some(k);
        src.times = usize::MAX;
        let (out, r) = drain(minifier::json::minify_from_read(src), || c, d.len());
        log(&d);
        log(&out);
        check(prefix(&out, &w), 3);
        match r {
            // the source reports its end, not an error, when the fault lies behind the data
            Ok(()) => check(same(&out, &w), 4),
            Err(e) => {
                reach(1);
                check(e == k, 5)
            }
        }
    } else {
        src.fault = Some(ErrorKind::Interrupted);
        src.times = 1 + pick(2);
        let (out, r) = drain(minifier::json::minify_from_read(src), || c, d.len());
        reach(1);
        log(&d);
        check(r.is_ok(), 6);
        check_same(&out, &w, 7);
    }
}
/// J04 an error must be seen: the source fails permanently before its end was reported.
pub fn json_fault_seen(arg: u64) {
    let d = text(arg as usize % 100);
    let mut src = Src::new(&d);
    src.rest = 1 + pick(3);
    let reads = (d.len() + src.rest - 1) / src.rest;
    let c = src.rest + pick(3);
    src.fault_at = pick(12);
    assume(src.fault_at <= reads);
    src.fault = Some(ErrorKind::TimedOut);
    src.times = usize::MAX;
    let (_, r) = drain(minifier::json::minify_from_read(src), || c, d.len());
    reach(1);
    check(r == Err(ErrorKind::TimedOut), 8);
}
/// J04 encoding: arbitrary bytes; completion is reported exactly for well-formed UTF-8.
/// arg = n free bytes (0..=9); 10+n: n free bytes inside a document
pub fn json_enc(arg: u64) {
    let mut d = vec![];
    let a = arg as usize;
    if a >= 10 {
        d.extend_from_slice(b"[ \"");
    }
    for _ in 0..a % 10 {
        d.push(byte());
    }
    if a >= 10 {
        d.extend_from_slice(b"\" ]");
    }
    let mut src = Src::new(&d);
    src.rest = [0, 1, 2][pick(3)];
    let c = [1, 4, 64][pick(3)];
    let (out, r) = drain(minifier::json::minify_from_read(src), || c, d.len());
    log(&d);
    log(&out);
    match std::str::from_utf8(&d) {
        Ok(s) => {
            reach(1);
            let w = minifier::json::minify(s).to_string();
            check(r.is_ok(), 9);
            check(same(&out, w.as_bytes()), 10);
        }
        Err(e) => {
            reach(2);
            check(r == Err(ErrorKind::InvalidData), 11);
            let s = std::str::from_utf8(&d[..e.valid_up_to()]).unwrap();
            let w = minifier::json::minify(s).to_string();
            check(prefix(&out, w.as_bytes()), 12);
        }
    }
}

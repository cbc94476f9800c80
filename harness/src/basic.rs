use crate::rt::*;
use crate::util::*;
pub fn css_free(n: u64) {
    let s = free_utf8(n as usize);
    if let Ok(m) = minifier::css::minify(&s) {
        reach(1);
        log(m.to_string().as_bytes());
    }
}
pub fn js_free(n: u64) {
    let s = free_utf8(n as usize);
    if let Ok(m) = minifier::js::minify(&s) {
        reach(1);
        log(m.to_string().as_bytes());
    }
}
pub fn json_free(n: u64) {
    let s = free_utf8(n as usize);
    let m = minifier::json::minify(&s);
    reach(1);
    log(m.to_string().as_bytes());
}
/// A writer that takes at most `k` bytes at a time and may be interrupted once.
struct Sink {
    out: Vec<u8>,
    k: usize,
    intr: usize,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.intr > 0 {
            self.intr -= 1;
            if self.intr == 0 {
                return Err(std::io::ErrorKind::Interrupted.into());
            }
        }
        let n = b.len().min(self.k);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn sink() -> Sink {
    Sink { out: vec![], k: [1, 3, 1000][pick(3)], intr: [0, 1, 3][pick(3)] }
}
/// a writer that fails at its n-th call, or reports that it can take nothing more
struct Bad {
    out: Vec<u8>,
    left: usize,
    zero: bool,
}
impl std::io::Write for Bad {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            if self.zero {
                return Ok(0);
            }
            return Err(std::io::ErrorKind::PermissionDenied.into());
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
const W_CSS: [&str; 5] = [
    "",
    "/*! l */ a > b , c:d{ e : \"f g\" 1px\\9 ; }",
    "@media x{ .a #b[c ~= d] * e{ f : calc( 1 + 2 ) } }",
    "\u{e9} \u{20ac}{\u{1f600}:\"\u{e9}\"}",
    "/** a\n */ /*! b */",
];
const W_JS: [&str; 5] = [
    "",
    "/*! l */ var a = 1.5, b = \"x y\" ; function c( d ){ return d in e; }",
    "x => `a ${b} c`; /re g/g.test( y ) ; if( a instanceof B ){ c++ ; }",
    "var \u{e9} = \"\u{20ac}\u{1f600}\";",
    "/** a */ let z = [1,2,'3'] ; throw new E ;",
];
const W_JSON: [&str; 3] = ["", "{ \"a b\" : [ 1 , \"\u{e9}\\\"\" ] }", "[ \"\u{1f600}\" , null ]"];
fn src(arg: u64, t: &[&str]) -> String {
    if arg < 10 {
        free_utf8(arg as usize)
    } else {
        // a fixed text with one free byte appended
        let mut o = t[arg as usize % 10].as_bytes().to_vec();
        o.push(byte());
        utf8(o)
    }
}
macro_rules! writer {
    ($n:ident, $t:ident, $f:expr) => {
        /// A01: `write` delivers the displayed text, however the writer takes it
        pub fn $n(arg: u64) {
            let s = src(arg, &$t);
            let (Some(a), Some(b)) = ($f(&s), $f(&s)) else { return };
            reach(1);
            let d = a.to_string();
            log(s.as_bytes());
            if pick(2) == 0 {
                let mut w = sink();
                let r = b.write(&mut w);
                check(r.is_ok(), 1);
                check_same(&w.out, d.as_bytes(), 2);
            } else {
                let left = pick(40);
                let mut w = Bad { out: vec![], left, zero: pick(2) == 1 };
                let r = b.write(&mut w);
                if left < d.len() {
                    reach(2);
                    check(r.is_err(), 3);
                    if !w.zero {
                        check(r.err().map(|e| e.kind()) == Some(std::io::ErrorKind::PermissionDenied), 5);
                    }
                    check_same(&w.out, &d.as_bytes()[..w.out.len()], 4);
                } else {
                    check(r.is_ok(), 6);
                    check_same(&w.out, d.as_bytes(), 7);
                }
            }
        }
    };
}
writer!(css_write, W_CSS, |s| minifier::css::minify(s).ok());
writer!(js_write, W_JS, |s| minifier::js::minify(s).ok());
writer!(json_write, W_JSON, |s| Some(minifier::json::minify(s)));

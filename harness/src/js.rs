//! JavaScript harnesses.
use crate::jslex::*;
use crate::rt::*;
use crate::util::*;

pub fn min(s: &str) -> Option<String> {
    match minifier::js::minify(s) {
        Ok(m) => Some(m.to_string()),
        Err(_) => None,
    }
}
const CTX: [(&str, &str); 40] = [
    ("", ""),
    ("a=", ";"),
    ("return ", ";"),
    ("f(", ");"),
    ("a", "b"),
    ("a;", ""),
    ("a=1", ".b();"),
    ("a=`b ${", "} c`;"),
    ("a=`b ", " c`;"),
    ("a=\"", "\";b"),
    // 10
    ("a='", "';b"),
    ("a=/", "/g;b"),
    ("a=/b[", "]c/.d;"),
    ("// ", "\nb;"),
    ("a // ", ""),
    ("/* ", "*/b;"),
    ("/*!", "*/b;"),
    ("a={", ":1};"),
    ("a+", "+b;"),
    ("a-", "-b;"),
    // 20
    ("a<", "--b;"),
    ("a/", "/b;"),
    ("var ", "=1;"),
    ("function a(", "){return b;}"),
    ("if(a){b}", "else{c}"),
    ("a.", " /b/c;"),
    ("case ", ":b;"),
    ("x=>", ";y"),
    ("`a${`b${", "}c`}d`;"),
    ("a[", "]=b;"),
    // 30
    ("a=`b ${", "` x `} c`;"),
    ("a=`b ${c[\"", "\"]+{d:'}'}} e`;f"),
    ("for(;", ";){}"),
    ("a ? /b c/ : ", " /d;"),
    ("/*!a*/", "/b c/.d"),
    ("a=b(/c d/,", "/*!e*/ /f g/);"),
    ("{while(a)", "}b"),
    ("do ", "while(a)"),
    ("if(a)", "}else{b;;}"),
    ("{a(/b/);b=0x1;c=.5;/*!d*/", "} \t\n // e\n"),
];
const LEX: [&str; 52] = [
    "a", "in", "instanceof", "return", "var", "typeof", "this", "of", "void", "\u{e9}", "1", "010", "1.5", ".5", "0x1F", "1e3", "2n", "5.", "\"s 1\"", "'t \"'", "`u  ${v} w`", "/r s/g", "/[/] /m", "+", "-",
    "++", "--", "/", "*", "<", ">", "!", "=", "===", "=>", "&&", "|", "?", "?.", ":", ",", ";", ".", "...", "(", ")", "[", "]", "{", "}", "^", "#p",
];
/// arg = ctx * 10 + n: `n` free bytes inside the context
/// arg = 1000 + ctx * 10 + n: `n` lexemes with free gaps inside the context
/// arg = 2000 + 100 * shape + size: large inputs
/// arg = 4000 + 100 * n + context: n + 1 of many words
pub fn text(arg: u64) -> String {
    if arg >= 4000 {
        return words(arg as usize - 4000);
    }
    if arg >= 2000 {
        return large(arg as usize - 2000);
    }
    let (p, q) = CTX[arg as usize % 1000 / 10];
    let mut o = p.as_bytes().to_vec();
    if arg < 1000 {
        for _ in 0..arg % 10 {
            o.push(byte());
        }
    } else {
        let n = arg % 10;
        for i in 0..=n {
            match pick(4) {
                0 => {}
                1 => o.push(b' '),
                2 => o.extend_from_slice(b"/* x */"),
                _ => o.extend_from_slice(b" // x\n"),
            }
            if i < n {
                o.extend_from_slice(LEX[pick(LEX.len())].as_bytes());
            }
        }
    }
    o.extend_from_slice(q.as_bytes());
    utf8(o)
}
const WORDS: &str = "break case catch const continue default do else false finally function for if in instanceof let new null private protected public return switch this throw true try typeof static var while \
    class debugger delete enum export extends import super void with yield implements interface package async await of get set as from constructor prototype arguments eval undefined \
    NaN Infinity inf nan infinity r_aa use b breaks inn instance typeofs _if $ $in do1 \u{e9} 0 12 3.5 0x1f 1e9 1n 007 0b1 4_0 .5";
const WORD: [(&str, &str); 16] = [
    ("", ""),
    ("", " /a b/.c;"),
    ("", " (a) /b c/;"),
    ("a. ", " /b/ c;"),
    ("a ? ", " : /b  c/;"),
    ("x ", " y;"),
    ("\"s\" ", " \"t u\";"),
    ("1 ", " 2;"),
    ("} ", " {a}"),
    ("a + ", " + b;"),
    ("( ", " ) ;"),
    ("var ", " = \"a  b\", c;"),
    ("a = { ", " : 1 , };"),
    ("a ; ", " \n; b"),
    ("/r/g ", " /s t/;"),
    ("a[ ", " ] = b;"),
];
fn words(i: usize) -> String {
    let (p, q) = WORD[i % 100];
    let mut o = p.as_bytes().to_vec();
    for k in 0..=i / 100 {
        if k > 0 {
            o.push(b' ');
        }
        let w = WORDS.split_ascii_whitespace().nth(pick(WORDS.split_ascii_whitespace().count())).unwrap_or("");
        o.extend_from_slice(w.as_bytes());
    }
    o.extend_from_slice(q.as_bytes());
    utf8(o)
}
fn large(i: usize) -> String {
    let k = i % 100;
    let n = if k < SIZES.len() { SIZES[k] } else { BIG[(k - SIZES.len()) % BIG.len()] };
    let mut o = vec![];
    match i / 100 {
        0 => {
            // long name and value
            o.extend_from_slice(b"var y");
            rep(&mut o, b'y', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" = 1");
            rep(&mut o, b'0', n);
            o.extend_from_slice(b" + z ;");
        }
        1 => {
            // long strings
            o.extend_from_slice(b"a = \"");
            rep(&mut o, b' ', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" \" + 'c  d' ;");
        }
        2 => {
            // long template
            o.extend_from_slice(b"a = `");
            rep(&mut o, b' ', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b"${ b }");
            rep(&mut o, b'\n', n);
            o.extend_from_slice(b"` + 'c  d' ;");
        }
        3 => {
            // long comments
            o.extend_from_slice(b"a = /* ");
            rep(&mut o, b'x', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" */ b ; // ");
            rep(&mut o, b'y', n);
        }
        4 => {
            // long licence comment
            o.extend_from_slice(b"/*! ");
            rep(&mut o, b'x', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" */ b = c ;");
        }
        5 => {
            // whitespace runs
            o.extend_from_slice(b"var ");
            rep(&mut o, b'\n', n);
            o.extend_from_slice(b"a ");
            rep(&mut o, b' ', n);
            o.push(byte());
            o.push(byte());
            rep(&mut o, b'\t', n);
            o.extend_from_slice(b" b ;");
        }
        6 => {
            // many statements
            for _ in 0..n {
                o.extend_from_slice(b"var a = b in c ;\n");
            }
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" d ( e ) ;");
        }
        7 => {
            // long regular expression
            o.extend_from_slice(b"a = /");
            rep(&mut o, b' ', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" \\/ [/] /g . test ( b ) ;");
        }
        _ => {
            // nested templates
            let n = n % 66;
            for _ in 0..n {
                o.extend_from_slice(b"`a ${ ");
            }
            o.push(byte());
            o.push(byte());
            for _ in 0..n {
                o.extend_from_slice(b" } b`");
            }
            o.extend_from_slice(b" + c ;");
        }
    }
    utf8(o)
}
/// the first token that is no semicolon
fn start(s: &[u8], x: &Lexed) -> usize {
    let mut i = 0;
    while i < x.t.len() && x.t[i].b - x.t[i].a == 1 && s[x.t[i].a] == b';' {
        i += 1;
    }
    i
}
fn split_regex(s: &[u8]) -> usize {
    let mut i = s.len();
    while s[i - 1] != b'/' {
        i -= 1;
    }
    i
}
/// the same flags in any order
fn same_flags(a: &[u8], b: &[u8]) -> bool {
    let mut ok = a.len() == b.len();
    for &c in a {
        let mut f = false;
        for &d in b {
            f |= c == d;
        }
        ok &= f;
    }
    ok
}
fn same_token(s: &[u8], t: T, m: &[u8], u: T) -> bool {
    let (x, y) = (&s[t.a..t.b], &m[u.a..u.b]);
    if t.k != u.k {
        return false;
    }
    if t.k == K::Regex {
        let (p, q) = (split_regex(x), split_regex(y));
        return same(&x[..p], &y[..q]) && same_flags(&x[p..], &y[q..]);
    }
    same(x, y)
}
/// JS01
pub fn js_tokens(arg: u64) {
    let s = text(arg);
    let x = lex(s.as_bytes());
    assume(!x.bad);
    let Some(m) = min(&s) else {
        check(false, 9);
        return;
    };
    reach(1);
    log(s.as_bytes());
    log(m.as_bytes());
    let y = lex(m.as_bytes());
    check(!y.bad, 2);
    let mut i = start(s.as_bytes(), &x);
    let mut j = 0;
    while i < x.t.len() && j < y.t.len() {
        check(same_token(s.as_bytes(), x.t[i], m.as_bytes(), y.t[j]), 1);
        i += 1;
        j += 1;
    }
    check(i == x.t.len() && j == y.t.len(), 3);
}
/// JS03
pub fn js_comments(arg: u64) {
    let s = text(arg);
    let x = lex(s.as_bytes());
    assume(!x.bad);
    let Some(m) = min(&s) else {
        check(false, 9);
        return;
    };
    reach(1);
    log(s.as_bytes());
    log(m.as_bytes());
    let y = lex(m.as_bytes());
    check(!y.bad && y.comments == 0, 1);
    let mut j = 0;
    for t in &x.t {
        if t.k == K::License {
            while j < y.t.len() && y.t[j].k != K::License {
                j += 1;
            }
            check(j < y.t.len() && same(&s.as_bytes()[t.a..t.b], &m.as_bytes()[y.t[j].a..y.t[j].b]), 2);
            j += 1;
        }
    }
}
/// JS04
pub fn js_idem(arg: u64) {
    let s = text(arg);
    let x = lex(s.as_bytes());
    assume(!x.bad);
    if let Some(m) = min(&s) {
        reach(1);
        log(s.as_bytes());
        match min(&m) {
            Some(n) => check_same(n.as_bytes(), m.as_bytes(), 1),
            None => check(false, 2),
        }
    }
}
/// May the gap between the tokens ending with `c` and starting with `d` be needed?
fn needed(s: &[u8], x: T, y: T) -> bool {
    let (c, d) = (s[x.b - 1], s[y.a]);
    let odd = |c: u8| c == b'^' || c == b'~' || c == b'@' || c == b'#';
    // not told apart from words
    odd(c)
        || odd(d)
        || (id_part(c) && x.k != K::Template && x.k != K::Str && (id_part(d) || (x.k == K::Num && d == b'.') || y.k == K::Num))
        || (x.k == K::Regex && id_part(d))
        || (x.k == K::Num && c == b'.' && id_part(d))
        || (x.k == K::Punct && c == d && (c == b'+' || c == b'-'))
        || (x.k == K::Punct && c == b'/' && d == b'/')
        || (x.k == K::Punct && ((c == b'<' && d == b'!') || (c == b'!' && d == b'-')))
}
/// JS06
pub fn js_size(arg: u64) {
    let s = text(arg);
    let x = lex(s.as_bytes());
    assume(!x.bad);
    if let Some(m) = min(&s) {
        reach(1);
        log(s.as_bytes());
        log(m.as_bytes());
        check(m.len() <= s.len(), 1);
        let y = lex(m.as_bytes());
        assume(!y.bad);
        let mut p = 0;
        for i in 0..y.t.len() {
            let g = y.t[i].a - p;
            check(g == 0 || (g == 1 && i > 0 && needed(m.as_bytes(), y.t[i - 1], y.t[i])), 2);
            p = y.t[i].b;
        }
        check(p == m.len(), 3);
    }
}

// ------------------------------------------------------------------ string aggregation
const POOL: [&str; 5] = ["\"aaaaaaaaaaaaaa\"", "'aaaaaaaaaaaaaa'", "\"bb'bbbbbbbbbbb\"", "'c\"cccccccccccc'", "`aaaaaaaaaaaaaa`"];
const STMT: [&str; 33] = [
    "a(@,@);",
    "var b=@;",
    "var r_aa=@;",
    "c(@in d?@:e);",
    "@;",
    "function f(){d(@);return @}",
    "r_aa=@;",
    "r_aa.g;",
    "h=`x ${r_aa} y`;",
    "let r_ba=@+j,r_ca=@;",
    "import e from @;",
    "class A{@(){l(@)}}",
    "/*!q*/",
    "function g(){@;var r_aa=@;s(@)}",
    "m[@]=@;",
    "switch(t){case @:u(@)}",
    "// r_aa\n",
    "if(t)var r_aa=@;",
    "var v=@,r_aa=@;",
    "var r_aa=(@,w);",
    "let r_aa = /* @ */ @ ;",
    "(@).x(@);",
    "for(var r_aa=@;;)y(@);",
    "export * from @;",
    "r_aa++;",
    "t=--r_aa;",
    "for(r_aa in t)u(@);",
    "[r_aa,v]=[@];",
    "({r_aa}=t);",
    "function r_aa(){c(@)}",
    "r_aa**=2;",
    "var rate=@;rate++;l(@);",
    "a=[r_aa,b[r_aa]=@];",
];
const ASTMT: [&str; 19] = ["var R=[];", "var R=[@];", "var R=[\"zzzz\",@,'a'];", "var R=[1,@];", "var R = [ @ , /* x */ \"\" ] ;", "var R=@;", "var R=[@,[@]];", "function f(){var R=[@];d(@)}", "if(R)a=R[0];",
    "a(R[0],R[1]+@);", "R.pop();", "R=@;", "var R=[@].length;", "let R=[@];", "R[0]=@;", "var R;S=[@];", "var bR=[@];", "var S=[@],R=[@];", "[R[0]]=[@];"];
const KEYS: [&str; 2] = ["c={@:@,d:@};", "c=t?{@:@}:@;"];
fn fill(o: &mut Vec<u8>, t: &str, p: &[u8]) {
    for &c in t.as_bytes() {
        if c == b'@' {
            o.extend_from_slice(p);
        } else {
            o.push(c);
        }
    }
}
/// arg = 100 * mode + 10 * shape + n
pub fn agg_text(arg: u64) -> String {
    let arr = arg / 100 >= 4;
    let n = arg as usize % 10;
    let mut o = vec![];
    match arg / 10 % 10 {
        0 => {
            // n statements
            for _ in 0..n {
                let k = pick(STMT.len() + if arr { ASTMT.len() } else { KEYS.len() });
                let t = if k < STMT.len() {
                    STMT[k]
                } else if arr {
                    ASTMT[k - STMT.len()]
                } else {
                    KEYS[k - STMT.len()]
                };
                let p = if t.as_bytes().contains(&b'@') { pick(if arg / 100 % 4 == 0 { POOL.len() } else { 2 }) } else { 0 };
                fill(&mut o, t, POOL[p].as_bytes());
            }
        }
        1 => {
            // n free bytes in strings that may or may not be the same
            o.extend_from_slice(b"\"use strict\";var q;a(");
            for i in 0..4 {
                if i > 0 {
                    o.push(b',');
                }
                let d = of(b"\"'");
                o.push(d);
                o.extend_from_slice(b"aaaaaaaa");
                if i < n {
                    o.push(byte());
                } else {
                    o.push(b'b');
                }
                o.push(d);
            }
            o.extend_from_slice(b");");
        }
        2 => {
            // many strings, n of the names taken already
            for _ in 0..pick(2) {
                o.extend_from_slice(b"\"use strict\";");
            }
            for i in 0..n * 9 {
                o.extend_from_slice(b"r_");
                o.push(b'a' + (i * 3 % 26) as u8);
                o.extend_from_slice(b"a();");
            }
            o.extend_from_slice(b"z([");
            for i in 0..n * 9 {
                for _ in 0..2 {
                    o.extend_from_slice(b"\"bbbbbbbbbbbb");
                    o.push(b'a' + (i / 10) as u8);
                    o.push(b'a' + (i % 10) as u8);
                    o.extend_from_slice(b"\",");
                }
            }
            o.push(byte());
            o.extend_from_slice(b"]);");
        }
        5 => {
            // n statements, two strings
            for _ in 0..n {
                let k = pick(if arr { 12 + ASTMT.len() } else { 31 });
                let t = if !arr {
                    STMT[k]
                } else if k < ASTMT.len() {
                    ASTMT[k]
                } else {
                    STMT[2 * (k - ASTMT.len())]
                };
                let p = if t.as_bytes().contains(&b'@') { pick(2) } else { 0 };
                fill(&mut o, t, POOL[p].as_bytes());
            }
        }
        3 => {
            // short strings: what is gained
            let r: [&str; 4] = ["", "var r_a=@;", "var R=[@];", "var R=[\"\"];"];
            let mut p = b"\"".to_vec();
            rep(&mut p, b's', pick(16));
            p.push(b'"');
            fill(&mut o, r[pick(4)], &p);
            for _ in 0..n {
                fill(&mut o, "a(@,@)+", &p);
                if pick(2) == 1 {
                    fill(&mut o, "@+", &p);
                }
            }
            fill(&mut o, "@ in b", &p);
        }
        6 | 7 => {
            // a declared name of n free characters, which changes later (6) or not (7)
            let mut w = vec![];
            for i in 0..n {
                let c = byte();
                assume(if i == 0 { id_start(c) } else { id_part(c) } && c < 0x80 && c != b'^' && c != b'~' && c != b'@' && c != b'#' && c != b'\\');
                w.push(c);
            }
            for k in ["do", "if", "in", "of", "var", "let", "for", "new", "try", "case", "else", "enum", "null", "this", "true", "void", "with"] {
                assume(!same(k.as_bytes(), &w));
            }
            let t = if arr { "var @=[];b(%,%,%,%);" } else { "var @=%;b(%,%);" };
            let t2 = if arg / 10 % 10 == 7 { "c(@,%);" } else { "@=d;c(%);" };
            for t in [t, t2] {
                for &c in t.as_bytes() {
                    match c {
                        b'@' => o.extend_from_slice(&w),
                        b'%' => o.extend_from_slice(POOL[0].as_bytes()),
                        _ => o.push(c),
                    }
                }
            }
        }
        _ => {
            // an object key
            o.extend_from_slice(b"a={\"bbbbbbbbbbbbbb\":c,\"bbbbbbbbbbbbbb\":d};");
        }
    }
    utf8(o)
}
pub fn agg(s: &str, mode: u64) -> Option<String> {
    use minifier::js::*;
    let Ok(t) = simple_minify(s) else { return None };
    let t = if mode == 0 || mode == 4 { t.apply(clean_tokens) } else { t };
    let t = match mode {
        0..=2 => t.apply(aggregate_strings),
        3 => t.apply(|t| aggregate_strings_with_separation(t, Token::Char(ReservedChar::Backline))),
        7 => t.apply(|t| aggregate_strings_into_array_with_separation(t, "R", Token::Char(ReservedChar::Backline))),
        8 => t.apply(|t| aggregate_strings_into_array_filter(t, "R", |t, p| t[p].get_string() != Some(POOL[0]))),
        9 => t.apply(|t| aggregate_strings_into_array_with_separation_filter(t, "R", Token::Char(ReservedChar::Tab), |t, p| t[p].get_string() != Some(POOL[0]))),
        _ => t.apply(|t| aggregate_strings_into_array(t, "R")),
    };
    let t = if mode == 1 || mode == 5 { t.apply(clean_tokens) } else { t };
    Some(t.to_string())
}
/// A program: text and tokens, without the licences.
struct P<'a> {
    s: &'a [u8],
    t: Vec<T>,
}
impl P<'_> {
    fn tok(&self, i: usize) -> &[u8] {
        if i < self.t.len() {
            &self.s[self.t[i].a..self.t[i].b]
        } else {
            b""
        }
    }
    fn is(&self, i: usize, w: &[u8]) -> bool {
        i < self.t.len() && same(self.tok(i), w)
    }
    fn str(&self, i: usize) -> bool {
        i < self.t.len() && self.t[i].k == K::Str
    }
    /// end of the directives at the start
    fn prologue(&self) -> usize {
        let mut i = 0;
        while self.str(i) && self.is(i + 1, b";") {
            i += 2;
        }
        i
    }
    /// May an expression take the place of the string?
    fn expr(&self, i: usize) -> bool {
        let (p, n) = (if i > 0 { self.tok(i - 1) } else { b"" }, self.tok(i + 1));
        let start = p.is_empty() || same(p, b";") || same(p, b"{") || same(p, b"}");
        let end = n.is_empty() || same(n, b";") || same(n, b"}");
        let key = (same(p, b"{") || same(p, b",")) && same(n, b":");
        self.str(i) && !(start && end) && !key && !same(n, b"(") && !same(p, b"from") && !same(p, b"import")
    }
    /// Does what stands at `i` to `j` get a value there?
    fn changed(&self, i: usize, j: usize) -> bool {
        let (p, n) = (if i > 0 { self.tok(i - 1) } else { b"" }, self.tok(j + 1));
        let keyword: [&[u8]; 6] = [b"==", b"===", b"!=", b"!==", b"<=", b">="];
        if n.last() == Some(&b'=') && !keyword.iter().any(|k| same(k, n)) {
            return true;
        }
        let w: [&[u8]; 4] = [b"++", b"--", b"in", b"of"];
        if w.iter().any(|w| same(w, n)) || same(p, b"++") || same(p, b"--") || same(p, b"function") || same(p, b"class") {
            return true;
        }
        // destructuring
        let mut o = i;
        while o > 0 && self.is(o - 1, b",") && o > 1 {
            o -= 2;
        }
        let mut c = j + 1;
        while self.is(c, b",") {
            c += 2;
        }
        let index = o > 1 && (self.t[o - 2].k == K::Ident || self.is(o - 2, b"]") || self.is(o - 2, b")"));
        o > 0 && ((self.is(o - 1, b"[") && self.is(c, b"]") && !index) || (self.is(o - 1, b"{") && self.is(c, b"}"))) && self.is(c + 1, b"=")
    }
    /// Does the name hold the string `w` before the token `at`, and ever after?
    fn holds(&self, name: &[u8], w: &[u8], at: usize) -> bool {
        let mut depth = 0;
        let mut found = false;
        for i in 0..self.t.len() {
            let c = self.tok(i);
            if c.len() == 1 {
                match c[0] {
                    b'(' | b'{' => depth += 1,
                    b')' | b'}' => depth -= 1,
                    _ => {}
                }
            }
            if !same(c, name) {
                continue;
            }
            let n = self.tok(i + 1);
            if i > 0 && self.is(i - 1, b".") {
                continue;
            }
            if !same(n, b"=") {
                if self.changed(i, i) {
                    return false;
                }
                continue;
            }
            // the declaration
            let mut d = i;
            while d > 0 && !self.is(d, b"var") && !self.is(d, b"let") && !self.is(d, b";") {
                d -= 1;
            }
            let before = if d > 0 { self.tok(d - 1) } else { b"" };
            let cond = !(before.is_empty() || same(before, b";") || same(before, b"}"));
            let after = self.tok(i + 3);
            let whole = after.is_empty() || same(after, b",") || same(after, b";");
            if found || self.is(d, b";") || depth != 0 || cond || !whole || !same(self.tok(i + 2), w) || i >= at {
                return false;
            }
            found = true;
        }
        found
    }
}
fn tokens(s: &str) -> Option<P<'_>> {
    let mut l = lex(s.as_bytes());
    l.t.retain(|t| t.k != K::License);
    (!l.bad).then_some(P { s: s.as_bytes(), t: l.t })
}
fn size(p: &P) -> usize {
    p.t.iter().map(|t| t.b - t.a).sum()
}
/// JS07
pub fn js_agg(arg: u64) {
    let s = agg_text(arg);
    let Some(x) = tokens(&s) else {
        assume(false);
        return;
    };
    let Some(m) = agg(&s, arg / 100) else {
        check(false, 9);
        return;
    };
    reach(1);
    log(s.as_bytes());
    log(m.as_bytes());
    let Some(y) = tokens(&m) else {
        check(false, 10);
        return;
    };
    // the new variables
    let mut names: Vec<(&[u8], &[u8])> = vec![];
    let (mut i, mut j) = (0, 0);
    let p = x.prologue();
    while i < x.t.len() || j < y.t.len() {
        if i == p && i == j && y.t.len() > x.t.len() {
            check(y.is(j, b"var"), 2);
            loop {
                let (n, w) = (y.tok(j + 1), y.tok(j + 3));
                check(y.t[j + 1].k == K::Ident && y.is(j + 2, b"=") && y.str(j + 3), 3);
                for k in 0..x.t.len() {
                    // fresh
                    check(!same(x.tok(k), n) && !(x.t[k].k == K::Template && x.tok(k).windows(n.len()).any(|v| same(v, n))), 4);
                }
                for k in &names {
                    check(!same(k.0, n), 5);
                }
                names.push((n, w));
                j += 4;
                if !y.is(j, b",") {
                    break;
                }
            }
            check(y.is(j, b";"), 6);
            reach(2);
            j += 1;
        }
        check(i < x.t.len() && j < y.t.len(), 7);
        let (a, b) = (x.tok(i), y.tok(j));
        if !same(a, b) {
            check(y.t[j].k == K::Ident && x.expr(i), 8);
            let mut ok = false;
            for k in &names {
                ok |= same(k.0, b) && same(k.1, a);
            }
            if !ok {
                check(x.holds(b, a, i), 11);
            }
        }
        i += 1;
        j += 1;
    }
    check(size(&y) < size(&x) + if names.is_empty() { 1 } else { 5 }, 12);
}
/// JS08
pub fn js_array(arg: u64) {
    let s = agg_text(arg);
    let Some(x) = tokens(&s) else {
        assume(false);
        return;
    };
    let Some(m) = agg(&s, arg / 100) else {
        check(false, 9);
        return;
    };
    reach(1);
    log(s.as_bytes());
    log(m.as_bytes());
    let Some(y) = tokens(&m) else {
        check(false, 10);
        return;
    };
    let decl = |p: &P, i: usize| (p.is(i, b"var") || p.is(i, b"let") || p.is(i, b",")) && p.is(i + 1, b"R") && p.is(i + 2, b"=") && p.is(i + 3, b"[");
    let (mut rs, mut decls, mut depth) = (0, 0, 0);
    let mut top = vec![];
    for i in 0..x.t.len() {
        rs += x.is(i, b"R") as usize;
        if x.is(i, b"(") || x.is(i, b"{") {
            depth += 1;
        } else if x.is(i, b")") || x.is(i, b"}") {
            depth -= 1;
        }
        top.push(depth == 0 && decl(&x, i));
        decls += top[i] as usize;
    }
    // is the array used as a whole, or changed?
    let mut whole = false;
    for i in 0..x.t.len() {
        if x.is(i, b"R") && !(i > 0 && (x.is(i - 1, b".") || decl(&x, i - 1))) {
            whole |= !(x.is(i + 1, b"[") && x.is(i + 3, b"]")) || x.changed(i, i + 3);
        }
        if i > 0 && decl(&x, i - 1) {
            let mut e = i + 3;
            while e < x.t.len() && !x.is(e, b"]") {
                e += 1;
            }
            whole |= !x.tok(e + 1).is_empty() && !x.is(e + 1, b";") && !x.is(e + 1, b",");
        }
    }
    assume(decls <= 1);
    // the elements of the array
    let mut e: Vec<&[u8]> = vec![];
    let mut new = false;
    let (mut i, mut j) = (0, 0);
    let p = x.prologue();
    while i < x.t.len() || j < y.t.len() {
        if i == p && i == j && decl(&y, j) && !decl(&x, i) && rs == 0 {
            new = true;
            j += 4;
            while y.str(j) {
                e.push(y.tok(j));
                j += 1;
                if !y.is(j, b",") {
                    break;
                }
                j += 1;
            }
            check(!e.is_empty() && y.is(j, b"]") && y.is(j + 1, b";"), 2);
            j += 2;
        }
        check(i < x.t.len() && j < y.t.len(), 7);
        if top[i] {
            check(decl(&y, j), 3);
            i += 4;
            j += 4;
            let a = i;
            let mut plain = true;
            while !x.is(i, b"]") {
                check(same(x.tok(i), y.tok(j)), 4);
                plain &= if (i - a) % 2 == 0 { x.str(i) } else { x.is(i, b",") };
                e.push(y.tok(j));
                i += 1;
                j += 1;
            }
            plain &= (i - a) % 2 == 1 || i == a;
            if !plain {
                // of anything else: not touched
                e.clear();
            }
            let mut k = 0;
            e.retain(|_| {
                k += 1;
                k % 2 == 1
            });
            while !y.is(j, b"]") {
                check(plain && !whole, 5);
                if e.len() > 0 {
                    check(y.is(j, b","), 6);
                    j += 1;
                }
                check(y.str(j), 6);
                e.push(y.tok(j));
                j += 1;
            }
            continue;
        }
        let (a, b) = (x.tok(i), y.tok(j));
        if !same(a, b) {
            check(x.expr(i) && y.is(j, b"R") && y.is(j + 1, b"[") && y.is(j + 3, b"]"), 8);
            reach(2);
            check(!whole, 17);
            let mut n = 0;
            for &c in y.tok(j + 2) {
                check(c >= b'0' && c <= b'9', 11);
                n = n * 10 + (c - b'0') as usize;
            }
            check(n < e.len(), 12);
            let w = e[n];
            check(same(&w[1..w.len() - 1], &a[1..a.len() - 1]), 13);
            check(w[0] == a[0] || !a[1..a.len() - 1].contains(&b'"'), 14);
            check(arg / 100 < 8 || !same(a, POOL[0].as_bytes()), 15);
            j += 3;
        }
        i += 1;
        j += 1;
    }
    check(size(&y) < size(&x) + if new { 9 } else { 1 }, 16);
}

// ------------------------------------------------------------------ what is cleaned
fn clean(s: &str, mode: u64) -> Option<String> {
    use minifier::js::*;
    let Ok(t) = simple_minify(s) else { return None };
    let c = |t: &Token, x| t.get_char() == Some(x);
    let t = t.apply(|t| match mode {
        0 => clean_tokens_except(t, |t| !c(t, ReservedChar::Backline)),
        1 => clean_tokens_except(t, |t| !t.is_comment()),
        2 => clean_tokens_except(t, |t| !c(t, ReservedChar::Space) && !c(t, ReservedChar::SemiColon)),
        3 => t,
        4 => clean_tokens_except(t, |_| true),
        5 => clean_tokens_except(t, |t| !c(t, ReservedChar::Backline) && !t.is_comment()),
        6 => clean_tokens_except(t, |_| false),
        _ => replace_tokens_with(t, |t| t.is_comment().then_some(Token::Char(ReservedChar::Space))),
    });
    Some(t.to_string())
}
/// JS09, arg = 10000 * mode + text
pub fn js_except(arg: u64) {
    let mode = arg / 10000;
    let s = text(arg % 10000);
    let x = lex(s.as_bytes());
    assume(!x.bad);
    let Some(m) = clean(&s, mode) else {
        check(false, 9);
        return;
    };
    reach(1);
    log(s.as_bytes());
    log(m.as_bytes());
    let (s, m) = (s.as_bytes(), m.as_bytes());
    let y = lex(m);
    check(!y.bad, 2);
    let px = P { s, t: x.t };
    let py = P { s: m, t: y.t };
    let semi = mode == 0 || mode == 1 || mode == 4 || mode == 5;
    let lines = mode == 0 || mode == 3 || mode >= 5;
    let comments = mode == 1 || mode == 3 || mode == 5 || mode == 6;
    let (mut i, mut j) = (0, 0);
    let mut first = true;
    let mut last: &[u8] = b"";
    while i < px.t.len() {
        let w = px.tok(i);
        if !(j < py.t.len() && same_token(s, px.t[i], m, py.t[j])) || (semi && same(w, b";") && !py.is(j, b";")) {
            // a semicolon that is not needed
            let n = px.tok(i + 1);
            let end = n.is_empty() || same(n, b"}");
            let body = same(last, b")") || same(last, b"do") || same(last, b"else") || same(last, b":");
            check(semi && same(w, b";") && (first || (end && !body)), 1);
        } else {
            check(!lines || !x.nl[i] || y.nl[j], 4);
            j += 1;
            first = false;
        }
        if px.t[i].k != K::License {
            last = w;
        }
        i += 1;
    }
    check(j == py.t.len(), 3);
    // comments
    if comments {
        check(x.c.len() == y.c.len(), 5);
        for i in 0..x.c.len() {
            check(same(&s[x.c[i].0..x.c[i].1], &m[y.c[i].0..y.c[i].1]), 6);
        }
    } else {
        check(y.c.is_empty(), 7);
    }
    if (mode == 3 || mode == 6) && x.c.is_empty() && !px.t.iter().any(|t| t.k == K::Regex) {
        let mut e = s.len() == m.len();
        for i in 0..s.len().min(m.len()) {
            e &= s[i] == m[i] || (s[i] == b'\r' && m[i] == b'\n');
        }
        check(e, 8);
    }
}

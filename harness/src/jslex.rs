//! ECMAScript lexer, written from the specification (the oracle side).
use crate::csslex::{digit, hexd};
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Ident,
    Num,
    Str,
    Template,
    Regex,
    Punct,
    License,
}
#[derive(Clone, Copy)]
pub struct T {
    pub k: K,
    pub a: usize,
    pub b: usize,
}
pub struct Lexed {
    pub t: Vec<T>,
    /// ordinary comments seen
    pub comments: usize,
    /// what they hold
    pub c: Vec<(usize, usize)>,
    /// for each token: is there a line feed before it, outside comments?
    pub nl: Vec<bool>,
    /// not ECMAScript, or outside what this lexer decides
    pub bad: bool,
}
fn at(s: &[u8], i: usize) -> u8 {
    if i < s.len() {
        s[i]
    } else {
        0
    }
}
pub fn is_ws(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r'
}
fn newline(s: &[u8], i: usize) -> bool {
    let c = at(s, i);
    i < s.len() && (c == b'\n' || c == b'\r' || is_ls(s, i))
}
/// U+2028 or U+2029
fn is_ls(s: &[u8], i: usize) -> bool {
    at(s, i) == 0xe2 && at(s, i + 1) == 0x80 && (at(s, i + 2) == 0xa8 || at(s, i + 2) == 0xa9)
}
/// whitespace besides space, tab, LF and CR
fn rare_ws(s: &[u8], i: usize) -> bool {
    let c = at(s, i);
    c == 0x0b
        || c == 0x0c
        || (c == 0xc2 && at(s, i + 1) == 0xa0)
        || (c == 0xef && at(s, i + 1) == 0xbb && at(s, i + 2) == 0xbf)
        || (c == 0xe1 && at(s, i + 1) == 0x9a && at(s, i + 2) == 0x80)
        || (c == 0xe2 && at(s, i + 1) == 0x80 && at(s, i + 2) <= 0xaf)
        || (c == 0xe2 && at(s, i + 1) == 0x81 && at(s, i + 2) == 0x9f)
        || (c == 0xe3 && at(s, i + 1) == 0x80 && at(s, i + 2) == 0x80)
}
pub fn id_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c >= 0x80
}
pub fn id_part(c: u8) -> bool {
    id_start(c) || digit(c)
}
fn eat_id(s: &[u8], mut i: usize, bad: &mut bool) -> usize {
    while i < s.len() && id_part(s[i]) {
        if s[i] >= 0x80 && rare_ws(s, i) {
            *bad = true;
        }
        i += 1;
    }
    i
}
fn eat_digits(s: &[u8], mut i: usize) -> usize {
    while digit(at(s, i)) || at(s, i) == b'_' {
        i += 1;
    }
    i
}
fn eat_number(s: &[u8], a: usize, bad: &mut bool) -> usize {
    let mut i = a;
    let x = at(s, i + 1) | 32;
    if s[i] == b'0' && (x == b'x' || x == b'o' || x == b'b') {
        i += 2;
        if !hexd(at(s, i)) {
            *bad = true;
        }
        while hexd(at(s, i)) || at(s, i) == b'_' {
            i += 1;
        }
        if at(s, i) == b'n' {
            i += 1;
        }
    } else if s[i] == b'0' && digit(x) {
        // legacy octal, or decimal
        let mut oct = true;
        while digit(at(s, i)) {
            oct &= s[i] < b'8';
            i += 1;
        }
        if at(s, i) == b'_' || at(s, i) == b'n' || at(s, i) == b'.' || (!oct && at(s, i) | 32 == b'e') {
            *bad = true;
        }
    } else {
        i = eat_digits(s, i);
        if at(s, i) == b'n' {
            i += 1;
        } else {
            if at(s, i) == b'.' {
                i = eat_digits(s, i + 1);
            }
            if at(s, i) | 32 == b'e' {
                let mut j = i + 1;
                if at(s, j) == b'+' || at(s, j) == b'-' {
                    j += 1;
                }
                if digit(at(s, j)) {
                    i = eat_digits(s, j);
                }
            }
        }
    }
    if (i < s.len() && (id_part(s[i]) || s[i] == b'\\')) || s[i - 1] == b'_' {
        *bad = true;
    }
    i
}
/// after the string whose opening quote is at `i`
fn eat_string(s: &[u8], i: usize, bad: &mut bool) -> usize {
    let q = s[i];
    let mut i = i + 1;
    loop {
        if i >= s.len() || s[i] == b'\n' || s[i] == b'\r' {
            *bad = true;
            return i;
        }
        let c = s[i];
        i += 1;
        if c == q {
            return i;
        }
        if c == b'\\' {
            if i >= s.len() {
                *bad = true;
                return i;
            }
            i += 1;
        }
    }
}
/// after the template whose opening backtick is at `i`
fn eat_template(s: &[u8], i: usize, bad: &mut bool) -> usize {
    let mut i = i + 1;
    loop {
        if i >= s.len() {
            *bad = true;
            return s.len();
        }
        let c = s[i];
        i += 1;
        if c == b'`' {
            return i;
        }
        if c == b'\\' {
            i += 1;
        } else if c == b'$' && at(s, i) == b'{' {
            i += 1;
            let mut depth = 1;
            while depth > 0 {
                if i >= s.len() {
                    *bad = true;
                    return s.len();
                }
                let c = s[i];
                if c == b'`' {
                    i = eat_template(s, i, bad);
                } else if c == b'"' || c == b'\'' {
                    i = eat_string(s, i, bad);
                } else {
                    if c == b'{' {
                        depth += 1;
                    } else if c == b'}' {
                        depth -= 1;
                    } else if c == b'/' || c == b'\\' {
                        // comments and regular expressions in there are outside
                        *bad = true;
                    }
                    i += 1;
                }
            }
        }
    }
}
fn eat_regex(s: &[u8], i: usize, bad: &mut bool) -> usize {
    let mut i = i + 1;
    let mut class = false;
    loop {
        if i >= s.len() || newline(s, i) {
            *bad = true;
            return i;
        }
        let c = s[i];
        i += 1;
        if c == b'\\' {
            if i >= s.len() || newline(s, i) {
                *bad = true;
                return i;
            }
            i += 1;
        } else if c == b'[' {
            class = true;
        } else if c == b']' {
            class = false;
        } else if c == b'/' && !class {
            break;
        }
    }
    let a = i;
    while i < s.len() && id_part(s[i]) {
        // flags are d g i m s u v y, each at most once
        let c = s[i];
        let mut ok = c == b'd' || c == b'g' || c == b'i' || c == b'm' || c == b's' || c == b'u' || c == b'v' || c == b'y';
        for j in a..i {
            ok &= s[j] != c;
        }
        if !ok {
            *bad = true;
        }
        i += 1;
    }
    i
}
const PUNCT: [&[u8]; 37] = [
    b"<!--", b">>>=", b"...", b"===", b"!==", b"**=", b"<<=", b">>=", b">>>", b"&&=", b"||=", b"??=", b"=>", b"==", b"!=", b"<=", b">=", b"&&", b"||", b"??", b"?.", b"++", b"--", b"+=",
    b"-=", b"*=", b"/=", b"%=", b"&=", b"|=", b"^=", b"<<", b">>", b"**", b"+", b"-", b"/",
];
fn is(s: &[u8], t: T, w: &[u8]) -> bool {
    if t.b - t.a != w.len() {
        return false;
    }
    for i in 0..w.len() {
        if s[t.a + i] != w[i] {
            return false;
        }
    }
    true
}
/// May a regular expression start after the tokens `t`?  None: this lexer does not decide.
fn regex_allowed(s: &[u8], t: &[T]) -> Option<bool> {
    let mut n = t.len();
    while n > 0 && t[n - 1].k == K::License {
        n -= 1;
    }
    if n == 0 {
        return Some(true);
    }
    let p = t[n - 1];
    match p.k {
        K::Ident => {
            let w: [&[u8]; 10] = [b"return", b"typeof", b"case", b"do", b"else", b"in", b"instanceof", b"new", b"throw", b"delete"];
            let mut kw = is(s, p, b"void");
            for x in w {
                kw |= is(s, p, x);
            }
            let u: [&[u8]; 5] = [b"yield", b"await", b"of", b"extends", b"default"];
            let mut un = false;
            for x in u {
                un |= is(s, p, x);
            }
            if un {
                return None;
            }
            if kw {
                // a property name?
                let mut m = n - 1;
                while m > 0 && t[m - 1].k == K::License {
                    m -= 1;
                }
                return Some(!(m > 0 && (is(s, t[m - 1], b".") || is(s, t[m - 1], b"?."))));
            }
            Some(false)
        }
        K::Num | K::Str | K::Template | K::Regex => Some(false),
        _ => {
            if is(s, p, b")") || is(s, p, b"]") || is(s, p, b"++") || is(s, p, b"--") {
                Some(false)
            } else if is(s, p, b"}") || is(s, p, b"^") || is(s, p, b"~") || is(s, p, b"^=") {
                None
            } else {
                Some(true)
            }
        }
    }
}
pub fn lex(s: &[u8]) -> Lexed {
    let mut r = Lexed { t: Vec::new(), comments: 0, c: Vec::new(), nl: Vec::new(), bad: false };
    let mut i = 0;
    let mut nl = false;
    while i < s.len() && !r.bad {
        let a = i;
        let c = s[i];
        if is_ws(c) {
            nl |= c == b'\n';
            i += 1;
            continue;
        }
        if c == b'/' && at(s, i + 1) == b'/' {
            r.comments += 1;
            while i < s.len() && !newline(s, i) {
                i += 1;
            }
            r.c.push((a + 2, i));
            if is_ls(s, i) {
                i += 3;
                nl = true;
            }
            continue;
        }
        if c == b'/' && at(s, i + 1) == b'*' {
            let lic = at(s, i + 2) == b'!';
            let mut j = i + 2;
            loop {
                if j + 1 >= s.len() {
                    r.bad = true;
                    return r;
                }
                if s[j] == b'*' && s[j + 1] == b'/' {
                    break;
                }
                j += 1;
            }
            i = j + 2;
            if lic {
                r.t.push(T { k: K::License, a, b: i });
                r.nl.push(nl);
                nl = false;
            } else {
                r.c.push((a + 2, i - 2));
                r.comments += 1;
            }
            continue;
        }
        let k;
        if c == b'"' || c == b'\'' {
            i = eat_string(s, i, &mut r.bad);
            k = K::Str;
        } else if c == b'`' {
            i = eat_template(s, i, &mut r.bad);
            k = K::Template;
        } else if digit(c) || (c == b'.' && digit(at(s, i + 1))) {
            i = eat_number(s, i, &mut r.bad);
            k = K::Num;
        } else if id_start(c) || (c == b'#' && i + 1 < s.len() && id_start(s[i + 1])) {
            i = eat_id(s, i + 1, &mut r.bad);
            if c >= 0x80 && rare_ws(s, a) {
                r.bad = true;
            }
            k = K::Ident;
        } else if c < 0x20 || c == 0x7f || c == b'\\' || c == b'#' {
            r.bad = true;
            return r;
        } else {
            if c == b'/' {
                match regex_allowed(s, &r.t) {
                    None => {
                        r.bad = true;
                        return r;
                    }
                    Some(true) => {
                        i = eat_regex(s, i, &mut r.bad);
                        if let Some(&p) = r.t.last() {
                            r.bad |= is(s, p, b".") || is(s, p, b"?.") || is(s, p, b"@");
                        }
                        r.t.push(T { k: K::Regex, a, b: i });
                        r.nl.push(nl);
                        nl = false;
                        continue;
                    }
                    Some(false) => {}
                }
            }
            i += 1;
            for p in PUNCT {
                if p[0] == c && a + p.len() <= s.len() {
                    let mut e = true;
                    for q in 1..p.len() {
                        e &= s[a + q] == p[q];
                    }
                    // `a?.5:b`
                    if e && !(p.len() == 2 && c == b'?' && p[1] == b'.' && digit(at(s, a + 2))) {
                        i = a + p.len();
                        break;
                    }
                }
            }
            k = K::Punct;
        }
        if let Some(&p) = r.t.last() {
            // never adjacent in a program
            if p.b < a && k == K::Punct && p.k == K::Punct && (no_pair(s[p.b - 1], c) || (i > a + 1 && s[a + 1] == b'=' && no_pair(s[p.b - 1], b'='))) {
                r.bad = true;
            }
            // outside: `^5. in a`
            if k == K::Num && s[i - 1] == b'.' && (is(s, p, b"^") || is(s, p, b"~")) {
                r.bad = true;
            }
            if k == K::Num && (p.k == K::Num || p.k == K::Regex || is(s, p, b"?.") || is(s, p, b"...")) {
                r.bad = true;
            }
            if k != K::Ident && k != K::License && (is(s, p, b".") || is(s, p, b"@") || (is(s, p, b"?.") && c != b'(' && c != b'[' && c != b'`')) {
                r.bad = true;
            }
        }
        r.t.push(T { k, a, b: i });
        r.nl.push(nl);
        nl = false;
    }
    r
}
/// Punctuators that no program has next to each other, and which would be another one without the gap.
fn no_pair(c: u8, d: u8) -> bool {
    match d {
        b'=' => c == b'=' || c == b'!' || c == b'<' || c == b'>' || c == b'+' || c == b'-' || c == b'*' || c == b'/' || c == b'%' || c == b'&' || c == b'|' || c == b'^' || c == b'?',
        b'&' | b'|' | b'*' | b'<' | b'?' => c == d || (c == b'/' && d == b'*'),
        b'>' => c == b'=' || c == b'>',
        b'.' => c == b'?' || c == b'.',
        _ => false,
    }
}

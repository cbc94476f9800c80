//! CSS Syntax Module Level 3 tokenizer, written from the specification (the oracle side).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Ident,
    Function,
    At,
    Hash,
    Str,
    BadStr,
    Url,
    BadUrl,
    Num,
    Perc,
    Dim,
    Delim,
    /// `~= |= ^= $= *=`
    Match,
    Cdo,
    Cdc,
    Punct,
    License,
}
#[derive(Clone, Copy)]
pub struct T {
    pub k: K,
    pub a: usize,
    pub b: usize,
    /// whitespace or an ordinary comment or a licence comment directly before
    pub gap: bool,
    /// whitespace directly before (comments skipped over)
    pub ws: bool,
}
pub struct Lexed {
    pub t: Vec<T>,
    /// ordinary comments seen
    pub comments: usize,
    pub unclosed: bool,
    pub trailing_ws: bool,
}
pub fn is_ws(c: u8) -> bool {
    c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' || c == 0x0c
}
fn newline(c: u8) -> bool {
    c == b'\n' || c == b'\r' || c == 0x0c
}
pub fn digit(c: u8) -> bool {
    c.is_ascii_digit()
}
pub fn name_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_' || c >= 0x80
}
pub fn name(c: u8) -> bool {
    name_start(c) || digit(c) || c == b'-'
}
pub fn hexd(c: u8) -> bool {
    digit(c) || (c | 32 >= b'a' && c | 32 <= b'f')
}
fn at(s: &[u8], i: usize) -> u8 {
    if i < s.len() {
        s[i]
    } else {
        0
    }
}
fn valid_escape(s: &[u8], i: usize) -> bool {
    i + 1 < s.len() && s[i] == b'\\' && !newline(s[i + 1])
}
fn starts_ident(s: &[u8], i: usize) -> bool {
    let c = at(s, i);
    if i >= s.len() {
        return false;
    }
    if c == b'-' {
        return at(s, i + 1) == b'-' || (i + 1 < s.len() && name_start(s[i + 1])) || valid_escape(s, i + 1);
    }
    name_start(c) || valid_escape(s, i)
}
fn starts_number(s: &[u8], i: usize) -> bool {
    let c = at(s, i);
    if c == b'+' || c == b'-' {
        return digit(at(s, i + 1)) || (at(s, i + 1) == b'.' && digit(at(s, i + 2)));
    }
    if c == b'.' {
        return digit(at(s, i + 1));
    }
    digit(c)
}
/// position after the escape whose backslash is at `i`
pub fn escape(s: &[u8], i: usize) -> usize {
    let mut i = i + 1;
    if hexd(at(s, i)) {
        let mut n = 0;
        while n < 6 && i < s.len() && hexd(s[i]) {
            i += 1;
            n += 1;
        }
        if i < s.len() && is_ws(s[i]) {
            i += 1;
        }
        return i;
    }
    i + 1
}
fn eat_name(s: &[u8], mut i: usize) -> usize {
    loop {
        if i < s.len() && name(s[i]) {
            i += 1;
        } else if valid_escape(s, i) {
            i = escape(s, i);
        } else {
            return i;
        }
    }
}
fn eat_number(s: &[u8], mut i: usize) -> usize {
    if at(s, i) == b'+' || at(s, i) == b'-' {
        i += 1;
    }
    while digit(at(s, i)) {
        i += 1;
    }
    if at(s, i) == b'.' && digit(at(s, i + 1)) {
        i += 1;
        while digit(at(s, i)) {
            i += 1;
        }
    }
    if at(s, i) | 32 == b'e' {
        let j = i + 1;
        if digit(at(s, j)) || ((at(s, j) == b'+' || at(s, j) == b'-') && digit(at(s, j + 1))) {
            i = j + 1;
            while digit(at(s, i)) {
                i += 1;
            }
        }
    }
    i
}
/// Is the comment starting at `i` (its `/*`) kept by convention?  (`/*!` and `/**` but not `/**/`)
pub fn is_license(s: &[u8], i: usize) -> bool {
    at(s, i + 2) == b'!' || (at(s, i + 2) == b'*' && at(s, i + 3) != b'/')
}
pub fn lex(s: &[u8]) -> Lexed {
    let mut r = Lexed { t: Vec::new(), comments: 0, unclosed: false, trailing_ws: false };
    let mut i = 0;
    let mut gap = false;
    let mut ws = false;
    while i < s.len() {
        let a = i;
        let c = s[i];
        if is_ws(c) {
            gap = true;
            ws = true;
            i += 1;
            continue;
        }
        if c == b'/' && at(s, i + 1) == b'*' {
            let lic = is_license(s, i);
            let mut j = i + 2;
            loop {
                if j + 1 >= s.len() {
                    r.unclosed = true;
                    return r;
                }
                if s[j] == b'*' && s[j + 1] == b'/' {
                    break;
                }
                j += 1;
            }
            i = j + 2;
            if lic {
                r.t.push(T { k: K::License, a, b: i, gap, ws });
            } else {
                r.comments += 1;
            }
            gap = true;
            continue;
        }
        let k;
        if c == b'"' || c == b'\'' {
            i += 1;
            k = loop {
                if i >= s.len() {
                    break K::BadStr;
                }
                let d = s[i];
                if d == c {
                    i += 1;
                    break K::Str;
                }
                if newline(d) {
                    break K::BadStr;
                }
                if d == b'\\' {
                    i += 1;
                    if i >= s.len() {
                        break K::BadStr;
                    }
                    i += 1;
                } else {
                    i += 1;
                }
            };
        } else if starts_number(s, i) {
            i = eat_number(s, i);
            if starts_ident(s, i) {
                i = eat_name(s, i);
                k = K::Dim;
            } else if at(s, i) == b'%' {
                i += 1;
                k = K::Perc;
            } else {
                k = K::Num;
            }
        } else if c == b'-' && at(s, i + 1) == b'-' && at(s, i + 2) == b'>' {
            i += 3;
            k = K::Cdc;
        } else if starts_ident(s, i) {
            i = eat_name(s, i);
            if at(s, i) == b'(' {
                let url = i - a == 3 && s[a] | 32 == b'u' && s[a + 1] | 32 == b'r' && s[a + 2] | 32 == b'l';
                i += 1;
                let mut kk = K::Function;
                if url {
                    let mut j = i;
                    while j < s.len() && is_ws(s[j]) {
                        j += 1;
                    }
                    if !(at(s, j) == b'"' || at(s, j) == b'\'') {
                        kk = K::Url;
                        i = j;
                        let mut sp = false;
                        while i < s.len() {
                            let d = s[i];
                            if d == b')' {
                                break;
                            }
                            if is_ws(d) {
                                sp = true;
                                i += 1;
                                continue;
                            }
                            if sp || d == b'"' || d == b'\'' || d == b'(' || d < 0x20 || d == 0x7f {
                                kk = K::BadUrl;
                            }
                            if d == b'\\' {
                                if !valid_escape(s, i) {
                                    kk = K::BadUrl;
                                }
                                i += 1;
                            }
                            i += 1;
                        }
                        if i > s.len() {
                            i = s.len();
                        }
                        if i < s.len() {
                            i += 1;
                        }
                    }
                }
                k = kk;
            } else {
                k = K::Ident;
            }
        } else if c == b'#' && i + 1 < s.len() && (name(s[i + 1]) || valid_escape(s, i + 1)) {
            i = eat_name(s, i + 1);
            k = K::Hash;
        } else if c == b'@' && starts_ident(s, i + 1) {
            i = eat_name(s, i + 1);
            k = K::At;
        } else if c == b'<' && at(s, i + 1) == b'!' && at(s, i + 2) == b'-' && at(s, i + 3) == b'-' {
            i += 4;
            k = K::Cdo;
        } else if c == b'(' || c == b')' || c == b'[' || c == b']' || c == b'{' || c == b'}' || c == b',' || c == b':' || c == b';' {
            i += 1;
            k = K::Punct;
        } else if (c == b'~' || c == b'|' || c == b'^' || c == b'$' || c == b'*') && at(s, i + 1) == b'=' {
            i += 2;
            k = K::Match;
        } else {
            i += 1;
            k = K::Delim;
        }
        r.t.push(T { k, a, b: i, gap, ws });
        gap = false;
        ws = false;
    }
    r.trailing_ws = ws;
    r
}

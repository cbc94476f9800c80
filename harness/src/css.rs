//! CSS harnesses.
use crate::csslex::*;
use crate::rt::*;
use crate::util::*;

pub fn min(s: &str) -> Option<String> {
    match minifier::css::minify(s) {
        Ok(m) => Some(m.to_string()),
        Err(_) => None,
    }
}
/// the minified text; lexically complete input is never refused
fn must(s: &str) -> Option<String> {
    let m = min(s);
    if m.is_none() {
        check(!balanced(s.as_bytes()), 90);
    }
    m
}
const CTX: [(&str, &str); 40] = [
    ("", ""),
    ("", "{a:b}"),
    ("a{", "}"),
    ("a{b:", "}"),
    ("a{b:calc(", ")}"),
    ("@media ", "{a{b:c}}"),
    ("@media x{", "{b:c}}"),
    ("a[", "]{b:c}"),
    ("a{b:url(", ")}"),
    ("@import ", ";a{b:c}"),
    ("a{b:c}", "{d:e}"),
    ("a:not(", "){b:c}"),
    ("/*! x */", "{a:b}"),
    ("a{b:\"x\" ", ";c:d}"),
    ("@media x{a{b:", "}}"),
    ("@font-face{a:", "}b{c:d}"),
    ("a{b:c;", ":d}"),
    ("/* x ", "*/a{b:c}"),
    ("/*! x ", "*/a{b:c}"),
    ("a{b:\"", "\"}"),
    // 20: nested at-rules, nested style rules, math functions elsewhere, declarations of at-rules
    ("@media x{@supports y{", "{b:c}}}"),
    ("a{b:c;", "{d:e}}"),
    ("a{--x:", ";c:d}"),
    ("a{b:c(1px ", " 2px)}"),
    ("@page{b:min(", ")}"),
    ("@media x{@supports ", "{a{b:c}}}"),
    ("@supports (a:b) ", "{c{d:e}}"),
    (".a\\:b", "c{d:e}"),
    ("a{b:f(g(", ")) h}"),
    ("@media x{}a", "b{c:d}"),
    // 30
    ("/*", " x*/a{b:c}"),
    ("@charset \"x\";", "a{b:c}"),
    ("@media x{a{b:c}}d ", "e{f:g}@media y{h i{j:k}}"),
    ("@import \"x\" y;a ", "b{c:d}"),
    ("a{b:calc((1px)", "(2px))}"),
    ("a[b", "c]{d:e}"),
    ("a[b]", "[c]{d:e}"),
    ("@keyframes x{from{a:b}", "{c:d}}"),
    ("a{b:url(x)", "url(y)}"),
    ("@media x{a{b:c}", "d{e:f}}"),
];
const LEX: [&str; 32] = [
    "a", "_b", "1px", ".c", "#d", "*", ":e", "::f", "[g]", "[h~=i]", ":not(j)", ")", "(", "+", "-", ">", ",", "\"k\"", "calc(", "url(",
    "\\9", "and", "!x", "@l", "/", "-1", "+2", "%", "~", "=", "|", "\u{e9}",
];
/// arg = ctx * 10 + n: `n` free bytes inside the context
/// arg = 1000 + ctx * 10 + n: `n` lexemes with free gaps inside the context
/// arg = 2000 + i: large inputs
/// arg = 4000 + context: one of many words
pub fn text(arg: u64) -> String {
    if arg >= 4000 {
        return words(arg as usize - 4000);
    }
    if arg >= 2000 {
        return large(arg as usize - 2000);
    }
    let (p, q) = CTX[arg as usize % 1000 / 10];
    let mut o = p.as_bytes().to_vec();
    if arg < 1000 {
        for _ in 0..arg % 10 {
            o.push(byte());
        }
    } else {
        let n = arg % 10;
        for i in 0..=n {
            match pick(4) {
                0 => {}
                1 => o.push(b' '),
                2 => o.extend_from_slice(b"/**/"),
                _ => o.extend_from_slice(b"\n/*x*/ "),
            }
            if i < n {
                o.extend_from_slice(LEX[pick(LEX.len())].as_bytes());
            }
        }
    }
    o.extend_from_slice(q.as_bytes());
    utf8(o)
}
const WORDS: &str = "media supports container layer import page keyframes font-face charset namespace property scope starting-style -webkit-keyframes counter-style \
    calc min max clamp url var rgb rgba hsl translate -webkit-calc -moz-calc env attr not is where has nth-child nth-last-of-type host slotted lang before after hover first-line calcs xcalc \
    and or only from to all screen print important px em rem Q s ms deg fr dppx e E e3 n n-1 5 50% 1.5 1e3 .5 a b div span table -x --x --calc _y \\62 \u{e9} MEDIA CALC NOT";
const WORD: [(&str, &str); 20] = [
    ("@", " ( a : b ) and (c) { d { e : f } }"),
    ("@", " x ; a b { c : d }"),
    ("@", " a + 3 { b c : d }"),
    ("@media ", " and ( a ) , b { c { d : e } }"),
    ("@media x{", " y , * z { a : b } }"),
    ("", " + b > c { d : e }"),
    ("a ", " [ b = c ] d { e : f }"),
    ("a :", " b , c { d : e }"),
    ("a:", " ( b + c ) d { e : f }"),
    ("a:", "( 2n + 1 ) .d { e : f }"),
    ("a::", " > b { c : d }"),
    (".", " .b * { c : d }"),
    ("a[ ", " ~= \" x \" i ] b { d : e }"),
    ("a { b : ", "( 1px + 2px * ( -3 - 4em ) ) c + d ; e f : g }"),
    ("a { b : 1px + ", " * 2 / 3 ; c : d }"),
    ("a { b : c ( 1px ) ", " ( 2px + 3px ) ; d : e }"),
    ("a { b : 10", " + -20 / c ; d : e }"),
    ("a { ", " : b + c ; d : e }"),
    ("a { b : c !", " ; d : e }"),
    ("a { b : c ; ", " d : e { f : g } }"),
];
/// `i`: with one of many words, without and with a space before
fn words(i: usize) -> String {
    let (p, q) = WORD[i];
    let mut o = p.as_bytes().to_vec();
    let w = WORDS.split_ascii_whitespace().nth(pick(WORDS.split_ascii_whitespace().count())).unwrap_or("");
    o.extend_from_slice(w.as_bytes());
    // the gap after it, if any
    match pick(3) {
        0 => o.extend_from_slice(q.as_bytes()),
        1 => {
            o.extend_from_slice(b" /* x */");
            o.extend_from_slice(q.as_bytes());
        }
        _ => o.extend_from_slice(q.trim_start().as_bytes()),
    }
    utf8(o)
}
/// `i / 100` selects the shape, `i % 100` the size
fn large(i: usize) -> String {
    let k = i % 100;
    let n = if k < SIZES.len() { SIZES[k] } else { BIG[(k - SIZES.len()) % BIG.len()] };
    let mut o = vec![];
    match i / 100 {
        0 => {
            // long identifier, long value
            o.extend_from_slice(b".x");
            rep(&mut o, b'y', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" z { a : b");
            rep(&mut o, b'0', n);
            o.extend_from_slice(b" c }");
        }
        1 => {
            // long string
            o.extend_from_slice(b"a { b : \"");
            rep(&mut o, b' ', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" \" 'c  d' }");
        }
        2 => {
            // long comment
            o.extend_from_slice(b"a /* ");
            rep(&mut o, b'x', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" */ b { c : d }");
        }
        3 => {
            // long licence comment
            o.extend_from_slice(b"/*! ");
            rep(&mut o, b'x', n);
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" */ b { c : d }");
        }
        4 => {
            // whitespace runs
            o.push(b'a');
            rep(&mut o, b'\n', n);
            o.push(byte());
            o.push(byte());
            rep(&mut o, b' ', n);
            o.extend_from_slice(b"b {\t");
            rep(&mut o, b'\t', n);
            o.extend_from_slice(b"c : d }");
        }
        5 => {
            // many rules
            for _ in 0..n {
                o.extend_from_slice(b"a > b { c : d ; }\n");
            }
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" a { b : c }");
        }
        6 => {
            // many selectors and declarations
            for _ in 0..n {
                o.extend_from_slice(b"a .b , ");
            }
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" {");
            for _ in 0..n {
                o.extend_from_slice(b"c : d e ; ");
            }
            o.push(b'}');
        }
        7 => {
            // nested blocks and parentheses
            let n = n % 130;
            for _ in 0..n {
                o.extend_from_slice(b"@media x { ");
            }
            o.extend_from_slice(b"a ");
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" { b : calc(");
            for _ in 0..n {
                o.extend_from_slice(b"( 1px + 2px) * ");
            }
            o.extend_from_slice(b"3) }");
            for _ in 0..n {
                o.extend_from_slice(b" }");
            }
        }
        _ => {
            // many comments and licences
            for _ in 0..n {
                o.extend_from_slice(b"/* a */ /*! b */ ");
            }
            o.push(byte());
            o.push(byte());
            o.extend_from_slice(b" a { b : c }");
        }
    }
    utf8(o)
}
/// Everything but whitespace and ordinary comments; licence comments in their normal form.
pub fn erase(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    let mut url = false;
    let mut run = 0;
    while i < s.len() {
        let c = s[i];
        if is_ws(c) {
            i += 1;
            run = i;
        } else if c == b'\\' {
            let e = escape(s, i);
            o.push(c);
            i += 1;
            if i < s.len() {
                o.push(s[i]);
                i += 1;
            }
            while i < e && i < s.len() {
                if !is_ws(s[i]) {
                    o.push(s[i]);
                }
                i += 1;
            }
        } else if c == b'"' || c == b'\'' {
            o.push(c);
            i += 1;
            while i < s.len() && s[i] != c {
                if s[i] == b'\\' {
                    o.push(s[i]);
                    i += 1;
                    if i >= s.len() {
                        break;
                    }
                }
                o.push(s[i]);
                i += 1;
            }
            if i < s.len() {
                o.push(c);
                i += 1;
            }
            run = i;
        } else if !url && c == b'/' && i + 1 < s.len() && s[i + 1] == b'*' {
            let lic = is_license(s, i);
            let mut j = i + 2;
            while j + 1 < s.len() && !(s[j] == b'*' && s[j + 1] == b'/') {
                j += 1;
            }
            if lic {
                o.extend_from_slice(b"/*!");
                o.extend_from_slice(&s[i + 3..j]);
                o.extend_from_slice(b"*/");
            }
            i = j + 2;
            run = i;
        } else {
            if c == b'(' {
                url = url || is_url(s, run, i);
            } else if c == b')' {
                url = false;
            }
            o.push(c);
            i += 1;
            if !(name(c) || c == b'#' || c == b'@') {
                run = i;
            }
        }
    }
    o
}
/// a token with each hexadecimal escape ended by one space
fn norm(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len() + 1);
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() && hexd(s[i + 1]) {
            let e = escape(s, i);
            while i < e {
                if !is_ws(s[i]) {
                    o.push(s[i]);
                }
                i += 1;
            }
            o.push(b' ');
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}
/// the same token text
fn same_text(a: &[u8], b: &[u8]) -> bool {
    same(&norm(a), &norm(b))
}
/// C01
pub fn css_content(arg: u64) {
    let s = text(arg);
    if let Some(m) = min(&s) {
        reach(1);
        log(s.as_bytes());
        log(m.as_bytes());
        let a = erase(s.as_bytes());
        let b = erase(m.as_bytes());
        check_same(&b, &a, 1);
    }
}
/// the input has no tokenisation errors by the CSS specification
fn clean(l: &Lexed, s: &[u8]) -> bool {
    if l.unclosed {
        return false;
    }
    for t in &l.t {
        if t.k == K::BadStr || t.k == K::BadUrl || (t.k == K::Delim && s[t.a] == b'\\') {
            return false;
        }
    }
    true
}
/// C02 the token sequence
pub fn css_tokens(arg: u64) {
    let s = text(arg);
    if let Some(m) = must(&s) {
        let x = lex(s.as_bytes());
        assume(clean(&x, s.as_bytes()));
        reach(1);
        log(s.as_bytes());
        log(m.as_bytes());
        same_tokens(s.as_bytes(), &x, m.as_bytes(), &lex(m.as_bytes()), 1);
    }
}
fn same_tokens(s: &[u8], x: &Lexed, m: &[u8], y: &Lexed, id: u32) {
    let sel = selectors(s, x);
    let mut i = 0;
    let mut j = 0;
    while i < x.t.len() && j < y.t.len() {
        let t = x.t[i];
        let u = y.t[j];
        if t.k == K::License {
            check(u.k == K::License && same(&s[t.a + 3..t.b], &m[u.a + 3..u.b]), id + 10);
        } else if t.k == K::Delim && s[t.a] == b'+' && u.k != K::Delim {
            // `:nth-child(2n + 1)`: in a selector's An+B the sign may join the number
            check(m[u.a] == b'+' && i + 1 < x.t.len() && x.t[i + 1].gap && sel[i], id + 11);
            i += 1;
            let t = x.t[i];
            check(t.k == u.k && same_text(&s[t.a..t.b], &m[u.a + 1..u.b]), id + 12);
        } else if t.k == K::Url {
            check(u.k == K::Url && same(&erase(&s[t.a..t.b]), &erase(&m[u.a..u.b])), id + 13);
        } else if t.k == K::Str {
            check(t.k == u.k && same(&s[t.a..t.b], &m[u.a..u.b]), id);
        } else {
            check(t.k == u.k && same_text(&s[t.a..t.b], &m[u.a..u.b]), id);
        }
        i += 1;
        j += 1;
    }
    check(i == x.t.len() && j == y.t.len(), id + 14);
}
/// C05
pub fn css_comments(arg: u64) {
    let s = text(arg);
    if let Some(m) = must(&s) {
        let x = lex(s.as_bytes());
        assume(clean(&x, s.as_bytes()));
        let y = lex(m.as_bytes());
        reach(1);
        log(s.as_bytes());
        log(m.as_bytes());
        check(y.comments == 0 && !y.unclosed, 1);
        let mut j = 0;
        for t in &x.t {
            if t.k == K::License {
                while j < y.t.len() && y.t[j].k != K::License {
                    j += 1;
                }
                check(j < y.t.len() && same(&s.as_bytes()[t.a + 3..t.b], &m.as_bytes()[y.t[j].a + 3..y.t[j].b]), 2);
                j += 1;
            }
        }
    }
}
/// C07
pub fn css_idem(arg: u64) {
    let s = text(arg);
    if let Some(m) = min(&s) {
        reach(1);
        log(s.as_bytes());
        match min(&m) {
            Some(n) => check_same(n.as_bytes(), m.as_bytes(), 1),
            None => check(false, 2),
        }
    }
}
/// C09
pub fn css_size(arg: u64) {
    let s = text(arg);
    if let Some(m) = min(&s) {
        reach(1);
        log(s.as_bytes());
        log(m.as_bytes());
        // one space may follow each at-keyword, one newline each licence
        let s8 = s.as_bytes();
        let mut at = 0;
        for i in 0..s8.len() {
            at += (s8[i] == b'@') as usize;
            at += ((s8[i] == b'!' || s8[i] == b'*') && i > 1 && s8[i - 1] == b'*' && s8[i - 2] == b'/') as usize;
        }
        check(m.len() <= s.len() + at, 1);
    }
}
/// C06: exactly the lexically complete, balanced inputs are accepted
fn balanced(s: &[u8]) -> bool {
    let mut i = 0;
    let mut depth = 0usize;
    let mut br = false;
    let mut url = false;
    // where the current name or hash or at-keyword starts
    let mut run = 0;
    while i < s.len() {
        let c = s[i];
        i += 1;
        if c == b'\\' {
            // the next character is escaped
            i = escape(s, i - 1);
            while i < s.len() && s[i] & 0xc0 == 0x80 {
                i += 1;
            }
            continue;
        } else if c == b'"' || c == b'\'' {
            loop {
                if i >= s.len() {
                    return false;
                }
                let d = s[i];
                i += 1;
                if d == c {
                    break;
                }
                if d == b'\\' {
                    i += 1;
                }
            }
        } else if c == b'/' && !url && i < s.len() && s[i] == b'*' {
            i += 1;
            loop {
                if i + 1 >= s.len() {
                    return false;
                }
                if s[i] == b'*' && s[i + 1] == b'/' {
                    break;
                }
                i += 1;
            }
            i += 2;
        } else if c == b'(' {
            // comments do not exist in an unquoted url
            url = url || is_url(s, run, i - 1);
        } else if c == b')' {
            url = false;
        } else if c == b'[' {
            if br {
                return false;
            }
            br = true;
        } else if c == b']' {
            if !br {
                return false;
            }
            br = false;
        } else if c == b'{' {
            depth += 1;
        } else if c == b'}' {
            if depth == 0 {
                return false;
            }
            depth -= 1;
        }
        if !(name(c) || c == b'#' || c == b'@') {
            run = i;
        }
    }
    true
}
pub fn css_accept(arg: u64) {
    let s = text(arg);
    log(s.as_bytes());
    let b = balanced(s.as_bytes());
    reach(if b { 1 } else { 2 });
    check(min(&s).is_some() == b, 1);
}

/// does the parenthesis at `i`, after the name from `run`, open an unquoted url?
fn is_url(s: &[u8], run: usize, i: usize) -> bool {
    if i - run != 3 || s[i - 3] | 32 != b'u' || s[i - 2] | 32 != b'r' || s[i - 1] | 32 != b'l' {
        return false;
    }
    let mut j = i + 1;
    while j < s.len() && is_ws(s[j]) {
        j += 1;
    }
    !(j < s.len() && (s[j] == b'"' || s[j] == b'\''))
}
/// For each token: is it part of a style rule's selectors (before a block that no at-keyword starts)?
fn selectors(s: &[u8], x: &Lexed) -> Vec<bool> {
    let mut r = vec![false; x.t.len()];
    let mut start = 0;
    for i in 0..x.t.len() {
        let t = x.t[i];
        if t.k != K::Punct {
            continue;
        }
        let c = s[t.a];
        if c == b'{' || c == b'}' || c == b';' {
            if c == b'{' {
                let mut f = start;
                while f < i && x.t[f].k == K::License {
                    f += 1;
                }
                if x.t[f].k != K::At && !(x.t[f].k == K::Delim && s[x.t[f].a] == b'@') {
                    for q in start..i {
                        r[q] = true;
                    }
                }
            }
            start = i + 1;
        }
    }
    r
}
fn ends(s: &[u8], t: T) -> bool {
    match t.k {
        K::Ident | K::Hash | K::Num | K::Perc | K::Dim => true,
        K::Delim => s[t.a] == b'*' || s[t.a] == b'&',
        K::Punct => s[t.a] == b']' || s[t.a] == b')',
        _ => false,
    }
}
fn starts(s: &[u8], t: T) -> bool {
    match t.k {
        K::Ident | K::Function | K::Hash => true,
        K::Delim => s[t.a] == b'*' || s[t.a] == b'&' || s[t.a] == b'.' || s[t.a] == b'|',
        K::Punct => s[t.a] == b'[' || s[t.a] == b':',
        _ => false,
    }
}
/// a part of a compound selector that cannot be its first token's continuation
fn opens_part(s: &[u8], x: &Lexed, i: usize) -> bool {
    let t = x.t[i];
    let n = i + 1 < x.t.len() && !x.t[i + 1].gap && (x.t[i + 1].k == K::Ident || x.t[i + 1].k == K::Function);
    match t.k {
        K::Hash => true,
        K::Delim => s[t.a] == b'.' && n,
        K::Punct => s[t.a] == b'[' || (s[t.a] == b':' && n),
        _ => false,
    }
}
/// The selectors of all style rules, one byte string: tokens, and a space for each descendant combinator.
fn canonical(s: &[u8], x: &Lexed, input: bool) -> Vec<u8> {
    let sel = selectors(s, x);
    let mut o = vec![];
    for i in 0..x.t.len() {
        if !sel[i] {
            o.push(b';');
            continue;
        }
        let t = x.t[i];
        if input && t.k == K::Delim {
            assume(s[t.a] != b'@');
        }
        if i > 0 && sel[i - 1] && t.gap && ends(s, x.t[i - 1]) && starts(s, t) {
            if t.ws {
                o.push(b' ');
            } else if input {
                // only a comment between them: valid inside a compound selector
                assume(opens_part(s, x, i));
            }
        }
        if input && t.k == K::License {
            assume(i == 0 || !sel[i - 1]);
        }
        if t.k == K::Url {
            o.extend_from_slice(&erase(&s[t.a..t.b]));
        } else if t.k == K::Str {
            o.extend_from_slice(&s[t.a..t.b]);
        } else if t.k != K::License {
            o.extend_from_slice(&norm(&s[t.a..t.b]));
        }
    }
    o
}
/// C03
pub fn css_selectors(arg: u64) {
    let s = text(arg);
    if let Some(m) = must(&s) {
        let x = lex(s.as_bytes());
        assume(clean(&x, s.as_bytes()));
        let a = canonical(s.as_bytes(), &x, true);
        let y = lex(m.as_bytes());
        let b = canonical(m.as_bytes(), &y, false);
        reach(1);
        log(s.as_bytes());
        log(m.as_bytes());
        // a `+` of An+B may have joined its number, so compare without the token boundaries
        check_same(&b, &a, 1);
    }
}
/// C04: binary `+` and `-` keep the whitespace on both sides, in the values of declarations and at-rules
pub fn css_math(arg: u64) {
    let s = text(arg);
    if let Some(m) = must(&s) {
        let s = s.as_bytes();
        let m = m.as_bytes();
        let x = lex(s);
        assume(clean(&x, s));
        let sel = selectors(s, &x);
        let y = lex(m);
        log(s);
        log(m);
        let mut j = 0;
        for i in 0..x.t.len() {
            let t = x.t[i];
            if t.k != K::Delim || !(s[t.a] == b'+' || s[t.a] == b'-') || sel[i] || i == 0 || i + 1 >= x.t.len() {
                continue;
            }
            let c = s[t.a];
            if !(t.ws && x.t[i + 1].ws && operand_end(s, x.t[i - 1]) && operand_start(s, x.t[i + 1])) {
                continue;
            }
            // the same operator in the output: the tokens before it are the same tokens
            let mut k = 0;
            let mut want = 0;
            for q in 0..i {
                want += (x.t[q].k == K::Delim && s[x.t[q].a] == c) as usize;
            }
            j = 0;
            while j < y.t.len() && !(y.t[j].k == K::Delim && m[y.t[j].a] == c && { k += 1; k > want }) {
                j += 1;
            }
            reach(1);
            check(j < y.t.len() && y.t[j].ws && j + 1 < y.t.len() && y.t[j + 1].ws, 1);
        }
        let _ = j;
    }
}
fn operand_end(s: &[u8], t: T) -> bool {
    matches!(t.k, K::Ident | K::Num | K::Perc | K::Dim) || (t.k == K::Punct && s[t.a] == b')')
}
fn operand_start(s: &[u8], t: T) -> bool {
    matches!(t.k, K::Ident | K::Num | K::Perc | K::Dim | K::Function) || (t.k == K::Punct && s[t.a] == b'(')
}
/// C10: whitespace that separates nothing is gone
pub fn css_needless(arg: u64) {
    let s = text(arg);
    if let Some(m) = must(&s) {
        let x = lex(s.as_bytes());
        assume(clean(&x, s.as_bytes()));
        let m = m.as_bytes();
        let y = lex(m);
        reach(1);
        log(s.as_bytes());
        log(m);
        let sel = selectors(m, &y);
        // no blocks in parentheses
        let mut depth = 0i32;
        for t in &y.t {
            let c = if t.b - t.a == 1 || t.k == K::Function { m[t.b - 1] } else { 0 };
            if c == b'(' {
                depth += 1;
            } else if c == b')' {
                depth -= 1;
            } else if c == b'{' || c == b'}' {
                assume(depth == 0);
            }
        }
        // gaps in calc() are kept, and after a word that looks like one
        let calc = y.t.iter().any(|t| t.b >= t.a + 4 && t.b <= t.a + 5 && m[t.a..].starts_with(b"calc"));
        let at = y.t.iter().any(|t| t.k == K::At);
        let (mut declaration, mut level) = (false, 0);
        let mut end = 0;
        let n = y.t.len();
        for i in 0..=n {
            let start = if i < n { y.t[i].a } else { m.len() };
            let gap = start - end;
            if i > 0 {
                let t = y.t[i - 1];
                let c = if t.b - t.a == 1 { m[t.a] } else { 0 };
                if c == b'{' || c == b'}' || c == b';' {
                    level += (c == b'{') as i32 - (c == b'}') as i32;
                    declaration = false;
                } else if c == b':' && level > 0 && !calc && !at {
                    declaration = !sel[i - 1];
                }
            }
            // an at-keyword and a licence are followed by one
            let feed = m[end..start].contains(&0x0c);
            if i > 0 && y.t[i - 1].k == K::Delim {
                assume(m[y.t[i - 1].a] != b'@');
            }
            if i > 0 && y.t[i - 1].k == K::At {
                // `@a.b`: not an at-rule
                assume(gap > 0 && !feed);
            }
            let free = feed || i > 0 && (y.t[i - 1].k == K::License || y.t[i - 1].k == K::At);
            if gap > 0 && !free {
                reach(2);
                check(i > 0, 1);
                check(gap == 1, 3);
                if i > 0 && i < n {
                    let (p, q) = (y.t[i - 1], y.t[i]);
                    let before = if p.b - p.a == 1 || p.k == K::Function { m[end - 1] } else { 0 };
                    let after = if q.b - q.a == 1 { m[start] } else { 0 };
                    check(!b"{};,>:(".contains(&before), 4);
                    let word = |k: K| matches!(k, K::Ident | K::Num | K::Dim | K::Perc | K::Str | K::Function);
                    if declaration {
                        check(!(b"*/=".contains(&before) && word(q.k)), 7);
                        check(!(b"*/=".contains(&after) && word(p.k)), 8);
                    }
                    check(!b"{};".contains(&after) || before == b']', 5);
                    check(!(b",>".contains(&after) && sel[i] && !calc) || before == b']', 6);
                }
            }
            if gap > 0 && free && !feed {
                check(gap <= 2, 10);
            }
            if i < n {
                let t = y.t[i];
                end = t.b;
            }
        }
    }
}
